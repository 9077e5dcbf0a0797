pub proof fn lem_pow2(k: int) ensures pow2s(k) > 0, k >= 0 ==> pow2s(k + 1) == 2 * pow2s(k) decreases k { if k > 0 { lem_pow2(k - 1); } }
pub proof fn lem_pow2_add(a: int, b: int) requires a >= 0, b >= 0 ensures pow2s(a + b) == pow2s(a) * pow2s(b) decreases b
{ if b > 0 { lem_pow2_add(a, b - 1); lem_pow2(a + b - 1); lem_pow2(b - 1); assert(2 * (pow2s(a) * pow2s(b - 1)) == pow2s(a) * (2 * pow2s(b - 1))) by (nonlinear_arith); } else { assert(pow2s(a) * 1 == pow2s(a)); } }
pub proof fn lem_pow2_mono(a: int, b: int) requires a <= b ensures pow2s(a) <= pow2s(b) decreases b - a
{ lem_pow2(a); lem_pow2(b); if a < b { if b > 0 { lem_pow2_mono(a, b - 1); lem_pow2(b - 1); } } }
