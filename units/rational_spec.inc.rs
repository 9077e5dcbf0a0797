//@ item math/src/support/rational.rs::Rounding as RatRounding
/// how far a fraction has to be shifted to fit 128 bits on both sides
pub open spec fn rshift(n: int, d: int) -> int { imax(imax(nbits(n), nbits(d)) - 128, 0) }
pub open spec fn bias_n(m: RatRounding) -> int { if m is Up { 1 } else { 0 } }
pub open spec fn bias_d(m: RatRounding) -> int { if m is Down { 1 } else { 0 } }
/// the fraction n/d on two 128-bit integers
pub open spec fn rnum(n: int, d: int, m: RatRounding) -> int { if rshift(n, d) > 0 { imax(imin(n / pow2s(rshift(n, d)) + bias_n(m), u128::MAX as int), if n == 0 { 0 } else { 1 }) } else { n } }
pub open spec fn rden(n: int, d: int, m: RatRounding) -> int { if rshift(n, d) > 0 { imax(imin(d / pow2s(rshift(n, d)) + bias_d(m), u128::MAX as int), 1) } else { d } }
//@ include pow2.inc.rs
pub proof fn lem_nbits(n: int) requires n >= 0 ensures nbits(n) >= 0, n < pow2s(nbits(n)), n > 0 ==> n >= pow2s(nbits(n) - 1) decreases n
{ if n > 0 { lem_nbits(n / 2); lem_pow2(nbits(n / 2)); if n / 2 == 0 { assert(nbits(0) == 0); } else { lem_pow2(nbits(n / 2) - 1); } } }
/// shifting by rshift leaves 128 bits
pub proof fn lem_rshift(n: int, d: int)
    requires n >= 0, d >= 0,
    ensures rshift(n, d) == 0 ==> n < p128() && d < p128(), rshift(n, d) > 0 ==> 0 <= n / pow2s(rshift(n, d)) < p128() && 0 <= d / pow2s(rshift(n, d)) < p128(), pow2s(rshift(n, d)) > 0,
{
    let s = rshift(n, d); lem_nbits(n); lem_nbits(d); lem_pow2(s);
    assert(pow2s(128) == p128()) by { lem_pow2_add(64, 64); assert(pow2s(64) == 18446744073709551616) by (compute); assert(18446744073709551616int * 18446744073709551616int == p128()) by (compute); }
    lem_pow2_mono(nbits(n), 128 + s); lem_pow2_mono(nbits(d), 128 + s); lem_pow2_add(128, s);
    let a = p128(); let b = pow2s(s);
    lem_div_pos(n, b); lem_div_pos(d, b); lem_div(n, b); lem_div(d, b);
    if s > 0 {
        let q = n / b; let t = d / b;
        assert(q < a) by (nonlinear_arith) requires q * b <= n, n < a * b, b > 0;
        assert(t < a) by (nonlinear_arith) requires t * b <= d, d < a * b, b > 0;
    } else { assert(b == 1); assert(a * 1 == a); }
}
pub broadcast proof fn lem_nbits_b(n: int) ensures #![trigger nbits(n)] nbits(n) >= 0 { if n >= 0 { lem_nbits(n); } }
impl RatRounding {
//@ fn math/src/support/rational.rs::Rounding::to_bias(magnitude)
//@ ensures r.0 == (if self is Up { magnitude as int } else { 0 }), r.1 == (if self is Down { magnitude as int } else { 0 })
//@ end
}
