//@ call Fraction::Bits::from => bits_from
//@ subst transcendental.rs|S => Fraction
//@ subst transcendental.rs|D => Fraction
/// `u128::from(u32)`
pub fn bits_from(x: u32) -> (r: u128) ensures r == x { x as u128 }
pub assume_specification<T> [<T as From<T>>::from](t: T) -> (r: T) ensures r == t;
pub open spec fn smul(a: int, b: int) -> int { imin(mul127(a, b), u128::MAX as int) }
/// square and multiply
pub open spec fn spw(r: int, v: int, e: int) -> int decreases e { if e <= 0 { r } else { spw(if e % 2 == 1 { smul(r, v) } else { r }, smul(v, v), e / 2) } }
/// one term of the binomial series: c*(n-i+1)/i
pub open spec fn tfac(c: int, n: int, i: int) -> int { (c * (n - i + 1)) / i }
/// the binomial series of (1-c)^n from term i on, given the previous term and the sums of the even and the odd ones
pub open spec fn ser(c: int, n: int, i: int, t: int, pos: int, neg: int) -> Option<int> decreases 32 - i
{
    if i >= 32 { None } else {
        let u = mul127(t, tfac(c, n, i));
        let p = if i % 2 == 0 { pos + u } else { pos };
        let m = if i % 2 == 0 { neg } else { neg + u };
        if i >= n || u == 0 { Some(p - m) } else { ser(c, n, i + 1, u, p, m) }
    }
}
pub open spec fn near1(x: int, n: int) -> Option<int> {
    if n == 0 { Some(one127()) } else if n == 1 { Some(x) } else if x > one127() || one127() / n <= one127() - x { None } else { ser(one127() - x, n, 1, one127(), one127(), 0) }
}
pub open spec fn powhp(x: int, n: int) -> int {
    if x == 0 { 0 } else if n == 0 { one127() } else if n == 1 { x }
    else if x <= one127() && (one127() / 10) / n > one127() - x && near1(x, n) is Some { near1(x, n)->0 } else { spw(one127(), x, n) }
}
proof fn lem_bits(e: u32, i: u32)
    requires i < 32,
    ensures (((1u32 << i) & e) > 0) == ((e >> i) % 2 == 1), (e >> i) / 2 == e >> ((i + 1) as u32),
{
    assert((((1u32 << i) & e) > 0) == ((e >> i) % 2 == 1)) by (bit_vector) requires i < 32;
    assert((e >> i) / 2 == e >> ((i + 1) as u32)) by (bit_vector) requires i < 32;
}
proof fn lem_msb(e: u32, k: u32)
    requires e != 0, k as int == 32 - vstd::std_specs::bits::u32_leading_zeros(e),
    ensures 1 <= k <= 32, k < 32 ==> e >> k == 0,
{
    vstd::std_specs::bits::axiom_u32_leading_zeros(e);
    let l = (32 - k) as u32;
    if k < 32 { assert(e >> ((32 - l) as u32) == 0); }
}
//@ fn math/src/transcendental.rs::saturating_pow(operand, exp)
//@ meta inst=::<fixed::types::U1F127>
//@ generics
//@ ensures r@ == spw(one127(), operand@, exp as int)
//@ pre broadcast use vxr; proof { if exp > 0 { lem_msb(exp, (32 - vstd::std_specs::bits::u32_leading_zeros(exp)) as u32); } assert(exp >> 0u32 == exp) by (bit_vector); }
//@ loop 0
//@ invariant 1 <= msb_pos <= 32, msb_pos < 32 ==> exp >> msb_pos == 0, $k < 32 ==> spw(one127(), operand@, exp as int) == spw(result@, pow_val@, (exp >> ($k as u32)) as int), $k == 32 ==> spw(one127(), operand@, exp as int) == result@,
//@ loop-start 0
//@ broadcast use vxr; proof { lem_bits(exp, $k as u32); if $k == 31 { assert((exp >> 31u32) / 2 == 0) by (bit_vector); reveal_with_fuel(spw, 3); } }
//@ end
/// a term is at most 1/i of the one before it
proof fn lem_term(t: int, c: int, n: int, i: int)
    requires 0 <= t, 0 <= c, c * n < one127(), 1 <= i <= n,
    ensures 0 <= c * (n - i + 1) < one127(), 0 <= tfac(c, n, i) < one127(), 0 <= mul127(t, tfac(c, n, i)), mul127(t, tfac(c, n, i)) * i <= t,
{
    assert(0 <= c * (n - i + 1) <= c * n) by (nonlinear_arith) requires 0 <= c, 1 <= i <= n;
    let b = c * (n - i + 1); let f = tfac(c, n, i);
    lem_div_pos(b, i); lem_div(b, i);
    assert(f * i <= b && f <= b) by (nonlinear_arith) requires f == b / i, (b / i) * i <= b, i >= 1, f >= 0;
    assert(0 <= t * f) by (nonlinear_arith) requires 0 <= t, 0 <= f;
    lem_div_pos(t * f, one127()); lem_div(t * f, one127());
    let u = mul127(t, f);
    assert(u * i <= t) by (nonlinear_arith) requires u * one127() <= t * f, f * i < one127(), 0 <= t, 0 <= u, i >= 1, one127() > 0;
}
//@ fn math/src/transcendental.rs::powi_near_one(operand, n)
//@ meta inst=::<fixed::types::U1F127>
//@ generics
//@ ensures fro(r) == near1(operand@, n as int)
//@ pre broadcast use vxr; proof { if n >= 2 && operand@ <= one127() { let c = one127() - operand@; lem_div(one127(), n as int); lem_div_pos(one127(), n as int); let q = one127() / (n as int); if q > c { assert(c * n < one127()) by (nonlinear_arith) requires q > c, q * n <= one127(), n > 0; } } }
//@ loop 0
//@ invariant n >= 2, operand@ <= one127(), one_minus_operand@ == one127() - operand@, one_minus_operand@ * n < one127(), $k <= n, near1(operand@, n as int) == ser(one_minus_operand@, n as int, $k as int, t@, s_pos@, s_minus@),
//@ 0 <= t@ <= one127(), s_pos@ <= 2 * one127() - t@, s_minus@ <= 2 * one127() - t@, s_pos@ - s_minus@ <= one127(), $k == 1 ==> t@ == one127() && s_pos@ == one127() && s_minus@ == 0,
//@ $k % 2 == 1 ==> s_pos@ - s_minus@ >= t@, $k % 2 == 0 ==> 0 <= s_pos@ - s_minus@ <= one127() - t@,
//@ loop-start 0
//@ broadcast use vxr; proof { lem_term(t@, one_minus_operand@, n as int, $k as int); let u = mul127(t@, tfac(one_minus_operand@, n as int, $k as int)); if $k >= 2 { assert(2 * u <= t@) by (nonlinear_arith) requires u * $k <= t@, $k >= 2, u >= 0; } else { assert(u <= t@) by (nonlinear_arith) requires u * 1 <= t@; } }
//@ end
//@ fn math/src/transcendental.rs::saturating_powi_high_precision(operand, n)
//@ meta inst=::<fixed::types::U1F127, fixed::types::U1F127>
//@ generics
//@ ensures r@ == powhp(operand@, n as int)
//@ pre broadcast use vxr; proof { lem_div_pos(one127(), 10); }
//@ end
proof fn lem_ser_range(c: int, n: int, i: int, t: int, pos: int, neg: int)
    requires n >= 2, 0 <= c, c * n < one127(), 1 <= i <= n, 0 <= t <= one127(), pos - neg <= one127(), i % 2 == 1 ==> pos - neg >= t, i % 2 == 0 ==> 0 <= pos - neg <= one127() - t,
    ensures ser(c, n, i, t, pos, neg) is Some ==> 0 <= ser(c, n, i, t, pos, neg)->0 <= one127(),
    decreases 32 - i,
{
    if i < 32 {
        lem_term(t, c, n, i);
        let u = mul127(t, tfac(c, n, i));
        if i >= 2 { assert(2 * u <= t) by (nonlinear_arith) requires u * i <= t, i >= 2, u >= 0; } else { assert(u <= t) by (nonlinear_arith) requires u * 1 <= t; }
        if !(i >= n || u == 0) { lem_ser_range(c, n, i + 1, u, if i % 2 == 0 { pos + u } else { pos }, if i % 2 == 0 { neg } else { neg + u }); }
    }
}
proof fn lem_smul_range(a: int, b: int) requires 0 <= a <= one127(), 0 <= b <= one127() ensures 0 <= smul(a, b) <= one127()
{
    assert(0 <= a * b <= one127() * one127()) by (nonlinear_arith) requires 0 <= a <= one127(), 0 <= b <= one127();
    lem_div(a * b, one127()); lem_div_pos(a * b, one127());
    let s = mul127(a, b);
    assert(s <= one127()) by (nonlinear_arith) requires s * one127() <= a * b, a * b <= one127() * one127(), one127() > 0;
}
proof fn lem_spw_range(r: int, v: int, e: int) requires 0 <= r <= one127(), 0 <= v <= one127() ensures 0 <= spw(r, v, e) <= one127() decreases e
{ if e > 0 { lem_smul_range(r, v); lem_smul_range(v, v); lem_spw_range(if e % 2 == 1 { smul(r, v) } else { r }, smul(v, v), e / 2); } }
/// a power of a fraction is a fraction
pub proof fn lem_powhp(x: int, n: int) requires 0 <= x <= one127(), n >= 0 ensures 0 <= powhp(x, n) <= one127()
{
    lem_spw_range(one127(), x, n);
    if n >= 2 && one127() / n > one127() - x {
        let c = one127() - x;
        lem_div(one127(), n); let q = one127() / n;
        assert(c * n < one127()) by (nonlinear_arith) requires q > c, q * n <= one127(), n > 0;
        lem_ser_range(c, n, 1, one127(), one127(), 0);
    }
    if n >= 2 && (one127() / 10) / n > one127() - x { lem_div_pos(one127(), 10); lem_div(one127(), 10); lem_div_mono(one127() / 10, one127(), n); assert(one127() / n > one127() - x); }
}
