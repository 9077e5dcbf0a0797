//@ root math/src
//@ subst fraction.rs|Rounding => PerRounding
//@ include prelude.rs
//@ include fixed.rs
//@ include mathlib.rs
//@ include fx127.rs
pub type Balance = u128;
//@ include fraction.inc.rs
//@ include trans.inc.rs
//@ include ema_bal.inc.rs
/// the average lies between the two amounts, is the exact one to within half a unit, and moves with the weight
proof fn c32_between(p: int, i: int, w: int, v: int)
    requires 0 <= p, 0 <= i, 0 <= w <= one127(), w <= v <= one127(),
    ensures i >= p ==> p <= wavg(p, i, w) <= wavg(p, i, v) <= i, i < p ==> i <= wavg(p, i, v) <= wavg(p, i, w) <= p,
        -one127() <= 2 * (wavg(p, i, w) * one127() - (p * one127() + (i - p) * w)) <= one127(), wavg(p, i, 0) == p, wavg(p, i, one127()) == i, wavg(p, p, w) == p,
{
    let o = one127(); let x = if i >= p { i - p } else { p - i };
    lem_scale(x, w); lem_scale(x, v); lem_div(x * w, o); lem_div(x * v, o);
    assert(x * w <= x * v) by (nonlinear_arith) requires 0 <= x, w <= v;
    lem_ndiv_mono(x * w, x * v);
    let q = ndiv(x * w, o);
    assert((p + q) * o == p * o + q * o && (p - q) * o == p * o - q * o) by (nonlinear_arith);
    if i < p { assert((i - p) * w == -(x * w)) by (nonlinear_arith) requires x == p - i; }
    assert(x * 0 == 0 && 0 * w == 0); lem_div_is(0, o, 0); lem_div_is(x * o, o, x);
}
proof fn lem_ndiv_mono(a: int, b: int) requires 0 <= a <= b ensures ndiv(a, one127()) <= ndiv(b, one127())
{ let o = one127(); lem_div(a, o); lem_div(b, o); lem_div_mono(a, b, o); if a / o == b / o { assert(a % o <= b % o); } }
/// no step leaves everything as it is, one step has the configured weight, and the weight never leaves the unit interval
proof fn c32_steps(s: int, n: int)
    requires 0 <= s <= one127(), n >= 0,
    ensures 0 <= esm(s, n) <= one127(), s < one127() ==> esm(s, 0) == 0, esm(s, 1) == s, esm(one127(), n) == one127(), esm(0, n) == 0,
{
    lem_powhp(one127() - s, n); lem_powhp(one127(), n);
    lem_one(n);
}
/// powers of one are one
proof fn lem_one(n: int) requires n >= 0 ensures powhp(one127(), n) == one127()
{
    lem_spw_one(n);
    if n >= 2 {
        let o = one127();
        assert(0 * (n - 1 + 1) == 0); lem_div_is(0, 1, 0); assert(o * 0 == 0); lem_div_is(0, o, 0);
        assert(tfac(0, n, 1) == 0);
        assert(ser(0, n, 1, o, o, 0) == Some(o));
    }
}
proof fn lem_spw_one(n: int) requires n >= 0 ensures spw(one127(), one127(), n) == one127() decreases n
{
    if n > 0 { let o = one127(); lem_div_is(o * o, o, o); assert(smul(o, o) == o); lem_spw_one(n / 2); }
}
/// the weight of a period lies strictly above zero and is at most one
proof fn c32_period(k: int) requires 0 <= k <= u64::MAX ensures 0 < ndiv(2 * one127(), imax(k, 1) + 1) <= one127(), k <= 1 ==> ndiv(2 * one127(), imax(k, 1) + 1) == one127()
{
    let d = imax(k, 1) + 1; let o = one127(); lem_frac(2, d); lem_div(2 * o, d); lem_div_pos(2 * o, d);
    if ndiv(2 * o, d) <= 0 { let q = (2 * o) / d; assert(2 * o < d) by (nonlinear_arith) requires 2 * o < q * d + d, q <= 0, d > 0; }
    if k <= 1 { lem_div_is(2 * o, 2, o); }
}
}
fn main(){}
