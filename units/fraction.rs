//@ root math/src
//@ subst fraction.rs|Rounding => PerRounding
//@ include prelude.rs
//@ include fixed.rs
//@ include mathlib.rs
//@ include fx127.rs
pub type Balance = u128;
//@ include fraction.inc.rs
/// a fraction of something never exceeds it and is off by at most half a unit
proof fn c31_part(b: int, f: int)
    requires 0 <= b, 0 <= f <= one127(),
    ensures 0 <= ndiv(b * f, one127()) <= b, -one127() <= 2 * (ndiv(b * f, one127()) * one127() - b * f) < one127(),
        f == one127() ==> ndiv(b * f, one127()) == b, f == 0 ==> ndiv(b * f, one127()) == 0,
{
    lem_scale(b, f); lem_div(b * f, one127());
    if f == one127() { lem_div_is(b * one127(), one127(), b); }
    if f == 0 { assert(b * 0 == 0) by (nonlinear_arith); assert(0int / one127() == 0 && 0int % one127() == 0) by (compute); }
}
/// converting an 18 decimal number to a fraction and back is exact
proof fn c31_roundtrip(f: int)
    requires 0 <= f <= d18(),
    ensures ndiv(d18() * ndiv(f * one127(), d18()), one127()) == f,
{
    lem_frac(f, d18());
    let g = ndiv(f * one127(), d18());
    lem_div(f * one127(), d18());
    let x = d18() * g;
    assert(-d18() <= 2 * (x - f * one127()) <= d18()) by (nonlinear_arith) requires x == d18() * g, g == ndiv(f * one127(), d18()), f * one127() == ((f * one127()) / d18()) * d18() + (f * one127()) % d18(), 0 <= (f * one127()) % d18() < d18();
    lem_div(x, one127());
    let q = x / one127();
    if x >= f * one127() {
        assert(x < f * one127() + one127());
        lem_div_is(x, one127(), f);
        assert(x % one127() == x - f * one127());
    } else {
        assert((f - 1) * one127() == f * one127() - one127()) by (nonlinear_arith);
        lem_div_is(x, one127(), f - 1);
        assert(x % one127() == x - (f - 1) * one127());
    }
}
}
fn main(){}
