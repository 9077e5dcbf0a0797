/// nearest (ties down) quotient, saturating at one
pub open spec fn sat1(v: int) -> int { if v > u128::MAX { one127() } else { v } }
pub open spec fn near(a: int, b: int, c: int) -> int { sat1(ndiv(a * b, c)) }
//@ fn math/src/fraction.rs::frac(n, d)
//@ requires n <= d
//@ ensures r@ == (if d == 0 { one127() } else { ndiv(n * one127(), d as int) })
//@ pre broadcast use vxf; broadcast use vxr; proof { lem_unit(); if d > 0 { lem_frac(n as int, d as int); } }
//@ end
//@ fn math/src/fraction.rs::to_fixed(f)
//@ requires f@ <= one127()
//@ ensures r@ == ndiv(d18() * f@, one127())
//@ pre broadcast use vxf; broadcast use vxr; proof { lem_unit(); lem_scale(d18(), f@); }
//@ end
//@ fn math/src/fraction.rs::from_fixed(f)
//@ requires f@ <= d18()
//@ ensures r@ == ndiv(f@ * one127(), d18())
//@ pre broadcast use vxf; broadcast use vxr; proof { lem_unit(); lem_frac(f@, d18()); }
//@ end
//@ fn math/src/fraction.rs::multiply_by_balance(f, b)
//@ requires f@ <= one127()
//@ ensures r as int == ndiv(b * f@, one127())
//@ pre broadcast use vxf; broadcast use vxr; proof { lem_unit(); lem_scale(b as int, f@); }
//@ end
//@ fn math/src/fraction.rs::multiply_by_fixed(fraction, fixed)
//@ requires fraction@ <= one127()
//@ ensures r@ == ndiv(fixed@ * fraction@, one127())
//@ pre broadcast use vxf; broadcast use vxr; proof { lem_unit(); lem_scale(fixed@, fraction@); }
//@ end
proof fn lem_unit() ensures DIV as int == one127(), { assert((1u128 << 127) == 0x8000_0000_0000_0000_0000_0000_0000_0000u128) by (bit_vector); }
proof fn lem_ndiv_bound(a: int, c: int, m: int) requires 0 <= a <= m * c, c > 0, ensures 0 <= ndiv(a, c) <= m,
{
    lem_div(a, c); lem_div_pos(a, c); let q = a / c;
    assert(q <= m) by (nonlinear_arith) requires q * c <= a, a <= m * c, c > 0;
    if q == m { assert(a % c == 0) by (nonlinear_arith) requires a == q * c + a % c, a <= m * c, q == m, a % c >= 0; }
}
proof fn lem_frac(n: int, d: int) requires 0 <= n <= d, d > 0, ensures 0 <= n * one127(), 0 <= ndiv(n * one127(), d) <= one127(),
{
    assert(0 <= n * one127() <= one127() * d) by (nonlinear_arith) requires 0 <= n <= d;
    lem_ndiv_bound(n * one127(), d, one127());
}
proof fn lem_scale(b: int, f: int) requires 0 <= b, 0 <= f <= one127(), ensures 0 <= b * f, 0 <= ndiv(b * f, one127()) <= b,
{
    assert(0 <= b * f <= b * one127()) by (nonlinear_arith) requires 0 <= b, 0 <= f <= one127();
    lem_ndiv_bound(b * f, one127(), b);
}
