pub open spec fn ok32(r: Result<u32, MathError>) -> Option<int> { match r { Ok(v) => Some(v as int), Err(_) => None } }
/// linear interpolation of the weight between two blocks
pub open spec fn spec_weight(x0: int, x1: int, y0: int, y1: int, at: int) -> Option<int> {
    if x0 <= at <= x1 && x0 < x1 { Some((y0 * (x1 - at) + y1 * (at - x0)) / (x1 - x0)) } else { None }
}
//@ fn math/src/lbp/lbp.rs::calculate_linear_weights(start_x, end_x, start_y, end_y, at)
//@ ensures ok32(r) == spec_weight(start_x as int, end_x as int, start_y as int, end_y as int, at as int)
//@ pre broadcast use vx; proof { ax_refl::<u32>(); lem_lin(start_x as int, end_x as int, start_y as int, end_y as int, at as int); }
//@ meta inst=::<u32>
//@ end
proof fn lem_lin(x0: int, x1: int, y0: int, y1: int, at: int)
    requires 0 <= x0 <= u32::MAX, 0 <= x1 <= u32::MAX, 0 <= at <= u32::MAX, 0 <= y0 <= u32::MAX, 0 <= y1 <= u32::MAX,
    ensures x0 <= at <= x1 ==> 0 <= y0 * (x1 - at) <= u32::MAX * u32::MAX && 0 <= y1 * (at - x0) <= u32::MAX * u32::MAX,
        y0 * (x1 - at) == (x1 - at) * y0, y1 * (at - x0) == (at - x0) * y1,
        x0 <= at <= x1 && x0 < x1 ==> imin(y0, y1) <= (y0 * (x1 - at) + y1 * (at - x0)) / (x1 - x0) <= imax(y0, y1),
{
    assert(y0 * (x1 - at) == (x1 - at) * y0 && y1 * (at - x0) == (at - x0) * y1) by (nonlinear_arith);
    if x0 <= at <= x1 {
        assert(0 <= y0 * (x1 - at) <= u32::MAX * u32::MAX && 0 <= y1 * (at - x0) <= u32::MAX * u32::MAX) by (nonlinear_arith)
            requires 0 <= y0 <= u32::MAX, 0 <= y1 <= u32::MAX, 0 <= x1 - at <= u32::MAX, 0 <= at - x0 <= u32::MAX;
        if x0 < x1 {
            let n = y0 * (x1 - at) + y1 * (at - x0); let d = x1 - x0; let lo = imin(y0, y1); let hi = imax(y0, y1);
            assert(lo * d <= n <= hi * d) by (nonlinear_arith) requires n == y0 * (x1 - at) + y1 * (at - x0), d == x1 - x0, lo <= y0 <= hi, lo <= y1 <= hi, x1 - at >= 0, at - x0 >= 0;
            lem_div(n, d); let q = n / d;
            assert(lo <= q <= hi) by (nonlinear_arith) requires lo * d <= n <= hi * d, q * d <= n, n < q * d + d, d > 0;
        }
    }
}
/// the weight never leaves the interval of its end points, which it reaches exactly
proof fn c05_range(x0: int, x1: int, y0: int, y1: int, at: int)
    requires 0 <= x0 <= at <= x1 <= u32::MAX, x0 < x1, 0 <= y0 <= u32::MAX, 0 <= y1 <= u32::MAX,
    ensures imin(y0, y1) <= spec_weight(x0, x1, y0, y1, at)->0 <= imax(y0, y1), spec_weight(x0, x1, y0, y1, x0)->0 == y0, spec_weight(x0, x1, y0, y1, x1)->0 == y1,
{
    lem_lin(x0, x1, y0, y1, at);
    assert(y1 * 0 == 0 && y0 * 0 == 0) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(y0, x1 - x0);
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(y1, x1 - x0);
    assert(y0 * (x1 - x0) == (x1 - x0) * y0 && y1 * (x1 - x0) == (x1 - x0) * y1) by (nonlinear_arith);
}
/// the weight moves monotonically from the initial to the final one
proof fn c05_monotone(x0: int, x1: int, y0: int, y1: int, at: int, bt: int)
    requires 0 <= x0 <= at <= bt <= x1, x0 < x1,
    ensures y0 <= y1 ==> spec_weight(x0, x1, y0, y1, at)->0 <= spec_weight(x0, x1, y0, y1, bt)->0,
        y0 >= y1 ==> spec_weight(x0, x1, y0, y1, at)->0 >= spec_weight(x0, x1, y0, y1, bt)->0,
{
    let na = y0 * (x1 - at) + y1 * (at - x0); let nb = y0 * (x1 - bt) + y1 * (bt - x0);
    assert(nb - na == (y1 - y0) * (bt - at)) by (nonlinear_arith) requires na == y0 * (x1 - at) + y1 * (at - x0), nb == y0 * (x1 - bt) + y1 * (bt - x0);
    if y0 <= y1 { assert(na <= nb) by (nonlinear_arith) requires nb - na == (y1 - y0) * (bt - at), y0 <= y1, at <= bt; lem_div_mono(na, nb, x1 - x0); }
    if y0 >= y1 { assert(nb <= na) by (nonlinear_arith) requires nb - na == (y1 - y0) * (bt - at), y0 >= y1, at <= bt; lem_div_mono(nb, na, x1 - x0); }
}
/// a pool whose two weights are interpolated with the same total keeps that total within one unit
proof fn c05_total(x0: int, x1: int, y0: int, y1: int, z0: int, z1: int, at: int)
    requires 0 <= x0 <= at <= x1, x0 < x1, y0 + z0 == y1 + z1,
    ensures y0 + z0 - 1 <= spec_weight(x0, x1, y0, y1, at)->0 + spec_weight(x0, x1, z0, z1, at)->0 <= y0 + z0,
{
    let d = x1 - x0; let s = y0 + z0;
    let a = y0 * (x1 - at) + y1 * (at - x0); let b = z0 * (x1 - at) + z1 * (at - x0);
    assert(a + b == s * d) by (nonlinear_arith) requires a == y0 * (x1 - at) + y1 * (at - x0), b == z0 * (x1 - at) + z1 * (at - x0), y0 + z0 == s, y1 + z1 == s, d == x1 - x0;
    lem_div(a, d); lem_div(b, d);
    let p = a / d; let q = b / d;
    assert(s - 1 <= p + q <= s) by (nonlinear_arith) requires a + b == s * d, p * d <= a, a < p * d + d, q * d <= b, b < q * d + d, d > 0;
}
