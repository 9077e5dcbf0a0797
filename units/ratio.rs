//@ root math/src
//@ include prelude.rs
//@ include mathlib.rs
//@ include ratio.inc.rs
impl Ratio {
//@ fn math/src/ratio.rs::<From<u128> for Ratio>::from(n)
//@ rename ratio_from_int
//@ meta call=<Ratio as From<u128>>::from
//@ ensures r.n == n, r.d == 1
//@ end
//@ fn math/src/ratio.rs::<From<(u128, u128)> for Ratio>::from(nd)
//@ rename ratio_from_pair
//@ meta call=<Ratio as From<(u128, u128)>>::from
//@ ensures r.n == nd.0, r.d == (if nd.1 == 0 { 1u128 } else { nd.1 })
//@ end
}
//@ fn math/src/ratio.rs::<From<Ratio> for (u128, u128)>::from(ratio)
//@ rename pair_from_ratio
//@ meta call=<(u128, u128) as From<Ratio>>::from
//@ ensures r.0 == ratio.n, r.1 == ratio.d
//@ end
pub open spec fn lev(o: Ordering) -> bool { o != Ordering::Greater }
/// the comparison is a total order on the values
proof fn c30_order(a: Ratio, b: Ratio, c: Ratio)
    requires a.d > 0, b.d > 0, c.d > 0,
    ensures lev(rcmp(a, b)) <==> a.n * b.d <= b.n * a.d, lev(rcmp(a, b)) || lev(rcmp(b, a)), lev(rcmp(a, b)) && lev(rcmp(b, c)) ==> lev(rcmp(a, c)),
        rcmp(a, b) == Ordering::Equal <==> a.n * b.d == b.n * a.d, rcmp(a, b) == Ordering::Less <==> rcmp(b, a) == Ordering::Greater,
{
    let (p, q, s, t, u, v) = (a.n as int, a.d as int, b.n as int, b.d as int, c.n as int, c.d as int);
    if q == t { assert(p * t <= s * q <==> p <= s) by (nonlinear_arith) requires q == t, q > 0; assert(p * t == s * q <==> p == s) by (nonlinear_arith) requires q == t, q > 0; }
    if t == v { assert(s * v <= u * t <==> s <= u) by (nonlinear_arith) requires v == t, t > 0; }
    if q == v { assert(p * v <= u * q <==> p <= u) by (nonlinear_arith) requires q == v, q > 0; }
    if p * t <= s * q && s * v <= u * t {
        assert(p * v <= u * q) by (nonlinear_arith) requires p * t <= s * q, s * v <= u * t, t > 0, q > 0, v > 0, p >= 0, s >= 0, u >= 0;
    }
}
/// inverting turns the order around and is undone by inverting again
proof fn c30_invert(a: Ratio, b: Ratio, x: Ratio, y: Ratio)
    requires a.d > 0, b.d > 0, a.n > 0, b.n > 0, x.n == a.d, x.d == a.n, y.n == b.d, y.d == b.n,
    ensures lev(rcmp(a, b)) <==> lev(rcmp(y, x)),
{
    c30_order(a, b, b); c30_order(y, x, x);
    assert(a.n * b.d == b.d * a.n && b.n * a.d == a.d * b.n) by (nonlinear_arith);
}
}
fn main(){}
