//@ root math/src
//@ subst fraction.rs|Rounding => PerRounding
//@ subst crate::support::rational::Rounding => RatRounding
//@ subst rational.rs|Rounding => RatRounding
//@ subst ema/math.rs|Rounding => RatRounding
//@ include prelude.rs
//@ include fixed.rs
//@ include mathlib.rs
//@ include fx127.rs
pub type Balance = u128;
//@ include rational_spec.inc.rs
//@ include fraction.inc.rs
//@ include trans.inc.rs
//@ include ema_bal.inc.rs
//@ include ratio.inc.rs
//@ include ema_price.inc.rs
/// for a weight of at most one nothing is cut before the final rounding and nothing saturates: the average is the exact one, rounded once
pub open spec fn exact(p: Ratio, i: Ratio, w: int) -> (int, int) {
    let (a, b, c, d) = (p.n as int, p.d as int, i.n as int, i.d as int); let o = one127();
    // p + w/o * (i - p)
    (a * (b * d * o) + (c * b - a * d) * w * b, b * (b * d * o))
}
pub open spec fn exact_down(p: Ratio, i: Ratio, w: int) -> (int, int) {
    let (a, b, c, d) = (p.n as int, p.d as int, i.n as int, i.d as int); let o = one127();
    (a * (b * d * o) - (a * d - c * b) * w * b, b * (b * d * o))
}
proof fn lem_bits_bound(n: int, k: int) requires 0 <= n < pow2s(k), k >= 0 ensures nbits(n) <= k
{ lem_nbits(n); if nbits(n) > k { lem_pow2_mono(k, nbits(n) - 1); if n == 0 { assert(nbits(0) == 0); } } }
proof fn lem_pows() ensures pow2s(128) == p128(), pow2s(127) == one127(), pow2s(256) == p256(), pow2s(383) == p256() * one127(), pow2s(512) == p512(), pow2s(511) * 2 == p512(), pow2s(511) == p256() * one127() * p128()
{
    assert(pow2s(64) == 18446744073709551616) by (compute); lem_pow2_add(64, 64); assert(18446744073709551616int * 18446744073709551616int == p128()) by (compute);
    lem_pow2(127); assert(pow2s(128) == 2 * pow2s(127)); lem_pow2_add(128, 128); lem_pow2_add(256, 127); lem_pow2_add(256, 256); lem_pow2(511); lem_pow2_add(383, 128);
    assert(p128() * p128() == p256()) by (compute); assert(p256() * p256() == p512()) by (compute);
}
proof fn lem_nocut(p: Ratio, x: int, w: int, y: int, m: RatRounding)
    requires 0 <= x < p256(), 0 <= y < p256(), 0 <= w < one127(),
    ensures cut(x * w, y * one127(), m) == (x * w, y * one127()), 0 <= p.n * (y * one127()), 0 <= x * w * p.d, p.n * (y * one127()) + x * w * p.d < p512(), 0 <= p.d * (y * one127()) < p512(),
{
    lem_pows(); let o = one127();
    assert(0 <= x * w < p256() * o) by (nonlinear_arith) requires 0 <= x < p256(), 0 <= w < o;
    assert(0 <= y * o < p256() * o) by (nonlinear_arith) requires 0 <= y < p256(), o > 0;
    lem_bits_bound(x * w, 383); lem_bits_bound(y * o, 383);
    let (a, b, n, d) = (p.n as int, p.d as int, x * w, y * o); let z = p256() * o;
    assert(0 <= a * d < z * p128()) by (nonlinear_arith) requires 0 <= a < p128(), 0 <= d < z;
    assert(0 <= n * b < z * p128()) by (nonlinear_arith) requires 0 <= b < p128(), 0 <= n < z;
    assert(0 <= b * d < z * p128()) by (nonlinear_arith) requires 0 <= b < p128(), 0 <= d < z;
}
proof fn c33_exact(p: Ratio, i: Ratio, w: int)
    requires p.d > 0, i.d > 0, p.n > 0, i.n > 0, 0 < w < one127(),
    ensures i.n * p.d > p.n * i.d ==> pavg(p, i, w) == toprice(exact(p, i, w).0, exact(p, i, w).1, RatRounding::Down),
        i.n * p.d < p.n * i.d ==> pavg(p, i, w) == toprice(exact_down(p, i, w).0, exact_down(p, i, w).1, RatRounding::Up),
        i.n * p.d == p.n * i.d ==> pavg(p, i, w) == ir(p),
{
    let (a, b, c, d) = (p.n as int, p.d as int, i.n as int, i.d as int);
    lem_cmp(p, i);
    lem_prod_u128(p.n, i.d); lem_prod_u128(i.n, p.d); lem_prod_u128(p.d, i.d);
    assert(b * d == d * b) by (nonlinear_arith);
    assert(0 <= b * d < p256()) by { assert(u128::MAX as int * u128::MAX as int + 1 < p256()) by (compute); }
    if c * b > a * d { lem_nocut(p, c * b - a * d, w, d * b, RatRounding::Down); if (c * b - a * d) * w == 0 { assert((c * b - a * d) * w > 0) by (nonlinear_arith) requires c * b - a * d > 0, w > 0; } }
    else if c * b < a * d { lem_nocut(p, a * d - c * b, w, b * d, RatRounding::Up); let (x, y) = (a * (b * d * one127()), (a * d - c * b) * w * b);
        assert(x >= y) by { lem_below(a, b, c, d, w); } if (a * d - c * b) * w == 0 { assert((a * d - c * b) * w > 0) by (nonlinear_arith) requires a * d - c * b > 0, w > 0; } }
    else { assert(pmul(w, 0, b * d) == (0int, 1int)); assert(pmul(w, 0, d * b) == (0int, 1int)); }
}
proof fn lem_below(a: int, b: int, c: int, d: int, w: int)
    requires a > 0, b > 0, c > 0, d > 0, 0 <= w < one127(), a * d > c * b,
    ensures a * (b * d * one127()) >= (a * d - c * b) * w * b,
{
    let o = one127(); let x = a * d - c * b;
    assert(c * b > 0) by (nonlinear_arith) requires c > 0, b > 0;
    assert(x * w <= (a * d) * o) by (nonlinear_arith) requires 0 < x <= a * d, 0 <= w < o;
    assert(x * w * b <= (a * d) * o * b) by (nonlinear_arith) requires x * w <= (a * d) * o, b > 0;
    assert((a * d) * o * b == a * (b * d * o)) by (nonlinear_arith);
}
proof fn lem_cmp(p: Ratio, i: Ratio) requires p.d > 0, i.d > 0 ensures rcmp(i, p) == icmp(i.n * p.d, p.n * i.d)
{
    let (a, b, c, d) = (p.n as int, p.d as int, i.n as int, i.d as int);
    if b == d { assert(c * b < a * d <==> c < a) by (nonlinear_arith) requires b == d, b > 0; assert(c * b == a * d <==> c == a) by (nonlinear_arith) requires b == d, b > 0; }
}
/// the exact average lies between the two prices
proof fn c33_between(p: Ratio, i: Ratio, w: int)
    requires p.d > 0, i.d > 0, p.n > 0, i.n > 0, 0 < w < one127(),
    ensures i.n * p.d >= p.n * i.d ==> p.n * exact(p, i, w).1 <= exact(p, i, w).0 * p.d && exact(p, i, w).0 * i.d <= i.n * exact(p, i, w).1,
        i.n * p.d <= p.n * i.d ==> p.n * exact_down(p, i, w).1 >= exact_down(p, i, w).0 * p.d && exact_down(p, i, w).0 * i.d >= i.n * exact_down(p, i, w).1,
        exact(p, i, w).1 > 0, exact_down(p, i, w).0 >= 0 || i.n * p.d >= p.n * i.d,
{
    let (a, b, c, d) = (p.n as int, p.d as int, i.n as int, i.d as int); let o = one127();
    let k = b * d * o; let x = c * b - a * d; let y = b * k;
    assert(b * d > 0) by (nonlinear_arith) requires b > 0, d > 0;
    assert(k > 0) by (nonlinear_arith) requires b * d > 0, o > 0, k == b * d * o;
    assert(y > 0) by (nonlinear_arith) requires b > 0, k > 0, y == b * k;
    let z = x * w * b;
    assert((a * d - c * b) * w * b == -z) by (nonlinear_arith) requires z == x * w * b, x == c * b - a * d;
    assert(a * y == a * k * b) by (nonlinear_arith) requires y == b * k;
    assert((a * k + z) * b == a * k * b + z * b) by (nonlinear_arith);
    // the other end: c*y - (a*k+z)*d = x * (o - w) * b*d
    let u = b * d;
    assert((a * k + z) * d == a * k * d + x * w * u) by (nonlinear_arith) requires z == x * w * b, u == b * d;
    assert(c * y == (c * b) * k) by (nonlinear_arith) requires y == b * k;
    assert(a * k * d == (a * d) * k) by (nonlinear_arith);
    assert((c * b) * k - (a * d) * k == x * k) by (nonlinear_arith) requires x == c * b - a * d;
    assert(x * k == x * u * o) by (nonlinear_arith) requires k == b * d * o, u == b * d;
    assert(x * w * u == x * u * w) by (nonlinear_arith);
    assert(x * u * o - x * u * w == x * u * (o - w)) by (nonlinear_arith);
    let v = x * u;
    if x >= 0 {
        assert(z * b >= 0) by (nonlinear_arith) requires z == x * w * b, x >= 0, w > 0, b > 0;
        assert(v >= 0) by (nonlinear_arith) requires v == x * u, x >= 0, u > 0;
        assert(v * (o - w) >= 0) by (nonlinear_arith) requires v >= 0, w < o;
    }
    if x <= 0 {
        assert(z * b <= 0) by (nonlinear_arith) requires z == x * w * b, x <= 0, w > 0, b > 0;
        assert(v <= 0) by (nonlinear_arith) requires v == x * u, x <= 0, u > 0;
        assert(v * (o - w) <= 0) by (nonlinear_arith) requires v <= 0, w < o;
        if x < 0 { lem_below(a, b, c, d, w); }
    }
}
/// turning a fraction into a price moves it by at most one unit of its 128 bit numerator and denominator; rounding down does not raise it
/// while its numerator does not vanish, rounding up does not lower it while its denominator does not vanish
proof fn c33_round(n: int, d: int, m: RatRounding)
    requires 0 <= n, 0 < d,
    ensures toprice(n, d, m).1 > 0, -(n + d) <= toprice(n, d, m).0 * d - n * toprice(n, d, m).1 <= n + d,
        rshift(n, d) == 0 ==> toprice(n, d, m) == (n, d),
        m is Down && (n == 0 || n / pow2s(rshift(n, d)) > 0) && toprice(n, d, m).1 < u128::MAX ==> toprice(n, d, m).0 * d <= n * toprice(n, d, m).1,
        m is Up && d / pow2s(rshift(n, d)) > 0 && toprice(n, d, m).0 < u128::MAX ==> toprice(n, d, m).0 * d >= n * toprice(n, d, m).1,
        n > 0 ==> toprice(n, d, m).0 > 0,
{
    let s = rshift(n, d); let b = pow2s(s); lem_rshift(n, d); lem_div(n, b); lem_div(d, b);
    let q = n / b; let t = d / b; let (x, y) = toprice(n, d, m);
    if s > 0 {
        lem_div_pos(n, b); lem_div_pos(d, b);
        assert(-d <= q * d - n * t <= n) by (nonlinear_arith) requires q * b <= n, n < q * b + b, t * b <= d, d < t * b + b, q >= 0, t >= 0, b > 0;
        assert((q + 1) * d == q * d + d && n * (t + 1) == n * t + n && 1 * d == d && n * 1 == n && 0 * d == 0) by (nonlinear_arith);
        assert(0 <= n * y) by (nonlinear_arith) requires n >= 0, y >= 0;
        assert(0 <= x * d) by (nonlinear_arith) requires x >= 0, d >= 0;
        if q == 0 { assert(n * t <= d) by (nonlinear_arith) requires n < b, t * b <= d, n >= 0, t >= 0; }
        if t == 0 { assert(q * d <= n) by (nonlinear_arith) requires d < b, q * b <= n, q >= 0, d >= 0; }
        if m is Down && (n == 0 || q > 0) && y < u128::MAX { if n == 0 { lem_div_is(0, b, 0); assert(0 * y == 0); } else { assert(q * d <= n * (t + 1)) by (nonlinear_arith) requires q * b <= n, d < t * b + b, q >= 0, t >= 0, b > 0, d >= 0; } }
        if m is Up && t > 0 && x < u128::MAX { assert((q + 1) * d >= n * t) by (nonlinear_arith) requires t * b <= d, n < q * b + b, q >= 0, t >= 0, b > 0, n >= 0; }
    } else { assert(n * d == n * d); assert(d * 1 == d && n * 1 == n); }
}
}
fn main(){}
