pub type EmaPrice = Ratio;
/// the difference of two prices as a fraction
pub open spec fn psub(l: Ratio, r: Ratio) -> (int, int) { if l.n == 0 || r.n == 0 { (l.n as int, l.d as int) } else { (imax(l.n * r.d - r.n * l.d, 0), l.d * r.d) } }
/// a part of a fraction
pub open spec fn pmul(f: int, n: int, d: int) -> (int, int) { if f == 0 || n == 0 { (0, 1) } else if f == one127() { (n, d) } else { (n * f, d * one127()) } }
/// how far a fraction has to be shifted to fit 383 bits on both sides
pub open spec fn cshift(n: int, d: int) -> int { imax(imax(nbits(n), nbits(d)) - 383, 0) }
pub open spec fn cut(n: int, d: int, m: RatRounding) -> (int, int) {
    let s = cshift(n, d);
    if s > 0 { (imax(imin(n / pow2s(s) + bias_n(m), p512() - 1), if n == 0 { 0 } else { 1 }), imax(imin(d / pow2s(s) + bias_d(m), p512() - 1), 1)) } else { (n, d) }
}
pub open spec fn sat512(x: int) -> int { imin(x, p512() - 1) }
/// the fraction as a price
pub open spec fn toprice(n: int, d: int, m: RatRounding) -> (int, int) { (rnum(n, d, m), imax(rden(n, d, m), 1)) }
pub open spec fn ir(r: Ratio) -> (int, int) { (r.n as int, r.d as int) }
pub open spec fn padd(l: Ratio, n: int, d: int, m: RatRounding) -> (int, int) {
    if l.n == 0 { toprice(n, d, RatRounding::Nearest) } else if n == 0 { ir(l) }
    else { let c = cut(n, d, m); toprice(sat512(sat512(l.n * c.1) + sat512(c.0 * l.d)), sat512(l.d * c.1), m) }
}
pub open spec fn psub2(l: Ratio, n: int, d: int, m: RatRounding) -> (int, int) {
    if l.n == 0 || n == 0 { ir(l) }
    else { let c = cut(n, d, m); toprice(imax(sat512(l.n * c.1) - sat512(c.0 * l.d), 0), sat512(l.d * c.1), m) }
}
pub open spec fn pavg(p: Ratio, i: Ratio, w: int) -> (int, int) {
    if rcmp(i, p) != Ordering::Less { let s = psub(i, p); let x = pmul(w, s.0, s.1); padd(p, x.0, x.1, RatRounding::Down) }
    else { let s = psub(p, i); let x = pmul(w, s.0, s.1); psub2(p, x.0, x.1, RatRounding::Up) }
}
pub broadcast proof fn lem_mul_pos_b(a: int, b: int) ensures #![trigger a * b] a >= 0 && b >= 0 ==> a * b >= 0 { if a >= 0 && b >= 0 { lem_mul_pos(a, b); } }
//@ fn math/src/ema/math.rs::saturating_sub(l, o)
//@ ensures r.0@ == psub(l, o).0, r.1@ == psub(l, o).1
//@ pre broadcast use vx, lem_mul_pos_b; proof { lem_prod_u128(l.n, o.d); lem_prod_u128(o.n, l.d); lem_prod_u128(l.d, o.d); }
//@ end
//@ fn math/src/ema/math.rs::multiply(f, rnd)
//@ requires f@ <= one127()
//@ ensures r.0@ == pmul(f@, rnd.0@, rnd.1@).0, r.1@ == pmul(f@, rnd.0@, rnd.1@).1
//@ pre broadcast use vx, vxr, lem_mul_pos_b; proof { lem_unit(); lem_prod_256(rnd.0@, f@); lem_prod_256(rnd.1@, one127()); }
//@ end
proof fn lem_prod_256(a: int, b: int) requires 0 <= a < p256(), 0 <= b <= one127() ensures 0 <= a * b < p512() { assert(0 <= a * b < p256() * one127()) by (nonlinear_arith) requires 0 <= a < p256(), 0 <= b <= one127(), one127() > 0; assert(p256() * one127() < p512()) by (compute); }
proof fn lem_cut(n: int, d: int)
    requires 0 <= n, 0 <= d,
    ensures pow2s(cshift(n, d)) > 0, 0 <= n / pow2s(cshift(n, d)) <= n, 0 <= d / pow2s(cshift(n, d)) <= d,
{
    let b = pow2s(cshift(n, d)); lem_pow2(cshift(n, d)); lem_div(n, b); lem_div(d, b); lem_div_pos(n, b); lem_div_pos(d, b);
    let q = n / b; let t = d / b;
    assert(q <= n) by (nonlinear_arith) requires q * b <= n, b >= 1, q >= 0;
    assert(t <= d) by (nonlinear_arith) requires t * b <= d, b >= 1, t >= 0;
}
//@ fn math/src/ema/math.rs::round(nd, rounding)
//@ ensures r.0@ == cut(nd.0@, nd.1@, rounding).0, r.1@ == cut(nd.0@, nd.1@, rounding).1
//@ pre broadcast use vx, lem_nbits_b; proof { lem_cut(nd.0@, nd.1@); }
//@ end
//@ fn math/src/ema/math.rs::round_to_rational(nd, rounding)
//@ ensures ir(r) == toprice(nd.0@, nd.1@, rounding)
//@ pre broadcast use vx, lem_nbits_b; proof { lem_rshift(nd.0@, nd.1@); }
//@ end
//@ fn math/src/ema/math.rs::rounding_add(l, rnd, rounding)
//@ ensures ir(r) == padd(l, rnd.0@, rnd.1@, rounding)
//@ pre broadcast use vx, lem_mul_pos_b;
//@ end
//@ fn math/src/ema/math.rs::rounding_sub(l, rnd, rounding)
//@ ensures ir(r) == psub2(l, rnd.0@, rnd.1@, rounding)
//@ pre broadcast use vx, lem_mul_pos_b;
//@ end
//@ fn math/src/ema/math.rs::price_weighted_average(prev, incoming, weight)
//@ requires weight@ <= one127()
//@ ensures ir(r) == pavg(prev, incoming, weight@)
//@ pre broadcast use vx;
//@ end
//@ fn math/src/ema/math.rs::iterated_price_ema(iterations, prev, incoming, smoothing)
//@ requires smoothing@ <= one127()
//@ ensures ir(r) == pavg(prev, incoming, esm(smoothing@, iterations as int))
//@ end
//@ fn math/src/ema/math.rs::calculate_new_by_integrating_incoming(previous, incoming, smoothing)
//@ requires smoothing@ <= one127()
//@ ensures ir(r.0) == pavg(previous.0, incoming.0, smoothing@), iv(r.1) == vol(previous.1, incoming.1, smoothing@), il(r.2) == liq(previous.2, incoming.2, smoothing@)
//@ end
//@ fn math/src/ema/math.rs::update_outdated_to_current(iterations, outdated, update_with, smoothing)
//@ requires smoothing@ <= one127()
//@ ensures ir(r.0) == pavg(outdated.0, update_with.0, esm(smoothing@, iterations as int)), iv(r.1) == vol(outdated.1, (0, 0, 0, 0), esm(smoothing@, iterations as int)), il(r.2) == liq(outdated.2, update_with.1, esm(smoothing@, iterations as int))
//@ end
