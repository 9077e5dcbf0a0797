//@ root math/src
//@ include prelude.rs
//@ include fixed.rs
//@ include mathlib.rs
//@ include omni_items.inc.rs
pub open spec fn mil() -> int { 1_000_000 }
/// 18-decimal ratio, rounded down
pub open spec fn rat(n: int, d: int) -> Option<int> { if d == 0 { None } else { fit128((n * d18()) / d) } }
pub open spec fn fmul(a: int, b: int) -> Option<int> { fit128((a * b) / d18()) }
pub open spec fn omul(a: Option<int>, b: Option<int>) -> Option<int> { match (a, b) { (Some(x), Some(y)) => fmul(x, y), _ => None } }
/// what a rate leaves, with 18 decimals
pub open spec fn left(f: int) -> Option<int> { rat(mil() - f, mil()) }
pub open spec fn spec_tvl(h: int, sr: int, sq: int) -> Option<int> { if sq == 0 { None } else { fit128((h * sr) / sq) } }
/// value of a in b: hub per a times b per hub, less both fees
pub open spec fn spec_spot(ra: int, qa: int, rb: int, qb: int, fees: bool, pf: int, af: int) -> Option<int> {
    let p = omul(rat(qa, ra), rat(rb, qb));
    if fees { omul(omul(p, left(pf)), left(af)) } else { p }
}
pub open spec fn spec_lrna_spot(r: int, q: int, fees: bool, af: int) -> Option<int> { if fees { omul(rat(r, q), left(af)) } else { rat(r, q) } }
/// room below the weight cap, in the asset
pub open spec fn spec_cap_diff(r: int, q: int, cap: int, tq: int) -> Option<int> {
    match fmul(cap, tq) { None => None, Some(m) => match rat(q, m) { None => None, Some(p) => if p > d18() { Some(0int) } else { fmul(d18() - p, r) } } }
}
/// room below the value cap, in the asset
pub open spec fn spec_tvl_diff(r: int, q: int, sr: int, sq: int, cap: int, tq: int) -> Option<int> {
    if sr == 0 { None } else if (cap * sq) / sr < tq { Some(0int) } else if q == 0 || ((cap * sq) / sr - tq) * r >= p256() { None } else { fit128((((cap * sq) / sr - tq) * r) / q) }
}
pub open spec fn spec_verify(q: int, cap: int, h: int, tq: int) -> Option<bool> {
    if q + h > u128::MAX || tq + h > u128::MAX { None } else { match rat(q + h, tq + h) { None => None, Some(w) => Some(w <= cap) } }
}
proof fn lem_mm(a: int, b: int) requires 0 <= a <= u128::MAX, 0 <= b <= u128::MAX, ensures 0 <= a * b, a * b < p256(),
{
    assert(a * b <= u128::MAX * u128::MAX) by (nonlinear_arith) requires 0 <= a <= u128::MAX, 0 <= b <= u128::MAX; assert(0 <= a * b) by (nonlinear_arith) requires 0 <= a, 0 <= b;
    assert(u128::MAX * u128::MAX < p256()) by (compute);
}
//@ fn math/src/omnipool/math.rs::calculate_tvl(hub_reserve, stable_asset)
//@ ensures into_(r) == spec_tvl(hub_reserve as int, stable_asset.0 as int, stable_asset.1 as int)
//@ pre broadcast use vxf; proof { lem_mm(hub_reserve as int, stable_asset.0 as int); }
//@ end
//@ fn math/src/omnipool/math.rs::calculate_spot_price(asset_a, asset_b, fee)
//@ ensures fxo(r) == spec_spot(asset_a.reserve as int, asset_a.hub_reserve as int, asset_b.reserve as int, asset_b.hub_reserve as int, fee.is_some(), (fee->0).0@, (fee->0).1@)
//@ pre broadcast use vxf;
//@ end
//@ fn math/src/omnipool/math.rs::calculate_lrna_spot_price(asset, fee)
//@ ensures fxo(r) == spec_lrna_spot(asset.reserve as int, asset.hub_reserve as int, fee.is_some(), fee->0@)
//@ pre broadcast use vxf;
//@ end
//@ fn math/src/omnipool/math.rs::calculate_cap_difference(asset, asset_cap, total_hub_reserve)
//@ ensures into_(r) == spec_cap_diff(asset.reserve as int, asset.hub_reserve as int, asset_cap as int, total_hub_reserve as int)
//@ pre broadcast use vxf;
//@ end
//@ fn math/src/omnipool/math.rs::calculate_tvl_cap_difference(asset, stable_asset, tvl_cap, total_hub_reserve)
//@ ensures into_(r) == spec_tvl_diff(asset.reserve as int, asset.hub_reserve as int, stable_asset.reserve as int, stable_asset.hub_reserve as int, tvl_cap as int, total_hub_reserve as int)
//@ pre broadcast use vxf; proof { lem_mm(tvl_cap as int, stable_asset.hub_reserve as int); }
//@ end
//@ fn math/src/omnipool/math.rs::verify_asset_cap(asset, asset_cap, hub_amount, total_hub_reserve)
//@ ensures r == spec_verify(asset.hub_reserve as int, asset_cap as int, hub_amount as int, total_hub_reserve as int)
//@ pre broadcast use vxf;
//@ end
/// an accepted deposit leaves the asset's weight below its cap plus the last of the 18 decimals, a rejected one would exceed the cap
proof fn c26_weight(q: int, cap: int, h: int, tq: int)
    requires 0 <= q, 0 <= cap, 0 <= h, 0 <= tq,
    ensures spec_verify(q, cap, h, tq) == Some(true) ==> (q + h) * d18() < (cap + 1) * (tq + h),
        spec_verify(q, cap, h, tq) == Some(false) ==> (q + h) * d18() > cap * (tq + h),
{
    if tq + h > 0 {
        let (n, d) = ((q + h) * d18(), tq + h); let w = n / d; lem_div(n, d);
        if w <= cap { assert(n < (cap + 1) * d) by (nonlinear_arith) requires n < w * d + d, w <= cap, d > 0; }
        else { assert(n > cap * d) by (nonlinear_arith) requires n >= w * d, w >= cap + 1, d > 0; }
    }
}
/// depositing no more than the room left by the value cap keeps the pool's value within it
proof fn c26_tvl(r: int, q: int, sr: int, sq: int, cap: int, tq: int, a: int)
    requires 0 < r <= u128::MAX, 0 <= q <= u128::MAX, 0 <= sr <= u128::MAX, 0 < sq <= u128::MAX, 0 <= cap <= u128::MAX, 0 <= tq <= u128::MAX, 0 < a,
    ensures spec_tvl_diff(r, q, sr, sq, cap, tq) matches Some(m) ==> a <= m ==> ((tq + (a * q) / r) * sr) / sq <= cap,
{
    if spec_tvl_diff(r, q, sr, sq, cap, tq) is Some && a <= spec_tvl_diff(r, q, sr, sq, cap, tq)->0 {
        let mx = (cap * sq) / sr; let m = ((mx - tq) * r) / q; let h = (a * q) / r; let t = (tq + h) * sr;
        lem_div(cap * sq, sr); lem_div((mx - tq) * r, q); lem_div(a * q, r);
        assert(h <= mx - tq) by (nonlinear_arith) requires h * r <= a * q, a <= m, m * q <= (mx - tq) * r, r > 0, q >= 0;
        assert(t <= mx * sr) by (nonlinear_arith) requires t == (tq + h) * sr, tq + h <= mx, sr >= 0;
        lem_div(t, sq); let v = t / sq;
        assert(v <= cap) by (nonlinear_arith) requires v * sq <= t, t <= mx * sr, mx * sr <= cap * sq, sq > 0;
    }
}
/// the room below the weight cap never exceeds the reserve, and depositing it keeps the hub reserve within the allowed part, up to the last of the 18 decimals
proof fn c26_cap(r: int, q: int, cap: int, tq: int, h: int)
    requires 0 <= r <= u128::MAX, 0 <= q <= u128::MAX, 0 <= cap <= u128::MAX, 0 <= tq <= u128::MAX, 0 <= h,
    ensures spec_cap_diff(r, q, cap, tq) matches Some(a) ==> 0 <= a <= r && (h * r <= a * q && a > 0 ==> (q + h) * d18() <= ((cap * tq) / d18()) * d18() + q),
{
    if spec_cap_diff(r, q, cap, tq) is Some {
        let m = fmul(cap, tq)->0; let p = rat(q, m)->0; let a = spec_cap_diff(r, q, cap, tq)->0;
        if p <= d18() {
            let e = d18() - p; lem_div(e * r, d18());
            assert(0 <= e * r) by (nonlinear_arith) requires 0 <= e, 0 <= r; lem_div_pos(e * r, d18());
            assert(0 <= q * d18()) by (nonlinear_arith) requires 0 <= q; lem_div(q * d18(), m); lem_div_pos(q * d18(), m);
            assert(a <= r) by (nonlinear_arith) requires a * d18() <= e * r, 0 <= e <= d18(), r >= 0, d18() > 0;
            if h * r <= a * q && a > 0 {
                let d = d18();
                assert(h * d <= e * q) by (nonlinear_arith) requires h * r <= a * q, a * d <= e * r, r >= a, a > 0, q >= 0, d > 0;
                let z = (q + h) * d;
                assert(z <= (2 * d - p) * q) by (nonlinear_arith) requires z == (q + h) * d, h * d <= e * q, e == d - p;
                assert(p * m >= q * d - m) by (nonlinear_arith) requires q * d < p * m + m;
                assert((p * m) * q >= (q * d - m) * q) by (nonlinear_arith) requires p * m >= q * d - m, q >= 0;
                assert(z * m <= (2 * d - p) * q * m) by (nonlinear_arith) requires z <= (2 * d - p) * q, m > 0;
                assert((2 * d - p) * q * m == 2 * d * q * m - (p * m) * q) by (nonlinear_arith);
                assert((q * d - m) * q == d * (q * q) - m * q) by (nonlinear_arith);
                assert((m - q) * (m - q) == m * m - 2 * (q * m) + q * q) by (nonlinear_arith);
                assert((m - q) * (m - q) >= 0) by (nonlinear_arith);
                assert(2 * d * q * m == d * (2 * (q * m))) by (nonlinear_arith);
                assert(d * (2 * (q * m) - q * q) <= d * (m * m)) by (nonlinear_arith) requires 2 * (q * m) - q * q <= m * m, d > 0;
                assert(d * (2 * (q * m) - q * q) == d * (2 * (q * m)) - d * (q * q)) by (nonlinear_arith);
                assert(z * m <= d * (m * m) + m * q);
                assert(z <= m * d + q) by (nonlinear_arith) requires z * m <= d * (m * m) + m * q, m > 0;
            }
        }
    }
}
/// a fee never raises a quoted price
proof fn c26_spot_fee(p: int, f: int)
    requires 0 <= p, 0 <= f <= 1_000_000,
    ensures left(f) matches Some(l) && 0 <= l <= d18() && (fmul(p, l) matches Some(v) ==> v <= p), left(0) == Some(d18()), left(1_000_000) == Some(0int),
{
    let n = (mil() - f) * d18(); assert(0 <= n <= mil() * d18()) by (nonlinear_arith) requires n == (mil() - f) * d18(), 0 <= f <= mil(), d18() > 0;
    lem_div(n, mil()); lem_div_pos(n, mil()); let l = n / mil();
    assert(l <= d18()) by (nonlinear_arith) requires l * mil() <= n, n <= mil() * d18();
    assert(p * l <= p * d18()) by (nonlinear_arith) requires 0 <= p, l <= d18(); lem_div(p * l, d18()); let v = (p * l) / d18();
    assert(v <= p) by (nonlinear_arith) requires v * d18() <= p * l, p * l <= p * d18(), d18() > 0;
    assert(left(0) == Some(d18())) by (compute); assert(left(1_000_000) == Some(0int)) by (compute);
}
}
fn main(){}
