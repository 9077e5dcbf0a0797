/// what the imbalance falls by when `dq` of hub enters the pool
pub open spec fn spec_hub_imbalance(q: int, dq: int, l: int) -> Option<int> { if l > q || q + dq == 0 { None } else { fit128((dq * (q - l)) / (q + dq) + 1 + dq) } }
proof fn lem_hubim(q: int, dq: int, l: int)
    requires 0 <= q <= u128::MAX, 0 <= dq <= u128::MAX, 0 <= l <= u128::MAX,
    ensures q + dq < p256(), l <= q ==> 0 <= dq * (q - l) < p256() && dq * (q - l) == (q - l) * dq, l <= q && q + dq > 0 ==> 0 <= (dq * (q - l)) / (q + dq) && (dq * (q - l)) / (q + dq) + 1 + dq < p256(),
{ assert(4 * u128::MAX < p256()) by (compute); if l <= q { lem_into(dq, q - l, q); } }
//@ fn math/src/omnipool/math.rs::calculate_imbalance_in_hub_swap(total_hub_reserve, delta_hub_reserve, imbalance)
//@ ensures into_(r) == spec_hub_imbalance(total_hub_reserve as int, delta_hub_reserve as int, imbalance.value as int)
//@ pre broadcast use vxf; proof { lem_hubim(total_hub_reserve as int, delta_hub_reserve as int, imbalance.value as int); }
//@ end
pub open spec fn spec_sell_hub(ro: int, qo: int, a: int, fa: int, l: int, q: int) -> Option<((int, int, int, int), int, int, int)> {
    match into_pool(a, ro, qo) { None => None, Some(o) => match spec_hub_imbalance(q, a, l) { None => None, Some(d) => Some(((-no_fee(o, fa), a, 0, 0), -d, o - no_fee(o, fa), 0)) } }
}
//@ fn math/src/omnipool/math.rs::calculate_sell_hub_state_changes(asset_out_state, hub_asset_amount, asset_fee, imbalance, total_hub_reserve)
//@ ensures htsc(r) == spec_sell_hub(asset_out_state.reserve as int, asset_out_state.hub_reserve as int, hub_asset_amount as int, asset_fee@, imbalance.value as int, total_hub_reserve as int)
//@ pre broadcast use vxf; proof { let a = hub_asset_amount as int; let ro = asset_out_state.reserve as int; let qo = asset_out_state.hub_reserve as int; lem_into(a, ro, qo); if into_pool(a, ro, qo) is Some { lem_nofee(into_pool(a, ro, qo)->0, asset_fee@); } }
//@ end
pub open spec fn spec_buy_hub(ro: int, qo: int, a: int, fa: int, l: int, q: int) -> Option<((int, int, int, int), int, int, int)> {
    match hub_for(ro, qo, a, fa) { None => None, Some(h) => match spec_hub_imbalance(q, h, l) { None => None, Some(d) => Some(((-a, h, 0, 0), -d, fee_on(fa, a), 0)) } }
}
//@ fn math/src/omnipool/math.rs::calculate_buy_for_hub_asset_state_changes(asset_out_state, asset_out_amount, asset_fee, imbalance, total_hub_reserve)
//@ ensures htsc(r) == spec_buy_hub(asset_out_state.reserve as int, asset_out_state.hub_reserve as int, asset_out_amount as int, asset_fee@, imbalance.value as int, total_hub_reserve as int)
//@ pre broadcast use vxf; proof { lem_hub_for(asset_out_state.reserve as int, asset_out_state.hub_reserve as int, asset_out_amount as int, asset_fee@); }
//@ end
/// the imbalance moves by at least what keeps (Q - L) * Q from growing: L is never understated
proof fn c22_imbalance(q: int, dq: int, l: int)
    requires 0 <= q, 0 <= dq, 0 <= l,
    ensures spec_hub_imbalance(q, dq, l) matches Some(d) ==> d > dq && (q + dq - l - d) * (q + dq) < (q - l) * q,
{
    if spec_hub_imbalance(q, dq, l) is Some {
        let s = q + dq; assert(0 <= dq * (q - l)) by (nonlinear_arith) requires 0 <= dq, l <= q;
        let v = (dq * (q - l)) / s; lem_div(dq * (q - l), s); lem_div_pos(dq * (q - l), s);
        assert((q + dq - l - (v + 1 + dq)) * s < (q - l) * q) by (nonlinear_arith) requires dq * (q - l) < v * s + s, s == q + dq;
    }
}
/// hub trades never lower the product of the bought asset, never drain it, and charge within the reserve
proof fn c22_sell(ro: int, qo: int, a: int, fa: int, l: int, q: int)
    requires 0 <= ro <= u128::MAX, 0 <= qo <= u128::MAX, 0 <= a <= u128::MAX, 0 <= fa <= mil(),
    ensures spec_sell_hub(ro, qo, a, fa, l, q) matches Some((o, d, f, p)) ==> o.1 == a && p == 0 && 0 <= f && 0 <= -o.0 && -o.0 + f <= ro && (ro > 0 && qo > 0 ==> ro + o.0 > 0) && (ro + o.0) * (qo + o.1) >= ro * qo,
{
    lem_into(a, ro, qo);
    if spec_sell_hub(ro, qo, a, fa, l, q) is Some {
        let o = into_pool(a, ro, qo)->0; lem_nofee(o, fa); let p = no_fee(o, fa);
        assert((ro - p) * (qo + a) >= ro * qo) by (nonlinear_arith) requires (qo + a) * (ro - o) >= qo * ro, p <= o, qo + a >= 0;
    }
}
proof fn c22_buy(ro: int, qo: int, a: int, fa: int, l: int, q: int)
    requires 0 <= ro <= u128::MAX, 0 <= qo <= u128::MAX, 0 <= a <= u128::MAX, 0 <= fa <= mil(),
    ensures spec_buy_hub(ro, qo, a, fa, l, q) matches Some((o, d, f, p)) ==> o.0 == -a && a < ro && o.1 > 0 && p == 0 && (ro + o.0) * (qo + o.1) > ro * qo,
{ lem_hub_for(ro, qo, a, fa); }
