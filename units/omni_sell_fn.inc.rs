/// a sell: (hub out of the in asset, protocol fee, amount out before and after the asset fee)
pub open spec fn sell_parts(ri: int, qi: int, ro: int, qo: int, a: int, fa: int, fp: int) -> Option<(int, int, int, int)> {
    match into_pool(a, qi, ri) {
        None => None,
        Some(dqi) => { let pf = (fp * dqi) / mil(); match into_pool(dqi - pf, ro, qo) { None => None, Some(o) => Some((dqi, pf, o, no_fee(o, fa))) } },
    }
}
pub open spec fn spec_sell(ri: int, qi: int, ro: int, qo: int, a: int, fa: int, fp: int, im: int) -> Option<((int, int, int, int), (int, int, int, int), int, int, int, int)> {
    match sell_parts(ri, qi, ro, qo, a, fa, fp) {
        None => None,
        Some((dqi, pf, o, p)) => Some(((a, -dqi, 0, 0), (-p, dqi - pf, 0, 0), imin(pf, im), pf - imin(pf, im), o - p, pf)),
    }
}
//@ fn math/src/omnipool/math.rs::calculate_sell_state_changes(asset_in_state, asset_out_state, amount, asset_fee, protocol_fee, imbalance)
//@ ensures tsc(r) == spec_sell(asset_in_state.reserve as int, asset_in_state.hub_reserve as int, asset_out_state.reserve as int, asset_out_state.hub_reserve as int, amount as int, asset_fee@, protocol_fee@, imbalance as int)
//@ pre broadcast use vxf; let ghost ri = asset_in_state.reserve as int; let ghost qi = asset_in_state.hub_reserve as int; let ghost ro = asset_out_state.reserve as int; let ghost qo = asset_out_state.hub_reserve as int; let ghost a = amount as int;
//@ proof { lem_sell(ri, qi, ro, qo, a, asset_fee@, protocol_fee@); }
//@ end
proof fn lem_sell(ri: int, qi: int, ro: int, qo: int, a: int, fa: int, fp: int)
    requires 0 <= ri <= u128::MAX, 0 <= qi <= u128::MAX, 0 <= ro <= u128::MAX, 0 <= qo <= u128::MAX, 0 <= a <= u128::MAX, 0 <= fa <= mil(), 0 <= fp <= mil(),
    ensures ri + a < p256(), 0 <= a * qi < p256(), a * qi == qi * a,
        into_pool(a, qi, ri) matches Some(d) ==> 0 <= d <= qi && { let pf = (fp * d) / mil(); &&& 0 <= pf <= d &&& qo + (d - pf) < p256() &&& 0 <= (d - pf) * ro < p256() &&& (d - pf) * ro == ro * (d - pf)
            &&& into_pool(d - pf, ro, qo) matches Some(o) ==> 0 <= o <= ro && 0 <= no_fee(o, fa) <= o },
{
    lem_into(a, qi, ri);
    if into_pool(a, qi, ri) is Some {
        let d = into_pool(a, qi, ri)->0; lem_nofee(d, fp); let pf = (fp * d) / mil();
        lem_into(d - pf, ro, qo);
        if into_pool(d - pf, ro, qo) is Some { lem_nofee(into_pool(d - pf, ro, qo)->0, fa); }
    }
}
/// hub leaving the in asset is hub entering the out asset plus what repays the imbalance plus what buys back HDX; amounts and fees stay within the reserves
proof fn c20_conservation(ri: int, qi: int, ro: int, qo: int, a: int, fa: int, fp: int, im: int)
    requires 0 <= ri <= u128::MAX, 0 <= qi <= u128::MAX, 0 <= ro <= u128::MAX, 0 <= qo <= u128::MAX, 0 <= a <= u128::MAX, 0 <= fa <= mil(), 0 <= fp <= mil(), 0 <= im,
    ensures spec_sell(ri, qi, ro, qo, a, fa, fp, im) matches Some((i, o, d, h, f, p)) ==> {
        &&& i.1 + o.1 + d + h == 0 &&& d + h == p &&& 0 <= d <= im &&& 0 <= h &&& 0 <= p <= -i.1 &&& i.0 == a
        &&& -i.1 <= qi &&& 0 <= f &&& -o.0 + f <= ro &&& -o.0 >= 0 &&& o.1 >= 0 &&& i.2 == 0 && i.3 == 0 && o.2 == 0 && o.3 == 0 },
{ lem_sell(ri, qi, ro, qo, a, fa, fp); }
/// the product of reserve and hub reserve of neither asset falls, and no live reserve is drained
proof fn c20_product(ri: int, qi: int, ro: int, qo: int, a: int, fa: int, fp: int, im: int)
    requires 0 <= ri <= u128::MAX, 0 <= qi <= u128::MAX, 0 <= ro <= u128::MAX, 0 <= qo <= u128::MAX, 0 <= a <= u128::MAX, 0 <= fa <= mil(), 0 <= fp <= mil(), 0 <= im,
    ensures spec_sell(ri, qi, ro, qo, a, fa, fp, im) matches Some((i, o, d, h, f, p)) ==> {
        &&& (ri + i.0) * (qi + i.1) >= ri * qi &&& (ro + o.0) * (qo + o.1) >= ro * qo
        &&& (ri > 0 && qi > 0 ==> qi + i.1 > 0) &&& (ro > 0 && qo > 0 ==> ro + o.0 > 0) },
{
    lem_sell(ri, qi, ro, qo, a, fa, fp); lem_into(a, qi, ri);
    if sell_parts(ri, qi, ro, qo, a, fa, fp) is Some {
        let (dqi, pf, o, p) = sell_parts(ri, qi, ro, qo, a, fa, fp)->0; lem_into(dqi - pf, ro, qo);
        assert((ro - p) * (qo + (dqi - pf)) >= ro * qo) by (nonlinear_arith) requires (qo + (dqi - pf)) * (ro - o) >= qo * ro, p <= o, qo + (dqi - pf) >= 0;
        assert((ri + a) * (qi - dqi) >= ri * qi);
    }
}
