/// a buy: (hub into the out asset, hub out of the in asset, amount in)
pub open spec fn buy_parts(ri: int, qi: int, ro: int, qo: int, a: int, fa: int, fp: int) -> Option<(int, int, int)> {
    match hub_for(ro, qo, a, fa) {
        None => None,
        Some(dqo) => if fp == mil() { None } else {
            let dqi = (dqo * d18()) / (((mil() - fp) * d18()) / mil());
            if dqi > u128::MAX || dqi >= qi { None } else { match fit128((ri * dqi) / (qi - dqi) + 1) { None => None, Some(dri) => Some((dqo, dqi, dri)) } }
        },
    }
}
pub open spec fn spec_buy(ri: int, qi: int, ro: int, qo: int, a: int, fa: int, fp: int, im: int) -> Option<((int, int, int, int), (int, int, int, int), int, int, int, int)> {
    match buy_parts(ri, qi, ro, qo, a, fa, fp) {
        None => None,
        Some((dqo, dqi, dri)) => { let pf = (fp * dqi) / mil(); Some(((dri, -dqi, 0, 0), (-a, dqo, 0, 0), imin(pf, im), pf - imin(pf, im), fee_on(fa, a), pf)) },
    }
}
proof fn lem_gross(d: int, f: int)
    requires 0 <= d <= u128::MAX, 0 <= f < mil(),
    ensures ((mil() - f) * d18()) / mil() == (mil() - f) * 1_000_000_000_000, (d * d18()) / (((mil() - f) * d18()) / mil()) == (d * mil()) / (mil() - f), 0 <= (d * mil()) / (mil() - f),
{
    let g = mil() - f; let k = 1_000_000_000_000int;
    assert(g * d18() == (g * k) * mil()) by (nonlinear_arith) requires d18() == k * mil();
    lem_div_is(g * d18(), mil(), g * k);
    let q = (d * mil()) / g; lem_div(d * mil(), g); lem_div_pos(d * mil(), g);
    assert(q * (g * k) <= d * d18() && d * d18() < q * (g * k) + g * k) by (nonlinear_arith) requires q * g <= d * mil(), d * mil() < q * g + g, d18() == k * mil(), k == 1_000_000_000_000;
    assert(g * k > 0) by (nonlinear_arith) requires g > 0, k > 0;
    lem_div_is(d * d18(), g * k, q);
}
proof fn lem_buy(ri: int, qi: int, ro: int, qo: int, a: int, fa: int, fp: int)
    requires 0 <= ri <= u128::MAX, 0 <= qi <= u128::MAX, 0 <= ro <= u128::MAX, 0 <= qo <= u128::MAX, 0 <= a <= u128::MAX, 0 <= fa <= mil(), 0 <= fp <= mil(),
    ensures 0 <= qo * a < p256() - 1, room(ro, a, fa) > 0 ==> 0 <= (qo * a) / room(ro, a, fa), 0 <= no_fee(ro, fa) <= ro,
        hub_for(ro, qo, a, fa) matches Some(dqo) ==> fp < mil() ==> 0 < ((mil() - fp) * d18()) / mil() <= d18() && {
            let dqi = (dqo * d18()) / (((mil() - fp) * d18()) / mil()); &&& 0 <= dqi &&& dqi < qi ==> 0 <= ri * dqi < p256() && 0 <= (ri * dqi) / (qi - dqi) && 0 <= (fp * dqi) / mil() <= dqi },
{
    lem_hub_for(ro, qo, a, fa);
    if hub_for(ro, qo, a, fa) is Some && fp < mil() {
        let dqo = hub_for(ro, qo, a, fa)->0; lem_gross(dqo, fp); let dqi = (dqo * d18()) / (((mil() - fp) * d18()) / mil());
        if dqi < qi { lem_into(dqi, ri, 0); lem_nofee(dqi, fp); lem_div_pos(ri * dqi, qi - dqi); }
    }
}
//@ fn math/src/omnipool/math.rs::calculate_buy_state_changes(asset_in_state, asset_out_state, amount, asset_fee, protocol_fee, imbalance)
//@ ensures tsc(r) == spec_buy(asset_in_state.reserve as int, asset_in_state.hub_reserve as int, asset_out_state.reserve as int, asset_out_state.hub_reserve as int, amount as int, asset_fee@, protocol_fee@, imbalance as int)
//@ pre broadcast use vxf; let ghost ri = asset_in_state.reserve as int; let ghost qi = asset_in_state.hub_reserve as int; let ghost ro = asset_out_state.reserve as int; let ghost qo = asset_out_state.hub_reserve as int; let ghost a = amount as int;
//@ proof { lem_buy(ri, qi, ro, qo, a, asset_fee@, protocol_fee@); }
//@ end
/// hub leaving the in asset is exactly hub entering the out asset plus the protocol fee, which repays the imbalance and buys back HDX
proof fn c21_conservation(ri: int, qi: int, ro: int, qo: int, a: int, fa: int, fp: int, im: int)
    requires 0 <= ri <= u128::MAX, 0 <= qi <= u128::MAX, 0 <= ro <= u128::MAX, 0 <= qo <= u128::MAX, 0 <= a <= u128::MAX, 0 <= fa <= mil(), 0 <= fp <= mil(), 0 <= im,
    ensures spec_buy(ri, qi, ro, qo, a, fa, fp, im) matches Some((i, o, d, h, f, p)) ==> {
        &&& i.1 + o.1 + d + h == 0 &&& d + h == p &&& 0 <= d <= im &&& 0 <= h &&& 0 <= p <= -i.1 &&& o.0 == -a &&& a < ro &&& -i.1 < qi &&& i.0 > 0 &&& i.2 == 0 && i.3 == 0 && o.2 == 0 && o.3 == 0 },
{
    lem_buy(ri, qi, ro, qo, a, fa, fp); lem_hub_for(ro, qo, a, fa);
    if buy_parts(ri, qi, ro, qo, a, fa, fp) is Some {
        let (dqo, dqi, dri) = buy_parts(ri, qi, ro, qo, a, fa, fp)->0; let g = mil() - fp; lem_gross(dqo, fp);
        lem_div(dqo * mil(), g); lem_div(fp * dqi, mil()); let p = (fp * dqi) / mil();
        assert(fp * dqi == mil() * dqi - g * dqi) by (nonlinear_arith) requires g == mil() - fp;
        assert(dqi * g == g * dqi) by (nonlinear_arith);
        assert(dqi - p == dqo) by (nonlinear_arith) requires dqi * g <= dqo * mil(), dqo * mil() < dqi * g + g, p * mil() <= fp * dqi, fp * dqi < p * mil() + mil(), fp * dqi == mil() * dqi - g * dqi, dqi * g == g * dqi, g <= mil();
        lem_into(dqi, ri, 0);
        lem_div_pos(ri * dqi, qi - dqi);
    }
}
/// the product of reserve and hub reserve of either asset only grows
proof fn c21_product(ri: int, qi: int, ro: int, qo: int, a: int, fa: int, fp: int, im: int)
    requires 0 <= ri <= u128::MAX, 0 <= qi <= u128::MAX, 0 <= ro <= u128::MAX, 0 <= qo <= u128::MAX, 0 <= a <= u128::MAX, 0 <= fa <= mil(), 0 <= fp <= mil(), 0 <= im,
    ensures spec_buy(ri, qi, ro, qo, a, fa, fp, im) matches Some((i, o, d, h, f, p)) ==> {
        &&& (ri + i.0) * (qi + i.1) > ri * qi &&& (ro + o.0) * (qo + o.1) > ro * qo },
{
    lem_buy(ri, qi, ro, qo, a, fa, fp); lem_hub_for(ro, qo, a, fa);
    if buy_parts(ri, qi, ro, qo, a, fa, fp) is Some {
        let (dqo, dqi, dri) = buy_parts(ri, qi, ro, qo, a, fa, fp)->0;
        let m = qi - dqi; let v = (ri * dqi) / m; lem_div(ri * dqi, m);
        assert((ri + (v + 1)) * (qi - dqi) > ri * qi) by (nonlinear_arith) requires ri * dqi < v * m + m, m == qi - dqi;
    }
}
/// the fee on a buy never falls short of its share, and is free only without a fee
proof fn c21_fee(f: int, a: int)
    requires 0 <= f < mil(), 0 <= a, f * a <= u128::MAX, fee_on(f, a) < u128::MAX,
    ensures f > 0 ==> fee_on(f, a) > 0 && fee_on(f, a) * (mil() - f) > f * a, f == 0 ==> fee_on(f, a) == 0,
{ assert(0 <= f * a) by (nonlinear_arith) requires 0 <= f, 0 <= a; lem_div(f * a, mil() - f); lem_div_pos(f * a, mil() - f);
  if f > 0 { let v = (f * a) / (mil() - f); let g = mil() - f; assert((v + 1) * g > f * a) by (nonlinear_arith) requires f * a < v * g + g; } }
