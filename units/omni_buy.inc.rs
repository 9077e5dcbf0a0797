//@ fn math/src/omnipool/math.rs::calculate_fee_amount_for_buy(fee, amount)
//@ ensures r as int == fee_on(fee@, amount as int)
//@ pre broadcast use vxf; proof { assert(0 <= fee@ * amount) by (nonlinear_arith) requires 0 <= fee@, 0 <= amount; if fee@ < mil() { lem_div_pos(imin(fee@ * amount, u128::MAX as int), mil() - fee@); } }
//@ end
/// what is left of a pool after the asset fee and the amount taken
pub open spec fn room(ro: int, a: int, fa: int) -> int { no_fee(ro, fa) - a }
/// hub to put in for `a` out of `ro`, one unit over the exact amount
pub open spec fn hub_for(ro: int, qo: int, a: int, fa: int) -> Option<int> {
    if room(ro, a, fa) <= 0 { None } else { fit128((qo * a) / room(ro, a, fa) + 1) }
}
pub proof fn lem_hub_for(ro: int, qo: int, a: int, fa: int)
    requires 0 <= ro <= u128::MAX, 0 <= qo <= u128::MAX, 0 <= a <= u128::MAX, 0 <= fa <= mil(),
    ensures 0 <= qo * a < p256() - 1, qo * a == a * qo, 0 <= no_fee(ro, fa) <= ro, room(ro, a, fa) > 0 ==> 0 <= (qo * a) / room(ro, a, fa) < p256() - 1,
        hub_for(ro, qo, a, fa) matches Some(d) ==> a < ro && (ro - a) * (qo + d) > ro * qo && d > 0,
{
    lem_nofee(ro, fa);
    assert(0 <= qo * a <= u128::MAX * u128::MAX) by (nonlinear_arith) requires 0 <= a <= u128::MAX, 0 <= qo <= u128::MAX;
    assert(u128::MAX * u128::MAX < p256() - 1) by (compute);
    assert(qo * a == a * qo) by (nonlinear_arith);
    let m = room(ro, a, fa);
    if m > 0 {
        let v = (qo * a) / m; lem_div(qo * a, m); lem_div_pos(qo * a, m);
        assert((ro - a) * (qo + (v + 1)) > ro * qo) by (nonlinear_arith) requires qo * a < v * m + m, 0 < m <= ro - a, v >= 0, a >= 0, qo >= 0;
    }
}
