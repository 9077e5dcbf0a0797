pub open spec fn spec_add(r: int, q: int, s: int, a: int, l: int, neg: bool, tq: int) -> Option<((int, int, int, int), int, int, int, int)> {
    match px(q, r) {
        None => None,
        Some(p) => match fit128((p * a) / d18()) {
            None => None,
            Some(dq) => match (fit128((s * a) / r), spec_delta_imbalance(dq, l, neg, tq)) { (Some(ds), Some(dl)) => Some(((a, dq, ds, 0), -dl, 0, 0, 0)), _ => None },
        },
    }
}
//@ fn math/src/omnipool/math.rs::calculate_add_liquidity_state_changes(asset_state, amount, imbalance, total_hub_reserve)
//@ ensures lsc(r) == spec_add(asset_state.reserve as int, asset_state.hub_reserve as int, asset_state.shares as int, amount as int, imbalance.value as int, imbalance.negative, total_hub_reserve as int)
//@ pre broadcast use vxf; proof { lem_into(amount as int, asset_state.shares as int, 0); }
//@ end
/// shares minted are worth at most the amount, hub minted keeps the price from rising, the imbalance keeps its ratio to the hub reserve from rising
proof fn c23_fair(r: int, q: int, s: int, a: int, l: int, neg: bool, tq: int)
    requires 0 < r <= u128::MAX, 0 <= q <= u128::MAX, 0 <= s <= u128::MAX, 0 <= a <= u128::MAX, 0 <= l <= u128::MAX, 0 <= tq <= u128::MAX,
    ensures spec_add(r, q, s, a, l, neg, tq) matches Some((c, d, pr, ps, h)) ==> {
        &&& c.0 == a &&& c.1 >= 0 &&& c.2 >= 0 &&& c.3 == 0 &&& pr == 0 &&& ps == 0 &&& h == 0 &&& d <= 0
        &&& c.2 * r <= s * a &&& (s + c.2) * r <= s * (r + c.0)
        &&& c.1 * r <= q * a &&& (q + c.1) * r <= q * (r + c.0)
        &&& (-d) * tq <= c.1 * l &&& (l - d) * tq <= l * (tq + c.1)
    },
{
    if spec_add(r, q, s, a, l, neg, tq) is Some {
        let p = px(q, r)->0; let dq = (p * a) / d18(); let ds = (s * a) / r;
        assert(0 <= q * d18()) by (nonlinear_arith) requires 0 <= q, d18() > 0;
        lem_div(q * d18(), r); lem_div_pos(q * d18(), r);
        assert(0 <= p * a && 0 <= s * a) by (nonlinear_arith) requires 0 <= p, 0 <= a, 0 <= s;
        lem_div(p * a, d18()); lem_div_pos(p * a, d18()); lem_div(s * a, r); lem_div_pos(s * a, r);
        assert(dq * r <= q * a) by (nonlinear_arith) requires dq * d18() <= p * a, p * r <= q * d18(), 0 <= dq, 0 <= a, 0 < r, d18() > 0, 0 <= p;
        assert((s + ds) * r <= s * (r + a)) by (nonlinear_arith) requires ds * r <= s * a;
        assert((q + dq) * r <= q * (r + a)) by (nonlinear_arith) requires dq * r <= q * a;
        assert(0 <= dq * l) by (nonlinear_arith) requires 0 <= dq, 0 <= l;
        let dl = spec_delta_imbalance(dq, l, neg, tq)->0;
        if l == 0 { assert(0 * tq == 0 && dq * 0 == 0 && (0 - 0) * tq == 0 && 0 * (tq + dq) == 0) by (nonlinear_arith); } else { lem_div(dq * l, tq); lem_div_pos(dq * l, tq); }
        assert(dl * tq <= dq * l);
        assert((l + dl) * tq <= l * (tq + dq)) by (nonlinear_arith) requires dl * tq <= dq * l;
    }
}
