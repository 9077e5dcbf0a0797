//@ root math/src
//@ include prelude.rs
//@ include fixed.rs
//@ include mathlib.rs
//@ subst crate::support::rational::Rounding => RatRounding
//@ subst rational.rs|Rounding => RatRounding
//@ subst omnipool_subpools/math.rs|Rounding => RatRounding
pub open spec fn u256o(r: Option<U256>) -> Option<int> { match r { Some(v) => Some(v@), None => None } }
//@ include omni_items.inc.rs
//@ include rational.inc.rs
//@ include u128_ext.inc.rs
//@ item math/src/omnipool_subpools/types.rs::MigrationDetails derive none
pub open spec fn mdiv(a: int, b: int, c: int) -> Option<int> { if c == 0 { None } else { fit128((a * b) / c) } }
pub proof fn lem_mdiv(a: u128, b: u128, c: u128)
    ensures 0 <= a * b < p256(), c > 0 ==> 0 <= (a * b) / (c as int) <= a * b,
{
    lem_prod_u128(a, b); if c > 0 { lem_div(a * b, c as int); lem_div_pos(a * b, c as int); let q = (a * b) / (c as int); assert(q <= a * b) by (nonlinear_arith) requires q * c <= a * b, c >= 1, q >= 0; }
}
/// shares, amount and price of a position
pub open spec fn posv(r: Option<Position<u128>>) -> Option<(int, int, int, int)> { match r { Some(p) => Some((p.shares as int, p.amount as int, p.price.0 as int, p.price.1 as int)), None => None } }
pub open spec fn near() -> RatRounding { RatRounding::Nearest }
pub open spec fn conv(sh: int, am: int, pn: int, pd: int, dn: int, dd: int, ds: int, dq: int, du: int) -> Option<(int, int, int, int)> {
    match (mdiv(sh, dq, ds), mdiv(am, du, ds)) { (Some(x), Some(y)) => Some((x, y, rnum(pn * dd, pd * dn, near()), rden(pn * dd, pd * dn, near()))), _ => None }
}
//@ fn math/src/omnipool_subpools/math.rs::convert_position(position, details)
//@ ensures posv(r) == conv(position.shares as int, position.amount as int, position.price.0 as int, position.price.1 as int, details.price.0 as int, details.price.1 as int, details.shares as int, details.hub_reserve as int, details.share_tokens as int)
//@ pre broadcast use vx; proof { lem_mdiv(position.shares, details.hub_reserve, details.shares); lem_mdiv(position.amount, details.share_tokens, details.shares); lem_mdiv(position.price.0, details.price.1, 1); lem_mdiv(position.price.1, details.price.0, 1); }
//@ end
//@ fn math/src/omnipool_subpools/math.rs::recalculate_protocol_shares(hub_reserve, shares, protocol_shares)
//@ ensures into_(r) == mdiv(hub_reserve as int, protocol_shares as int, shares as int)
//@ pre broadcast use vx; proof { lem_mdiv(hub_reserve, protocol_shares, shares); }
//@ end
/// reserve, hub reserve, shares, protocol shares of a new pool
pub open spec fn stv(r: Option<AssetReserveState<u128>>) -> Option<(int, int, int, int)> { match r { Some(s) => Some((s.reserve as int, s.hub_reserve as int, s.shares as int, s.protocol_shares as int)), None => None } }
pub open spec fn newpool(qa: int, sa: int, pa: int, qb: int, sb: int, pb: int) -> Option<(int, int, int, int)> {
    match (fit128(qa + qb), mdiv(qa, pa, sa), mdiv(qb, pb, sb)) {
        (Some(q), Some(x), Some(y)) => match fit128(x + y) { Some(p) => Some((q, q, q, p)), None => None },
        _ => None,
    }
}
//@ fn math/src/omnipool_subpools/math.rs::create_subpool_initial_state(asset_state_a, asset_state_b)
//@ ensures stv(r) == newpool(asset_state_a.hub_reserve as int, asset_state_a.shares as int, asset_state_a.protocol_shares as int, asset_state_b.hub_reserve as int, asset_state_b.shares as int, asset_state_b.protocol_shares as int)
//@ pre broadcast use vxf;
//@ end
impl AssetReserveState<u128> {
//@ fn math/src/omnipool/types.rs::AssetReserveState::price_as_rational()
//@ meta selfty=AssetReserveState<u128>
//@ meta call=AssetReserveState::<u128>::price_as_rational
//@ ensures r == (self.hub_reserve, self.reserve)
//@ end
}
/// price, shares, hub reserve and share tokens handed to the positions, and what changes in the pool
pub open spec fn migv(r: Option<(MigrationDetails, Option<AssetStateChange<u128>>)>) -> Option<((int, int, int, int, int), Option<(int, int, int, int)>)> {
    match r { None => None, Some((d, c)) => Some(((d.price.0 as int, d.price.1 as int, d.shares as int, d.hub_reserve as int, d.share_tokens as int), match c { Some(x) => Some(ac(x)), None => None })) }
}
/// protocol shares that come with the asset
pub open spec fn mig_ps(q: int, s: int, ps: int, pq: int, psh: int) -> Option<int> {
    if pq == 0 || s == 0 || ((psh * q) / pq) * ps >= p256() { None } else { fit128((((psh * q) / pq) * ps) / s) }
}
pub open spec fn mig(r: int, q: int, s: int, ps: int, pool: Option<(int, int)>, iss: int) -> Option<((int, int, int, int, int), Option<(int, int, int, int)>)> {
    match pool {
        None => Some(((q, r, s, q, q), None)),
        Some((pq, psh)) => match (mig_ps(q, s, ps, pq, psh), mdiv(q, psh, pq), mdiv(q, iss, pq)) {
            (Some(dp), Some(ds), Some(du)) => Some(((rnum(q * iss, r * psh, near()), rden(q * iss, r * psh, near()), s, q, du), Some((du, q, ds, dp)))),
            _ => None,
        },
    }
}
pub open spec fn poolv(s: Option<&AssetReserveState<u128>>) -> Option<(int, int)> { match s { None => None, Some(p) => Some((p.hub_reserve as int, p.shares as int)) } }
//@ fn math/src/omnipool_subpools/math.rs::calculate_asset_migration_details(asset_state, subpool_state, share_issuance)
//@ ensures migv(r) == mig(asset_state.reserve as int, asset_state.hub_reserve as int, asset_state.shares as int, asset_state.protocol_shares as int, poolv(subpool_state), share_issuance as int)
//@ pre broadcast use vx; proof { if subpool_state is Some { let p = subpool_state->0; lem_mdiv(p.shares, asset_state.hub_reserve, p.hub_reserve); lem_mdiv(asset_state.hub_reserve, p.shares, p.hub_reserve); lem_mdiv(asset_state.hub_reserve, share_issuance, p.hub_reserve); lem_mdiv(asset_state.reserve, p.shares, 1);
//@    assert(p.shares * asset_state.hub_reserve == asset_state.hub_reserve * p.shares) by (nonlinear_arith);
//@    if p.hub_reserve > 0 && asset_state.shares > 0 { let x = (p.shares * asset_state.hub_reserve) / (p.hub_reserve as int); let y = asset_state.protocol_shares as int; assert(0 <= x * y) by (nonlinear_arith) requires x >= 0, y >= 0; lem_div_pos(x * y, asset_state.shares as int); } } }
//@ end
/// rescaled shares and amounts keep their proportion, rounded down, and together never exceed what the pool minted for them
proof fn c40_positions(s1: int, s2: int, am: int, dn: int, dd: int, ds: int, dq: int, du: int, pn: int, pd: int)
    requires 0 <= s1, 0 <= s2, s1 + s2 <= ds <= u128::MAX, 0 <= am <= u128::MAX, 0 < ds, 0 <= dq <= u128::MAX, 0 <= du <= u128::MAX,
    ensures
        conv(s1, am, pn, pd, dn, dd, ds, dq, du) matches Some(x) ==> {
            &&& x.0 * ds <= s1 * dq < (x.0 + 1) * ds &&& 0 <= x.0 <= dq
            &&& x.1 * ds <= am * du < (x.1 + 1) * ds
            &&& (conv(s2, am, pn, pd, dn, dd, ds, dq, du) matches Some(y) ==> x.0 + y.0 <= dq)
        },
        mdiv(s1, dq, ds) is Some,
        am <= ds ==> conv(s1, am, pn, pd, dn, dd, ds, dq, du) is Some,
        // a position holding all shares gets everything
        s1 == ds ==> mdiv(s1, dq, ds) == Some(dq),
{
    lem_div(s1 * dq, ds); lem_div(s2 * dq, ds); lem_div(am * du, ds);
    let a = (s1 * dq) / ds; let b = (s2 * dq) / ds; let c = (am * du) / ds;
    assert(0 <= s1 * dq && 0 <= s2 * dq && 0 <= am * du && s1 * dq <= ds * dq) by (nonlinear_arith) requires 0 <= s1 <= ds, 0 <= s2, 0 <= am, 0 <= dq, 0 <= du;
    lem_div_pos(s1 * dq, ds); lem_div_pos(s2 * dq, ds); lem_div_pos(am * du, ds);
    assert(a <= dq) by (nonlinear_arith) requires a * ds <= s1 * dq, s1 * dq <= ds * dq, ds > 0;
    assert(a + b <= dq) by (nonlinear_arith) requires a * ds <= s1 * dq, b * ds <= s2 * dq, s1 + s2 <= ds, ds > 0, dq >= 0;
    assert((a + 1) * ds == a * ds + ds && (c + 1) * ds == c * ds + ds) by (nonlinear_arith);
    if am <= ds { assert(am * du <= ds * du) by (nonlinear_arith) requires am <= ds, du >= 0; assert(c <= du) by (nonlinear_arith) requires c * ds <= am * du, am * du <= ds * du, ds > 0; }
    if s1 == ds { assert(s1 * dq == dq * ds) by (nonlinear_arith) requires s1 == ds; lem_div_is(s1 * dq, ds, dq); }
}
/// a new pool holds the hub asset of both, one share per unit of it, and the protocol's part is never more than its part of either
proof fn c40_create(qa: int, sa: int, pa: int, qb: int, sb: int, pb: int)
    requires 0 <= qa, 0 <= qb, qa + qb <= u128::MAX, 0 < sa <= u128::MAX, 0 < sb <= u128::MAX, 0 <= pa <= sa, 0 <= pb <= sb,
    ensures newpool(qa, sa, pa, qb, sb, pb) matches Some(n) && n.0 == qa + qb && n.1 == qa + qb && n.2 == qa + qb && 0 <= n.3 <= n.2
        && (mdiv(qa, pa, sa) matches Some(x) && mdiv(qb, pb, sb) matches Some(y) && x * sa <= qa * pa && y * sb <= qb * pb && n.3 == x + y),
{
    lem_div(qa * pa, sa); lem_div(qb * pb, sb);
    assert(0 <= qa * pa <= qa * sa && 0 <= qb * pb <= qb * sb) by (nonlinear_arith) requires 0 <= qa, 0 <= qb, 0 <= pa <= sa, 0 <= pb <= sb;
    lem_div_pos(qa * pa, sa); lem_div_pos(qb * pb, sb);
    let x = (qa * pa) / sa; let y = (qb * pb) / sb;
    assert(x <= qa) by (nonlinear_arith) requires x * sa <= qa * pa, qa * pa <= qa * sa, sa > 0;
    assert(y <= qb) by (nonlinear_arith) requires y * sb <= qb * pb, qb * pb <= qb * sb, sb > 0;
}
/// joining an existing pool moves all hub asset, mints shares and share tokens at most in proportion, and the protocol's part stays within them
proof fn c40_join(r: int, q: int, s: int, ps: int, pq: int, psh: int, iss: int)
    requires 0 <= r <= u128::MAX, 0 <= q <= u128::MAX, 0 < s <= u128::MAX, 0 <= ps <= s, 0 < pq <= u128::MAX, 0 <= psh <= u128::MAX, 0 <= iss <= u128::MAX,
    ensures mig(r, q, s, ps, Some((pq, psh)), iss) matches Some((d, c)) ==> {
        &&& d.2 == s && d.3 == q
        &&& c matches Some(x)
        &&& x.1 == q && x.0 == d.4 && 0 <= x.0 && 0 <= x.3 <= x.2
        &&& (psh + x.2) * pq <= psh * (pq + q)
        &&& (iss + x.0) * pq <= iss * (pq + q)
    },
{
    if mig(r, q, s, ps, Some((pq, psh)), iss) is Some {
        let ds = (q * psh) / pq; let du = (q * iss) / pq; let p1 = (psh * q) / pq; let dp = (p1 * ps) / s;
        assert(psh * q == q * psh) by (nonlinear_arith);
        assert(0 <= q * psh && 0 <= q * iss) by (nonlinear_arith) requires q >= 0, psh >= 0, iss >= 0;
        lem_div(q * psh, pq); lem_div(q * iss, pq); lem_div_pos(q * psh, pq); lem_div_pos(q * iss, pq);
        assert(0 <= p1 * ps <= p1 * s) by (nonlinear_arith) requires 0 <= p1, 0 <= ps <= s;
        lem_div(p1 * ps, s); lem_div_pos(p1 * ps, s);
        assert(dp <= p1) by (nonlinear_arith) requires dp * s <= p1 * ps, p1 * ps <= p1 * s, s > 0;
        assert((psh + ds) * pq <= psh * (pq + q)) by (nonlinear_arith) requires ds * pq <= q * psh;
        assert((iss + du) * pq <= iss * (pq + q)) by (nonlinear_arith) requires du * pq <= q * iss;
    }
}
}
fn main(){}
