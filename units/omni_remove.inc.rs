pub open spec fn fee_left(f: int) -> int { imax(d18() - f, 0) }
pub open spec fn keep(v: int, f: int) -> int { (fee_left(f) * v) / d18() }
/// protocol's part of `sr` shares when the price fell: x is the position's hub worth, one unit up
pub open spec fn spec_db(cp: int, pp: int, x: int, q: int, sr: int) -> Option<int> {
    if cp >= pp { Some(0int) } else if x < q { None } else { Some(((x - q) * sr) / (x + q) + 1) }
}
/// hub paid when the price rose
pub open spec fn spec_hub_paid(cp: int, pp: int, x: int, q: int, ds: int, s: int) -> Option<int> {
    if cp <= pp { Some(0int) } else if q < x { None } else { fit128((((q * (q - x)) / (q + x)) * ds) / s) }
}
/// (shares burned, shares to the protocol, reserve out, hub out, hub paid) before the fee
pub open spec fn remove_parts(r: int, q: int, s: int, sr: int, cp: int, pp: int) -> Option<(int, int, int, int, int)> {
    match fit128((pp * r) / d18()) {
        None => None,
        Some(v) => match spec_db(cp, pp, v + 1, q, sr) {
            None => None,
            Some(db) => if db > sr || s == 0 || r == 0 { None } else {
                let ds = sr - db; let dr = (r * ds) / s; let dq = (dr * q) / r;
                match spec_hub_paid(cp, pp, v + 1, q, ds, s) { None => None, Some(h) => if dr > u128::MAX || dq > u128::MAX { None } else { Some((ds, db, dr, dq, h)) } }
            },
        },
    }
}
pub open spec fn spec_remove(r: int, q: int, s: int, sr: int, pa: int, psh: int, p0: int, p1: int, l: int, neg: bool, tq: int, f: int) -> Option<((int, int, int, int), int, int, int, int)> {
    match (px(q, r), px(p0, p1)) {
        (Some(cp), Some(pp)) => match remove_parts(r, q, s, sr, cp, pp) {
            None => None,
            Some((ds, db, dr, dq, h)) => if psh == 0 || (sr * pa) / psh > u128::MAX { None } else {
                match spec_delta_imbalance(keep(dq, f), l, neg, tq) { None => None, Some(dl) => Some(((-keep(dr, f), -keep(dq, f), -ds, db), dl, -((sr * pa) / psh), -sr, keep(h, f))) }
            },
        },
        _ => None,
    }
}
proof fn lem_keep(v: int, f: int)
    requires 0 <= v <= u128::MAX, 0 <= f,
    ensures 0 <= keep(v, f) <= v, 0 <= fee_left(f) <= d18(), keep(v, 0) == v, f >= d18() ==> keep(v, f) == 0,
{
    let c = fee_left(f); assert(0 <= c * v <= v * d18()) by (nonlinear_arith) requires 0 <= c <= d18(), 0 <= v;
    lem_div(c * v, d18()); lem_div_pos(c * v, d18());
    assert(keep(v, f) <= v) by (nonlinear_arith) requires keep(v, f) * d18() <= c * v, c * v <= v * d18(), d18() > 0;
    assert(fee_left(0) * v == v * d18()) by (nonlinear_arith) requires fee_left(0) == d18(); lem_div_is(v * d18(), d18(), v);
    if f >= d18() { assert(c * v == 0) by (nonlinear_arith) requires c == 0; lem_div_is(0, d18(), 0); }
}
proof fn lem_px(q: int, r: int)
    requires 0 <= q, 0 <= r,
    ensures px(q, r) matches Some(v) ==> 0 <= v <= u128::MAX && r > 0,
{ }
proof fn lem_mul2(a: int, b: int)
    requires 0 <= a <= u128::MAX, 0 <= b <= u128::MAX,
    ensures 0 <= a * b < p256(), 0 <= b * a < p256(), a * b == b * a,
{ lem_into(a, b, 0); }
proof fn lem_remove(r: int, q: int, s: int, sr: int, pa: int, psh: int, cp: int, pp: int)
    requires 0 <= r <= u128::MAX, 0 <= q <= u128::MAX, 0 <= s <= u128::MAX, 0 <= sr <= u128::MAX, 0 <= pa <= u128::MAX, 0 <= psh <= u128::MAX, 0 <= pp <= u128::MAX,
    ensures 4 * u128::MAX < p256(), 0 <= sr * pa < p256(), psh > 0 ==> 0 <= (sr * pa) / psh, 0 <= (pp * r) / d18(),
        fit128((pp * r) / d18()) matches Some(v) ==> {
            let x = v + 1;
            &&& x >= q ==> 0 <= (x - q) * sr < p256() && 0 <= ((x - q) * sr) / (x + q) <= sr
            &&& spec_db(cp, pp, x, q, sr) matches Some(db) ==> 0 <= db <= sr + 1 && (db <= sr ==> {
                let ds = sr - db; let dr = (r * ds) / s;
                &&& 0 <= r * ds < p256()
                &&& s > 0 ==> 0 <= dr && 0 <= dr * q && (dr <= u128::MAX ==> dr * q < p256()) && (r > 0 ==> 0 <= (dr * q) / r)
                &&& q >= x ==> 0 <= q * (q - x) < p256() && { let t = (q * (q - x)) / (q + x); 0 <= t <= q && 0 <= t * ds < p256() && (s > 0 ==> 0 <= (t * ds) / s) } })
        },
{
    assert(4 * u128::MAX < p256()) by (compute);
    lem_mul2(sr, pa); if psh > 0 { lem_div_pos(sr * pa, psh); }
    assert(0 <= pp * r) by (nonlinear_arith) requires 0 <= pp, 0 <= r; lem_div_pos(pp * r, d18());
    if fit128((pp * r) / d18()) is Some {
        let v = (pp * r) / d18(); let x = v + 1;
        if x >= q {
            let e = x - q;
            assert(0 <= e * sr <= (u128::MAX + 1) * u128::MAX) by (nonlinear_arith) requires 0 <= e <= u128::MAX + 1, 0 <= sr <= u128::MAX;
            assert((u128::MAX + 1) * u128::MAX < p256()) by (compute);
            let t = (e * sr) / (x + q); lem_div(e * sr, x + q); lem_div_pos(e * sr, x + q);
            assert(t <= sr) by (nonlinear_arith) requires t * (x + q) <= e * sr, e <= x + q, x + q > 0, sr >= 0, e >= 0;
        }
        if spec_db(cp, pp, x, q, sr) is Some && spec_db(cp, pp, x, q, sr)->0 <= sr {
            let ds = sr - spec_db(cp, pp, x, q, sr)->0; lem_mul2(r, ds);
            if s > 0 {
                let dr = (r * ds) / s; lem_div_pos(r * ds, s); assert(0 <= dr * q) by (nonlinear_arith) requires 0 <= dr, 0 <= q;
                if dr <= u128::MAX { lem_mul2(dr, q); } if r > 0 { lem_div_pos(dr * q, r); }
            }
            if q >= x {
                let y = q - x; lem_mul2(q, y); let t = (q * y) / (q + x); lem_div(q * y, q + x); lem_div_pos(q * y, q + x);
                assert(t <= q) by (nonlinear_arith) requires t * (q + x) <= q * y, y <= q + x, q + x > 0, q >= 0, y >= 0;
                lem_mul2(t, ds); if s > 0 { lem_div_pos(t * ds, s); }
            }
        }
    }
}
//@ fn math/src/omnipool/math.rs::calculate_remove_liquidity_state_changes(asset_state, shares_removed, position, imbalance, total_hub_reserve, withdrawal_fee)
//@ attr #[verifier::spinoff_prover] #[verifier::rlimit(50)]
//@ ensures lsc(r) == spec_remove(asset_state.reserve as int, asset_state.hub_reserve as int, asset_state.shares as int, shares_removed as int, position.amount as int, position.shares as int, position.price.0 as int, position.price.1 as int, imbalance.value as int, imbalance.negative, total_hub_reserve as int, withdrawal_fee@)
//@ pre broadcast use vxf; let ghost rr = asset_state.reserve as int; let ghost q = asset_state.hub_reserve as int; let ghost s = asset_state.shares as int;
//@ proof { lem_px(q, rr); lem_px(position.price.0 as int, position.price.1 as int); let (cp, pp) = (px(q, rr), px(position.price.0 as int, position.price.1 as int)); if cp is Some && pp is Some { lem_remove(rr, q, s, shares_removed as int, position.amount as int, position.shares as int, cp->0, pp->0); } }
//@ proof { assert forall|v: int| 0 <= v <= u128::MAX implies 0 <= #[trigger] ((fee_left(withdrawal_fee@) * v) / d18()) <= v by { lem_keep(v, withdrawal_fee@); } }
//@ end
/// the position loses exactly the shares removed, which are burned or go to the protocol; the payout is at most proportional and others are not diluted
proof fn c24_fair(r: int, q: int, s: int, sr: int, pa: int, psh: int, p0: int, p1: int, l: int, neg: bool, tq: int, f: int)
    requires 0 <= r <= u128::MAX, 0 <= q <= u128::MAX, 0 <= s <= u128::MAX, 0 <= sr <= s, 0 <= pa <= u128::MAX, 0 <= psh <= u128::MAX, 0 <= p0 <= u128::MAX, 0 <= p1 <= u128::MAX, 0 <= f,
    ensures spec_remove(r, q, s, sr, pa, psh, p0, p1, l, neg, tq, f) matches Some((c, d, pr, ps, h)) ==> {
        &&& c.2 <= 0 &&& c.3 >= 0 &&& ps == -sr &&& c.3 - c.2 == sr &&& pr <= 0 &&& (-pr) * psh <= sr * pa &&& (sr <= psh ==> -pr <= pa)
        &&& 0 <= -c.0 <= r &&& 0 <= -c.1 <= q &&& 0 <= h <= q
        &&& (-c.0) * s <= r * (-c.2) &&& (r + c.0) * s >= r * (s + c.2)
        &&& (-c.1) * s <= q * (-c.2) &&& h * s <= q * (-c.2)
    },
{
    if spec_remove(r, q, s, sr, pa, psh, p0, p1, l, neg, tq, f) is Some {
        let cp = px(q, r)->0; let pp = px(p0, p1)->0; lem_remove(r, q, s, sr, pa, psh, cp, pp);
        let v = (pp * r) / d18(); let x = v + 1;
        let (ds, db, dr, dq, h) = remove_parts(r, q, s, sr, cp, pp)->0;
        lem_div(r * ds, s); lem_div(dr * q, r); lem_div(sr * pa, psh); lem_keep(dr, f); lem_keep(dq, f);
        assert(dq * s <= q * ds) by (nonlinear_arith) requires dq * r <= dr * q, dr * s <= r * ds, r > 0, q >= 0, s > 0;
        assert(dr <= r) by (nonlinear_arith) requires dr * s <= r * ds, ds <= s, s > 0, r >= 0;
        assert(dq <= q) by (nonlinear_arith) requires dq * s <= q * ds, ds <= s, s > 0, q >= 0;
        if cp > pp {
            let t = (q * (q - x)) / (q + x); lem_div(t * ds, s); lem_div_pos(t * ds, s);
            assert(h * s <= q * ds) by (nonlinear_arith) requires h * s <= t * ds, t <= q, ds >= 0;
            assert(h <= q) by (nonlinear_arith) requires h * s <= q * ds, ds <= s, s > 0, q >= 0;
        } else { assert(0 * s <= q * ds) by (nonlinear_arith) requires 0 <= q, 0 <= ds; }
        lem_keep(h, f);
        let (a, b, g) = (keep(dr, f), keep(dq, f), keep(h, f)); let m = (sr * pa) / psh;
        assert(a * s <= r * ds) by (nonlinear_arith) requires a <= dr, dr * s <= r * ds, s > 0;
        assert(b * s <= q * ds) by (nonlinear_arith) requires b <= dq, dq * s <= q * ds, s > 0;
        assert(g * s <= q * ds) by (nonlinear_arith) requires g <= h, h * s <= q * ds, s > 0;
        assert((r - a) * s >= r * (s - ds)) by (nonlinear_arith) requires a * s <= r * ds;
        if sr <= psh { assert(m <= pa) by (nonlinear_arith) requires m * psh <= sr * pa, sr <= psh, psh > 0, pa >= 0; }
    }
}
/// at an unchanged price and without a fee the whole of the shares is burned for exactly their part of the reserve; a full fee pays nothing
proof fn c24_plain(r: int, q: int, s: int, sr: int, pa: int, psh: int, p0: int, p1: int, l: int, neg: bool, tq: int)
    requires 0 <= r <= u128::MAX, 0 <= q <= u128::MAX, 0 <= s <= u128::MAX, 0 <= sr <= s, 0 <= pa <= u128::MAX, 0 <= psh <= u128::MAX, 0 <= p0 <= u128::MAX, 0 <= p1 <= u128::MAX, px(q, r) == px(p0, p1),
    ensures spec_remove(r, q, s, sr, pa, psh, p0, p1, l, neg, tq, 0) matches Some((c, d, pr, ps, h)) ==> c.0 == -((r * sr) / s) && c.2 == -sr && c.3 == 0 && h == 0,
        spec_remove(r, q, s, sr, pa, psh, p0, p1, l, neg, tq, d18()) matches Some((c, d, pr, ps, h)) ==> c.0 == 0 && c.1 == 0 && h == 0,
{
    if px(q, r) is Some {
        let cp = px(q, r)->0; assert(0 <= q * d18()) by (nonlinear_arith) requires 0 <= q, d18() > 0; lem_div_pos(q * d18(), r);
        lem_remove(r, q, s, sr, pa, psh, cp, cp);
        if remove_parts(r, q, s, sr, cp, cp) is Some { let (ds, db, dr, dq, h) = remove_parts(r, q, s, sr, cp, cp)->0; lem_keep(dr, 0); lem_keep(dq, 0); lem_keep(h, 0); lem_keep(dr, d18()); lem_keep(dq, d18()); lem_keep(h, d18()); }
    }
}
/// withdrawal fee: the relative distance of the price from the oracle, at least the minimum and at most everything
pub open spec fn spec_wfee(sp: int, op: int, m: int) -> int {
    if op == 0 { m } else { imax(m, imin(ndiv(iabs(sp - op) * d18(), op), d18())) }
}
proof fn lem_wfee(d: int, op: int)
    requires 0 <= d <= u128::MAX, 0 < op <= u128::MAX,
    ensures 0 <= d * d18(), 0 <= ndiv(d * d18(), op), d < op ==> ndiv(d * d18(), op) <= d18(), d >= op ==> ndiv(d * d18(), op) >= d18(),
{
    let n = d * d18(); let t = n / op;
    assert(0 <= n) by (nonlinear_arith) requires n == d * d18(), d >= 0, d18() > 0; lem_div(n, op); lem_div_pos(n, op);
    if d < op {
        assert(t < d18()) by (nonlinear_arith) requires t * op <= n, n == d * d18(), d < op, d18() > 0, op > 0;
    } else {
        assert(t >= d18()) by (nonlinear_arith) requires n < t * op + op, n == d * d18(), d >= op, op > 0, d18() > 0;
    }
}
//@ fn math/src/omnipool/math.rs::calculate_withdrawal_fee(spot_price, oracle_price, min_withdrawal_fee)
//@ ensures r@ == spec_wfee(spot_price@, oracle_price@, (min_withdrawal_fee@ * d18()) / mil())
//@ pre broadcast use vxf; proof { if oracle_price@ > 0 { lem_wfee(iabs(spot_price@ - oracle_price@), oracle_price@); } assert(min_withdrawal_fee@ * d18() <= mil() * d18()) by (nonlinear_arith) requires min_withdrawal_fee@ <= mil(), d18() > 0; }
//@ end
proof fn lem_ndiv_mono(a: int, b: int, c: int)
    requires 0 <= a <= b, 0 < c,
    ensures ndiv(a, c) <= ndiv(b, c),
{
    lem_div(a, c); lem_div(b, c); let (s, t) = (a / c, b / c);
    assert(s <= t) by (nonlinear_arith) requires s * c <= a, a <= b, b < t * c + c, c > 0;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, c); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, c);
}
/// never below the minimum, never above 100%; 100% once the price is twice the oracle's or more
proof fn c24_fee(sp: int, op: int, m: int)
    requires 0 <= sp <= u128::MAX, 0 <= op <= u128::MAX, 0 <= m <= d18(),
    ensures m <= spec_wfee(sp, op, m) <= d18(), sp == op ==> spec_wfee(sp, op, m) == m, op > 0 && sp >= 2 * op ==> spec_wfee(sp, op, m) == d18(),
{
    hide(ndiv);
    if op > 0 { lem_wfee(iabs(sp - op), op); if sp == op { lem_zero_div(op); } }
}
proof fn lem_zero_div(op: int) requires op > 0 ensures ndiv(0 * d18(), op) == 0 { assert(0 * d18() == 0) by (nonlinear_arith); lem_div_is(0, op, 0); lem_div(0, op); }
/// the configured minimum is itself a rate
proof fn c24_min_fee(f: int)
    requires 0 <= f <= 1_000_000,
    ensures 0 <= (f * d18()) / mil() <= d18(),
{
    let m = (f * d18()) / mil();
    assert(0 <= f * d18() <= d18() * mil()) by (nonlinear_arith) requires 0 <= f <= mil(), d18() > 0; lem_div(f * d18(), mil()); lem_div_pos(f * d18(), mil());
    assert(m <= d18()) by (nonlinear_arith) requires m * mil() <= d18() * mil(), mil() > 0;
}
/// the fee never shrinks when the price moves further from the oracle's
proof fn c24_fee_grows(sp: int, sp2: int, op: int, m: int)
    requires 0 <= sp <= u128::MAX, 0 <= sp2 <= u128::MAX, 0 <= op <= u128::MAX, iabs(sp2 - op) >= iabs(sp - op),
    ensures spec_wfee(sp2, op, m) >= spec_wfee(sp, op, m),
{
    if op > 0 {
        let (d, e) = (iabs(sp - op), iabs(sp2 - op)); let (a, b) = (d * d18(), e * d18());
        assert(0 <= a <= b) by (nonlinear_arith) requires a == d * d18(), b == e * d18(), 0 <= d <= e, d18() > 0;
        lem_ndiv_mono(a, b, op);
    }
}
