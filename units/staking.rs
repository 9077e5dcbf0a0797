//@ root math/src
//@ include prelude.rs
//@ include fixed.rs
//@ include mathlib.rs
//@ include staking.inc.rs
// ---------------------------------------------------------------- property lemmas
/// the index only grows, and a distribution pays all stakes together no more than what was distributed
proof fn c36_distribute(cur: int, pending: int, stake: int)
    requires 0 <= cur, 0 <= pending, 0 <= stake, spec_rps(cur, pending, stake) is Some,
    ensures ({ let n = spec_rps(cur, pending, stake)->0; cur <= n && (n - cur) * stake <= pending * d18() && ((n - cur) * stake) / d18() <= pending }),
{
    let v = (pending * d18()) / stake;
    assert(pending * d18() >= 0) by (nonlinear_arith) requires pending >= 0;
    lem_div(pending * d18(), stake); lem_div_pos(pending * d18(), stake);
    lem_div_mono(v * stake, pending * d18(), d18());
    lem_div_is(pending * d18(), d18(), pending);
}
pub open spec fn total(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 0 } else { total(s.drop_last()) + s.last() } }
pub open spec fn paid(s: Seq<int>, d: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { paid(s.drop_last(), d) + (d * s.last()) / d18() } }
/// any number of positions together are paid no more than one position holding all their stake
proof fn c36_split(s: Seq<int>, d: int)
    requires 0 <= d, forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i],
    ensures 0 <= total(s), 0 <= paid(s, d) <= (d * total(s)) / d18(),
    decreases s.len()
{
    if s.len() == 0 { assert(d * 0 == 0); assert(0int / d18() == 0) by (compute); }
    else {
        c36_split(s.drop_last(), d);
        let (t, x) = (total(s.drop_last()), s.last());
        assert(d * t >= 0 && d * x >= 0) by (nonlinear_arith) requires d >= 0, t >= 0, x >= 0;
        lem_div(d * t, d18()); lem_div(d * x, d18()); lem_div(d * (t + x), d18()); lem_div_pos(d * x, d18());
        assert(d * (t + x) == d * t + d * x) by (nonlinear_arith);
        let (a, b, c) = ((d * t) / d18(), (d * x) / d18(), (d * (t + x)) / d18());
        assert(a + b <= c) by (nonlinear_arith) requires a * d18() <= d * t, b * d18() <= d * x, d * t + d * x < c * d18() + d18(), d18() > 0;
    }
}
/// a distribution to all positions that saw the old index pays at most what was distributed
proof fn c36_solvent(cur: int, pending: int, stake: int, s: Seq<int>)
    requires 0 <= cur, 0 <= pending, 0 <= stake, spec_rps(cur, pending, stake) is Some, total(s) <= stake, forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i],
    ensures paid(s, spec_rps(cur, pending, stake)->0 - cur) <= pending,
{
    let d = spec_rps(cur, pending, stake)->0 - cur;
    c36_distribute(cur, pending, stake); c36_split(s, d);
    assert(d * total(s) <= d * stake) by (nonlinear_arith) requires d >= 0, total(s) <= stake;
    lem_div_mono(d * total(s), d * stake, d18());
}
/// slashing takes no more than there is, at least the minimum (or all), and never less for a bigger increase
proof fn c36_slash(points: int, stake: int, inc: int, inc2: int, weight: int, min: int)
    requires 0 <= points, 0 <= stake, 0 <= inc <= inc2, 0 <= weight, 0 <= min, spec_slash(points, stake, inc2, weight, min) is Some,
    ensures spec_slash(points, stake, inc, weight, min) is Some,
        imin(points, min) <= spec_slash(points, stake, inc, weight, min)->0 <= spec_slash(points, stake, inc2, weight, min)->0 <= points,
{
    assert(inc * points <= inc2 * points) by (nonlinear_arith) requires inc <= inc2, points >= 0;
    assert(stake * weight >= 0) by (nonlinear_arith) requires stake >= 0, weight >= 0;
    lem_div_mono(inc * points, inc2 * points, stake * weight);
}
/// points never fall with time or actions, and fall one for one with slashing
proof fn c36_points(created: int, now: int, now2: int, per: int, tw: int, ap: int, ap2: int, aw: int, slashed: int)
    requires 0 <= created, now <= now2, 0 <= per, 0 <= tw, 0 <= ap <= ap2, 0 <= aw, 0 <= slashed, spec_points(created, now, per, tw, ap, aw, slashed) is Some, spec_points(created, now2, per, tw, ap2, aw, slashed) is Some,
    ensures spec_points(created, now, per, tw, ap, aw, slashed)->0 <= spec_points(created, now2, per, tw, ap2, aw, slashed)->0,
        spec_points(created, now, per, tw, ap, aw, 0) == Some(spec_points(created, now, per, tw, ap, aw, slashed)->0 + slashed),
{
    let (k, m) = ((tw * d18()) / 1_000_000, (aw * d18()) / 1_000_000_000);
    assert(tw * d18() >= 0 && aw * d18() >= 0) by (nonlinear_arith) requires tw >= 0, aw >= 0;
    lem_div_pos(tw * d18(), 1_000_000); lem_div_pos(aw * d18(), 1_000_000_000);
    let (t, t2) = ((now - created) * per, (now2 - created) * per);
    assert(0 <= t <= t2) by (nonlinear_arith) requires created <= now <= now2, per >= 0, t == (now - created) * per, t2 == (now2 - created) * per;
    assert(0 <= k * t <= k * t2) by (nonlinear_arith) requires 0 <= t <= t2, k >= 0;
    assert(0 <= m * ap <= m * ap2) by (nonlinear_arith) requires 0 <= ap <= ap2, m >= 0;
    lem_div_mono(k * t, k * t2, d18()); lem_div_mono(m * ap, m * ap2, d18());
    lem_div_pos(k * t, d18()); lem_div_pos(m * ap, d18());
}
proof fn lem_satmul(a: int, b: int) requires 0 <= a <= b, ensures 0 <= imin((a * a) / d18(), m128()) <= imin((b * b) / d18(), m128()), 0 <= imin((d18() * a) / d18(), m128()) <= imin((d18() * b) / d18(), m128()),
{
    assert(0 <= a * a <= b * b) by (nonlinear_arith) requires 0 <= a <= b; assert(0 <= d18() * a <= d18() * b) by (nonlinear_arith) requires 0 <= a <= b;
    lem_div_mono(a * a, b * b, d18()); lem_div_mono(d18() * a, d18() * b, d18()); lem_div_pos(a * a, d18()); lem_div_pos(d18() * a, d18());
}
proof fn lem_pow4(a: int, b: int) requires 0 <= a <= b, ensures 0 <= fx_satpow(a, 4) <= fx_satpow(b, 4),
{
    reveal_with_fuel(fx_powgo, 5);
    lem_satmul(a, b);
    let (a2, b2) = (imin((a * a) / d18(), m128()), imin((b * b) / d18(), m128()));
    lem_satmul(a2, b2);
    let (a4, b4) = (imin((a2 * a2) / d18(), m128()), imin((b2 * b2) / d18(), m128()));
    lem_satmul(a4, b4);
    assert(fx_satpow(a, 4) == imin((d18() * a4) / d18(), m128()));
    assert(fx_satpow(b, 4) == imin((d18() * b4) / d18(), m128()));
}
/// the curve stays below one (for a positive b) and never falls when points grow
proof fn c36_sigmoid(x: int, x2: int, a: int, b: int)
    requires 0 <= x <= x2, 0 <= a, 1 <= b, spec_sigmoid(x2, a, b) is Some,
    ensures spec_sigmoid(x, a, b) is Some, 0 <= spec_sigmoid(x, a, b)->0 <= spec_sigmoid(x2, a, b)->0 < d18(),
{
    let (u, v) = (imin(x * d18(), m128()), imin(x2 * d18(), m128()));
    assert(0 <= u <= v) by { assert(0 <= x * d18() <= x2 * d18()) by (nonlinear_arith) requires 0 <= x <= x2; }
    assert(0 <= a * u <= a * v) by (nonlinear_arith) requires 0 <= u <= v, a >= 0;
    lem_div_mono(a * u, a * v, d18()); lem_div_pos(a * u, d18());
    let (p, q) = ((a * u) / d18(), (a * v) / d18());
    lem_pow4(p, q);
    let (y, z) = (fx_satpow(p, 4), fx_satpow(q, 4));
    let c = imin(b * d18(), m128());
    assert(b * d18() >= d18()) by (nonlinear_arith) requires b >= 1;
    assert(c >= 1);
    assert(0 <= y * d18() && 0 <= z * d18()) by (nonlinear_arith) requires y >= 0, z >= 0;
    lem_div(y * d18(), y + c); lem_div(z * d18(), z + c); lem_div_pos(y * d18(), y + c); lem_div_pos(z * d18(), z + c);
    let (f, g) = ((y * d18()) / (y + c), (z * d18()) / (z + c));
    assert(f < d18()) by (nonlinear_arith) requires f * (y + c) <= y * d18(), c >= 1, y >= 0, d18() > 0;
    assert(g < d18()) by (nonlinear_arith) requires g * (z + c) <= z * d18(), c >= 1, z >= 0, d18() > 0;
    assert(f * (z + c) <= z * d18()) by (nonlinear_arith) requires f * (y + c) <= y * d18(), f < d18(), y <= z, f >= 0, y >= 0, c >= 1;
    assert(f <= g) by (nonlinear_arith) requires f * (z + c) <= z * d18(), z * d18() < g * (z + c) + (z + c), z + c >= 1;
}
/// a share of at most one never takes more than the amount
proof fn c36_percentage(amount: int, p: int)
    requires 0 <= amount <= m128(), 0 <= p <= d18(),
    ensures imin((p * amount) / d18(), m128()) <= amount,
{
    assert(p * amount <= amount * d18()) by (nonlinear_arith) requires p <= d18(), amount >= 0;
    lem_div_mono(p * amount, amount * d18(), d18()); lem_div_is(amount * d18(), d18(), amount);
}
}
fn main(){}
