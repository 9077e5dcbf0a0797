//@ root math/src
//@ subst liquidity_mining.rs|Period => u32
//@ dropgen Period
//@ call TryInto::try_into => vx_try_u128
//@ include prelude.rs
//@ include fixed.rs
//@ include mathlib.rs
pub type Balance = u128;
pub fn vx_try_u128(x: u32) -> (r: Result<u128, MathError>) ensures r matches Ok(v) && v as int == x as int { Ok(x as u128) }
pub open spec fn m128() -> int { u128::MAX as int }
pub open spec fn okfx(r: Result<FixedU128, MathError>) -> Option<int> { match r { Ok(v) => Some(v@), Err(_) => None } }
/// share of rewards a deposit of some age may claim
pub open spec fn spec_loyalty(t: int, init: int, coef: int) -> Option<int> {
    let n = (init * (coef * d18())) / d18() + t * d18();
    if n > m128() || (t + coef) * d18() > m128() || t + coef == 0 { None } else { fit((n * d18()) / ((t + coef) * d18())) }
}
pub open spec fn spec_rps(now: int, shares: int, reward: int) -> Option<int> { if shares == 0 { None } else { match fit((reward * d18()) / shares) { None => None, Some(v) => fit(now + v) } } }
pub open spec fn spec_reward(start: int, now: int, shares: int) -> Option<int> { if now < start { None } else { fit(((now - start) * shares) / d18()) } }
/// (paid now, forfeited)
pub open spec fn spec_user(start: int, shares: int, claimed: int, now: int, mult: int) -> Option<(int, int)> {
    match spec_reward(start, now, shares) { None => None, Some(m) => if m == 0 { Some((0int, 0int)) } else {
        let c = (mult * m) / d18();
        if c > m || c < claimed { None } else { Some((c - claimed, m - c)) } } }
}
pub open spec fn spec_farm_shares(v: int, mult: int) -> Option<int> { fit((mult * v) / d18()) }
pub open spec fn spec_yield(yrpz: int, grpz: int, mult: int, shares: int) -> Option<(int, int)> {
    match spec_farm_shares(shares, mult) { None => None, Some(z) => match spec_reward(yrpz, grpz, z) { None => None, Some(r) =>
        if shares == 0 { None } else { match fit((r * d18()) / shares) { None => None, Some(d) => Some((d, r)) } } } }
}
pub open spec fn spec_global(z: int, adj: int, ypp: int, maxr: int, periods: int) -> Option<int> {
    match fit((adj * z) / d18()) { None => None, Some(za) => if za * ypp * periods >= p256() { None } else {
        match fit((za * ypp * periods) / d18()) { None => None, Some(r) => if maxr * periods > m128() { None } else { Some(imin(r, maxr * periods)) } } } }
}
pub open spec fn ok2(r: Result<(Balance, Balance), MathError>) -> Option<(int, int)> { match r { Ok(v) => Some((v.0 as int, v.1 as int)), Err(_) => None } }
pub open spec fn okf2(r: Result<(FixedU128, Balance), MathError>) -> Option<(int, int)> { match r { Ok(v) => Some((v.0@, v.1 as int)), Err(_) => None } }
//@ fn math/src/liquidity_mining/liquidity_mining.rs::calculate_loyalty_multiplier(periods, initial_reward_percentage, scale_coef)
//@ ensures okfx(r) == spec_loyalty(periods as int, initial_reward_percentage@, scale_coef as int)
//@ pre broadcast use vxf; assert((periods + scale_coef) * d18() == periods * d18() + scale_coef * d18()) by (nonlinear_arith);
//@ meta inst=::<u32>
//@   alias.Period=u32
//@ end
//@ fn math/src/liquidity_mining/liquidity_mining.rs::calculate_accumulated_rps(accumulated_rps_now, total_shares, reward)
//@ ensures okfx(r) == spec_rps(accumulated_rps_now@, total_shares as int, reward as int)
//@ pre broadcast use vxf;
//@ end
//@ fn math/src/liquidity_mining/liquidity_mining.rs::calculate_user_reward(accumulated_rpvs, valued_shares, accumulated_claimed_rewards, accumulated_rpvs_now, loyalty_multiplier)
//@ ensures ok2(r) == spec_user(accumulated_rpvs@, valued_shares as int, accumulated_claimed_rewards as int, accumulated_rpvs_now@, loyalty_multiplier@)
//@ pre broadcast use vxf;
//@ end
//@ fn math/src/liquidity_mining/liquidity_mining.rs::calculate_valued_shares(shares, incentivized_asset_balance)
//@ ensures ok128(r) == fit128(shares as int * incentivized_asset_balance as int)
//@ pre broadcast use vxf;
//@ end
//@ fn math/src/liquidity_mining/liquidity_mining.rs::calculate_global_farm_shares(valued_shares, multiplier)
//@ ensures ok128(r) == spec_farm_shares(valued_shares as int, multiplier@)
//@ pre broadcast use vxf;
//@ end
//@ fn math/src/liquidity_mining/liquidity_mining.rs::calculate_reward(accumulated_rps_start, accumulated_rps_now, shares)
//@ ensures ok128(r) == spec_reward(accumulated_rps_start@, accumulated_rps_now@, shares as int)
//@ pre broadcast use vxf;
//@ end
//@ fn math/src/liquidity_mining/liquidity_mining.rs::calculate_yield_farm_rewards(yield_farm_rpz, global_farm_rpz, multiplier, total_valued_shares)
//@ ensures okf2(r) == spec_yield(yield_farm_rpz@, global_farm_rpz@, multiplier@, total_valued_shares as int)
//@ pre broadcast use vxf;
//@ end
//@ fn math/src/liquidity_mining/liquidity_mining.rs::calculate_global_farm_rewards(total_shares_z, price_adjustment, yield_per_period, max_reward_per_period, periods_since_last_update)
//@ ensures ok128(r) == spec_global(total_shares_z as int, price_adjustment@, yield_per_period@, max_reward_per_period as int, periods_since_last_update as int)
//@ pre broadcast use vxf;
//@ meta inst=::<u32>
//@   alias.Period=u32
//@ end
// ---------------------------------------------------------------- property lemmas
/// what is paid, what was paid before and what is forfeited add up to the reward earned
proof fn c37_user(start: int, shares: int, claimed: int, now: int, mult: int)
    requires 0 <= start, 0 <= shares, 0 <= claimed, 0 <= mult, spec_user(start, shares, claimed, now, mult) is Some,
    ensures ({ let (u, f) = spec_user(start, shares, claimed, now, mult)->0; let m = spec_reward(start, now, shares)->0;
        &&& 0 <= u && 0 <= f
        &&& (m > 0 ==> u + claimed + f == m)
        &&& (m == 0 ==> u == 0 && f == 0) }),
{}
/// the multiplier stays between the initial percentage and one and never falls with age
proof fn c37_loyalty(t: int, t2: int, init: int, coef: int)
    requires 0 <= t <= t2, 0 <= init <= d18(), 0 <= coef, spec_loyalty(t, init, coef) is Some, spec_loyalty(t2, init, coef) is Some,
    ensures init <= spec_loyalty(t, init, coef)->0 <= spec_loyalty(t2, init, coef)->0 <= d18(),
{
    lem_loy(t, init, coef); lem_loy(t2, init, coef);
    let (n, n2) = (init * coef + t * d18(), init * coef + t2 * d18());
    let (e, e2) = (t + coef, t2 + coef);
    lem_div(n, e); lem_div(n2, e2);
    let (q, q2) = (n / e, n2 / e2);
    assert(init * e <= n) by (nonlinear_arith) requires n == init * coef + t * d18(), e == t + coef, init <= d18(), t >= 0;
    assert(init <= q) by (nonlinear_arith) requires init * e <= n, n < q * e + e, e >= 1;
    assert(n2 <= e2 * d18()) by (nonlinear_arith) requires n2 == init * coef + t2 * d18(), e2 == t2 + coef, init <= d18(), coef >= 0;
    assert(q2 <= d18()) by (nonlinear_arith) requires q2 * e2 <= n2, n2 <= e2 * d18(), e2 >= 1;
    assert(n * e2 <= n2 * e) by (nonlinear_arith) requires n == init * coef + t * d18(), n2 == init * coef + t2 * d18(), e == t + coef, e2 == t2 + coef, init <= d18(), coef >= 0, t <= t2;
    assert(q * e * e2 <= n * e2) by (nonlinear_arith) requires q * e <= n, e2 >= 1;
    assert(q * e2 <= n2) by (nonlinear_arith) requires q * e * e2 <= n2 * e, e >= 1;
    assert(q <= q2) by (nonlinear_arith) requires q * e2 <= n2, n2 < q2 * e2 + e2, e2 >= 1;
}
proof fn lem_loy(t: int, init: int, coef: int)
    requires 0 <= t, 0 <= init, 0 <= coef, spec_loyalty(t, init, coef) is Some,
    ensures t + coef >= 1, spec_loyalty(t, init, coef)->0 == (init * coef + t * d18()) / (t + coef),
{
    assert(init * (coef * d18()) == (init * coef) * d18()) by (nonlinear_arith);
    assert(0 <= init * coef) by (nonlinear_arith) requires init >= 0, coef >= 0;
    lem_div_is((init * coef) * d18(), d18(), init * coef);
    let (n, e) = (init * coef + t * d18(), t + coef);
    lem_div(n, e); let q = n / e;
    assert(q * (e * d18()) <= n * d18()) by (nonlinear_arith) requires q * e <= n;
    assert(n * d18() < q * (e * d18()) + e * d18()) by (nonlinear_arith) requires n < q * e + e;
    assert(e * d18() > 0) by (nonlinear_arith) requires e >= 1;
    lem_div_is(n * d18(), e * d18(), q);
}
/// an index raised by a reward pays all shares together at most that reward
proof fn c37_index(now: int, shares: int, reward: int)
    requires 0 <= now, 0 <= shares, 0 <= reward, spec_rps(now, shares, reward) is Some,
    ensures ({ let n = spec_rps(now, shares, reward)->0; now <= n && ((n - now) * shares) / d18() <= reward }),
{
    let v = (reward * d18()) / shares;
    assert(reward * d18() >= 0) by (nonlinear_arith) requires reward >= 0;
    lem_div(reward * d18(), shares); lem_div_pos(reward * d18(), shares);
    lem_div_mono(v * shares, reward * d18(), d18());
    lem_div_is(reward * d18(), d18(), reward);
}
pub open spec fn total(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 0 } else { total(s.drop_last()) + s.last() } }
pub open spec fn paid(s: Seq<int>, d: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { paid(s.drop_last(), d) + (d * s.last()) / d18() } }
/// any number of positions together are paid no more than one position holding all their stake
proof fn c37_split(s: Seq<int>, d: int)
    requires 0 <= d, forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i],
    ensures 0 <= total(s), 0 <= paid(s, d) <= (d * total(s)) / d18(),
    decreases s.len()
{
    if s.len() == 0 { assert(d * 0 == 0); assert(0int / d18() == 0) by (compute); }
    else {
        c37_split(s.drop_last(), d);
        let (t, x) = (total(s.drop_last()), s.last());
        assert(d * t >= 0 && d * x >= 0) by (nonlinear_arith) requires d >= 0, t >= 0, x >= 0;
        lem_div(d * t, d18()); lem_div(d * x, d18()); lem_div(d * (t + x), d18()); lem_div_pos(d * x, d18());
        assert(d * (t + x) == d * t + d * x) by (nonlinear_arith);
        let (a, b, c) = ((d * t) / d18(), (d * x) / d18(), (d * (t + x)) / d18());
        assert(a + b <= c) by (nonlinear_arith) requires a * d18() <= d * t, b * d18() <= d * x, d * t + d * x < c * d18() + d18(), d18() > 0;
    }
}
/// any set of deposits within the shares an index was raised for is paid at most the reward
proof fn c37_solvent(now: int, shares: int, reward: int, s: Seq<int>)
    requires 0 <= now, 0 <= shares, 0 <= reward, spec_rps(now, shares, reward) is Some, total(s) <= shares, forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i],
    ensures paid(s, spec_rps(now, shares, reward)->0 - now) <= reward,
{
    let d = spec_rps(now, shares, reward)->0 - now;
    c37_index(now, shares, reward); c37_split(s, d);
    assert(d * total(s) <= d * shares) by (nonlinear_arith) requires d >= 0, total(s) <= shares;
    lem_div_mono(d * total(s), d * shares, d18());
}
/// a yield farm claims from the global farm exactly its shares' reward and credits its deposits at most that
proof fn c37_yield(yrpz: int, grpz: int, mult: int, shares: int)
    requires 0 <= yrpz, 0 <= mult, 0 <= shares, spec_yield(yrpz, grpz, mult, shares) is Some,
    ensures ({ let (d, r) = spec_yield(yrpz, grpz, mult, shares)->0;
        &&& spec_reward(yrpz, grpz, spec_farm_shares(shares, mult)->0) == Some(r)
        &&& 0 <= d && (d * shares) / d18() <= r }),
{
    let (d, r) = spec_yield(yrpz, grpz, mult, shares)->0;
    assert(mult * shares >= 0) by (nonlinear_arith) requires mult >= 0, shares >= 0;
    assert(r * d18() >= 0);
    lem_div(r * d18(), shares); lem_div_pos(r * d18(), shares);
    lem_div_mono(d * shares, r * d18(), d18()); lem_div_is(r * d18(), d18(), r);
}
/// a global farm never pays more than its maximum for the periods passed, and nothing for none
proof fn c37_global(z: int, adj: int, ypp: int, maxr: int, periods: int)
    requires spec_global(z, adj, ypp, maxr, periods) is Some,
    ensures spec_global(z, adj, ypp, maxr, periods)->0 <= maxr * periods, periods == 0 ==> spec_global(z, adj, ypp, maxr, periods)->0 <= 0,
{ assert(maxr * 0 == 0) by (nonlinear_arith); }
}
fn main(){}
