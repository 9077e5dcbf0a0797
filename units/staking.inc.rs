// ---- staking math: contracts shared by the math and the pallet units
pub type Balance = u128;
pub type Period = u128;
pub type Point = u128;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct NonZeroU128 { i: u128 }
impl NonZeroU128 {
    pub uninterp spec fn view(&self) -> int;
    #[verifier::external_body]
    pub fn get(self) -> (r: u128) ensures r as int == self@ { unimplemented!() }
}
pub broadcast axiom fn ax_nz(x: NonZeroU128) ensures #![trigger x.view()] 1 <= x@ <= u128::MAX as int;
pub open spec fn m128() -> int { u128::MAX as int }
pub open spec fn spec_rps(cur: int, pending: int, stake: int) -> Option<int> { if stake == 0 { None } else { match fit((pending * d18()) / stake) { None => None, Some(v) => fit(cur + v) } } }
/// points slashed on a stake increase
pub open spec fn spec_slash(points: int, stake: int, inc: int, weight: int, min: int) -> Option<int> {
    if stake * weight > m128() || inc * points > m128() || stake * weight == 0 { None } else { Some(imin(imax(imin((inc * points) / (stake * weight), points), min), points)) }
}
pub open spec fn spec_points(created: int, now: int, per: int, tw: int, ap: int, aw: int, slashed: int) -> Option<int> {
    if now < created || (now - created) * per > m128() { None } else {
        let t = (((tw * d18()) / 1_000_000) * ((now - created) * per)) / d18();
        let a = (((aw * d18()) / 1_000_000_000) * ap) / d18();
        if t > m128() || a > m128() || a + t > m128() || a + t < slashed { None } else { Some(a + t - slashed) }
    }
}
pub open spec fn ax4(x: int, a: int) -> Option<int> { match fit((a * imin(x * d18(), m128())) / d18()) { None => None, Some(v) => Some(fx_satpow(v, 4)) } }
pub open spec fn spec_sigmoid(x: int, a: int, b: int) -> Option<int> {
    match ax4(x, a) { None => None, Some(y) => { let d = y + imin(b * d18(), m128()); if d > m128() || d == 0 { None } else { fit((y * d18()) / d) } } }
}
pub open spec fn spec_rewards(acc: int, rps: int, stake: int) -> Option<int> { if acc < rps { None } else { fit(((acc - rps) * stake) / d18()) } }

//@ fn math/src/staking/math.rs::calculate_accumulated_rps(current_reward_per_stake, pending_rewards, total_stake)
//@ ensures fxo(r) == spec_rps(current_reward_per_stake@, pending_rewards as int, total_stake as int)
//@ pre broadcast use vxf;
//@ end
//@ fn math/src/staking/math.rs::calculate_slashed_points(points, current_stake, stake_increase, stake_weight, min_slash)
//@ ensures into_(r) == spec_slash(points as int, current_stake as int, stake_increase as int, stake_weight as int, min_slash as int)
//@ pre broadcast use vxf;
//@ end
//@ fn math/src/staking/math.rs::calculate_period_number(period_length, block_number)
//@ ensures r as int == block_number as int / period_length@
//@ pre broadcast use vxf; broadcast use ax_nz;
//@ end
//@ fn math/src/staking/math.rs::calculate_points(position_created_at, now, time_points_per_period, time_points_weight, action_points, action_points_weight, slashed_points)
//@ ensures into_(r) == spec_points(position_created_at as int, now as int, time_points_per_period as int, time_points_weight@, action_points as int, action_points_weight@, slashed_points as int)
//@ pre broadcast use vxf;
//@ end
//@ fn math/src/staking/math.rs::sigmoid(x, a, b)
//@ ensures fxo(r) == spec_sigmoid(x as int, a@, b as int)
//@ pre broadcast use vxf;
//@ end
//@ fn math/src/staking/math.rs::calculate_rewards(accumulated_reward_per_stake, reward_per_stake, stake)
//@ ensures into_(r) == spec_rewards(accumulated_reward_per_stake@, reward_per_stake@, stake as int)
//@ pre broadcast use vxf;
//@ end
//@ fn math/src/staking/math.rs::calculate_percentage_amount(amount, percentage)
//@ ensures r as int == imin((percentage@ * amount) / d18(), m128())
//@ pre broadcast use vxf;
//@ end
//@ fn math/src/staking/math.rs::calculate_total_rewards(new_rewards, locked_rewards, unpaid_rewards)
//@ ensures r as int == imin(new_rewards + locked_rewards + unpaid_rewards, m128())
//@ pre broadcast use vxf;
//@ end
