//@ root pallets/staking/src
//@ include prelude.rs
//@ include fixed.rs
//@ dropgen T
//@ subst lib.rs|V => Vote
//@ call T::MaxPointsPerAction::get => max_points
//@ known max_points
pub type Balance = u128;
pub open spec fn m128() -> int { u128::MAX as int }
pub assume_specification [ u128::saturating_div ] (a: u128, b: u128) -> (r: u128) requires b != 0 ensures r == a / b;
//@ item pallets/staking/src/types.rs::Action derive none
//@ item pallets/staking/src/types.rs::Conviction derive none
//@ item pallets/staking/src/types.rs::Vote derive none
pub uninterp spec fn max_pts() -> u32;
#[verifier::external_body] pub fn max_points(a: &Action) -> (r: u32) ensures r == max_pts() { unimplemented!() }
/// votes per token: a tenth without a lock, then one more for every step of conviction, as the democracy pallet counts them
pub open spec fn step(c: Conviction) -> int { match c { Conviction::None => 0, Conviction::Locked1x => 1, Conviction::Locked2x => 2, Conviction::Locked3x => 3, Conviction::Locked4x => 4, Conviction::Locked5x => 5, Conviction::Locked6x => 6 } }
pub open spec fn mult(c: Conviction) -> int { if c is None { 100_000_000_000_000_000 } else { step(c) * d18() } }
pub open spec fn spec_pts(amount: int, c: Conviction, max: int) -> int { imin(imin((mult(c) * amount) / d18(), m128()) * max_pts(), m128()) / max }
pub open spec fn spec_max(stake: int) -> int { imin((6 * d18() * stake) / d18(), m128()) }
impl Conviction {
//@ fn pallets/staking/src/types.rs::Conviction::multiplier()
//@ ensures r@ == mult(*self)
//@ pre broadcast use vxf;
//@ end
//@ fn pallets/staking/src/types.rs::Conviction::max_multiplier()
//@ ensures r@ == 6 * d18()
//@ end
}
impl Vote {
//@ fn pallets/staking/src/types.rs::Vote::new(amount, conviction)
//@ ensures r.amount == amount, r.conviction == conviction
//@ end
//@ fn pallets/staking/src/types.rs::Vote::amount()
//@ ensures r == self.amount
//@ end
//@ fn pallets/staking/src/types.rs::Vote::conviction()
//@ ensures r@ == mult(self.conviction)
//@ end
}
pub struct Pallet { }
impl Pallet {
//@ fn pallets/staking/src/lib.rs::Pallet::calculate_points_for_action(action, data, action_max_value)
//@ generics
//@ requires action_max_value != 0
//@ ensures r == spec_pts(data.amount as int, data.conviction, action_max_value as int)
//@ end
}
// ---------------------------------------------------------------- C45
/// no vote brings more than the action's maximum, and the whole stake at the highest conviction brings exactly it
proof fn c45_max(amount: int, c: Conviction, stake: int)
    requires 0 <= amount <= stake <= m128(), 0 < stake, spec_max(stake) * max_pts() <= m128(),
    ensures spec_max(stake) > 0, 0 <= spec_pts(amount, c, spec_max(stake)) <= max_pts(), spec_pts(stake, Conviction::Locked6x, spec_max(stake)) == max_pts(),
{
    let m = spec_max(stake);
    assert(6 * d18() * stake == (6 * stake) * d18()) by (nonlinear_arith);
    lem_div_is(6 * d18() * stake, d18(), 6 * stake);
    let p = mult(c); assert(0 <= p <= 6 * d18()); let k = max_pts() as int;
    assert(0 <= p * amount <= 6 * d18() * stake) by (nonlinear_arith) requires 0 <= p <= 6 * d18(), 0 <= amount <= stake;
    lem_div_mono(p * amount, 6 * d18() * stake, d18()); lem_div_pos(p * amount, d18());
    let x = imin((p * amount) / d18(), m128());
    assert(0 <= x * k <= m * k) by (nonlinear_arith) requires 0 <= x <= m, k >= 0;
    lem_div_mono(x * k, m * k, m); lem_div_pos(x * k, m);
    assert(m * k == k * m) by (nonlinear_arith);
    lem_div_is(m * k, m, k);
}
/// more tokens, or a longer lock, never bring fewer points
proof fn c45_mono(a: int, b: int, c: Conviction, d: Conviction, max: int)
    requires 0 <= a <= b, step(c) <= step(d), 0 < max,
    ensures mult(c) <= mult(d), step(c) < step(d) ==> mult(c) < mult(d), spec_pts(a, c, max) <= spec_pts(b, d, max),
{
    let (p, q) = (mult(c), mult(d)); assert(0 < p <= q); let k = max_pts() as int;
    assert(0 <= p * a <= q * b) by (nonlinear_arith) requires 0 < p <= q, 0 <= a <= b;
    lem_div_mono(p * a, q * b, d18()); lem_div_pos(p * a, d18());
    let x = imin((p * a) / d18(), m128()); let y = imin((q * b) / d18(), m128());
    assert(0 <= x * k <= y * k) by (nonlinear_arith) requires 0 <= x <= y, k >= 0;
    lem_div_mono(imin(x * k, m128()), imin(y * k, m128()), max);
}
}
fn main(){}
