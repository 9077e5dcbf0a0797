//@ root math/src
//@ root pallets/staking/src
//@ include prelude.rs
//@ include fixed.rs
//@ include mathlib.rs
//@ include staking.inc.rs
//@ include storage.inc.rs
//@ dropgen T BlockNumber
//@ subst T::AssetId => u32
//@ subst T::AccountId => AccountId
//@ subst T::PositionItemId => u128
//@ subst OriginFor<T> => Origin
//@ subst Position<BlockNumberFor<T>> => Position
//@ subst BlockNumberFor<T> => u32
//@ subst types.rs|BlockNumber => u32
//@ storage Staking Positions NextPositionId PositionVotes ProcessedVotes
//@ call math::calculate_accumulated_rps => calculate_accumulated_rps
//@ call math::calculate_slashed_points => calculate_slashed_points
//@ call math::calculate_points => calculate_points
//@ call math::calculate_rewards => calculate_rewards
//@ call math::calculate_total_rewards => calculate_total_rewards
//@ call math::calculate_percentage_amount => calculate_percentage_amount
//@ call T::NativeAssetId::get => native_asset
//@ call T::MinStake::get => min_stake_of
//@ call T::TimePointsPerPeriod::get => time_points_per_period
//@ call T::TimePointsWeight::get => time_points_weight_of
//@ call T::ActionPointsWeight::get => action_points_weight_of
//@ call T::UnclaimablePeriods::get => unclaimable_periods
//@ call T::CurrentStakeWeight::get => current_stake_weight
//@ call T::MinSlash::get => min_slash_of
//@ call T::PayablePercentage::get => payable_percentage_of
//@ call T::NFTCollectionId::get => nft_collection
//@ call T::BlockNumberProvider::current_block_number => current_block_number
//@ call Self::get_current_period => current_period_of
//@ call Self::get_period_number => period_number_of
//@ call Self::pot_account_id => pot_account
//@ call Pallet::pot_account_id => pot_account
//@ call <Pallet>::pot_account_id => pot_account
//@ call Self::is_owner => w.nft.is_owner
//@ call Self::get_user_position_id => w.nft.position_of
//@ call Self::process_votes => w.process_votes
//@ call T::NFTHandler::mint_into => w.nft.mint_into
//@ call T::NFTHandler::burn => w.nft.burn
//@ call T::Vesting::locked => w.vested
//@ call T::Currency::free_balance => w.cur.free_balance
//@ call T::Currency::transfer => w.cur.transfer
//@ call T::Currency::set_lock => w.lock.set_lock
//@ call T::Currency::remove_lock => w.lock.remove_lock
//@ call T::AuthorityOrigin::ensure_origin => ensure_authority
//@ call T::NFTHandler::create_collection => w.nft.create_collection
//@ call T::Collections::freeze_collection => w.nft.freeze_collection
//@ call Self::deposit_event => deposit_event
//@ known ensure_authority ensure_signed native_asset min_stake_of time_points_per_period time_points_weight_of action_points_weight_of unclaimable_periods current_stake_weight min_slash_of payable_percentage_of nft_collection current_block_number current_period_of period_number_of pot_account deposit_event
//@ include frame.inc.rs
//@ include currency.inc.rs
pub const STAKING_LOCK_ID: [u8; 8] = [0, 0, 0, 0, 0, 0, 0, 0];
//@ item pallets/staking/src/lib.rs::InconsistentStateError derive none
//@ item pallets/staking/src/lib.rs::Error derive none
impl From<Error> for DispatchError { #[verifier::external_body] fn from(e: Error) -> (r: Self) { DispatchError::E } }
impl From<InconsistentStateError> for Error { #[verifier::external_body] fn from(e: InconsistentStateError) -> (r: Self) { Error::InconsistentState(e) } }
//@ item pallets/staking/src/types.rs::Position derive none
//@ item pallets/staking/src/types.rs::StakingData derive none
//@ item pallets/staking/src/lib.rs::Event derive none
// ---- what the pallet is configured with, and what it uses of other pallets
pub uninterp spec fn native() -> u32;
pub uninterp spec fn pot() -> AccountId;
pub uninterp spec fn min_stake() -> u128;
pub uninterp spec fn per_period() -> u8;
pub uninterp spec fn tweight() -> Permill;
pub uninterp spec fn aweight() -> Perbill;
pub uninterp spec fn unclaimable() -> u128;
pub uninterp spec fn sweight() -> u8;
pub uninterp spec fn min_slash(p: int) -> u128;
/// the share of the rewards a number of points entitles to (at most one: C36)
pub uninterp spec fn payable(points: u128) -> Option<FixedU128>;
pub broadcast axiom fn ax_payable(p: u128) ensures #![trigger payable(p)] payable(p) matches Some(x) ==> x@ <= d18();
pub uninterp spec fn vesting(who: AccountId) -> u128;
pub uninterp spec fn block() -> u32;
pub uninterp spec fn period(b: u32) -> Option<u128>;
#[verifier::external_body] pub fn native_asset() -> (r: u32) ensures r == native() { unimplemented!() }
#[verifier::external_body] pub fn pot_account() -> (r: AccountId) ensures r == pot() { unimplemented!() }
#[verifier::external_body] pub fn min_stake_of() -> (r: u128) ensures r == min_stake() { unimplemented!() }
#[verifier::external_body] pub fn time_points_per_period() -> (r: u8) ensures r == per_period() { unimplemented!() }
#[verifier::external_body] pub fn time_points_weight_of() -> (r: Permill) ensures r == tweight() { unimplemented!() }
#[verifier::external_body] pub fn action_points_weight_of() -> (r: Perbill) ensures r == aweight() { unimplemented!() }
#[verifier::external_body] pub fn unclaimable_periods() -> (r: u128) ensures r == unclaimable() { unimplemented!() }
#[verifier::external_body] pub fn current_stake_weight() -> (r: u8) ensures r == sweight() { unimplemented!() }
#[verifier::external_body] pub fn min_slash_of(p: &FixedU128) -> (r: u128) ensures r == min_slash(p@) { unimplemented!() }
#[verifier::external_body] pub fn payable_percentage_of(p: u128) -> (r: Option<FixedU128>) ensures r == payable(p) { unimplemented!() }
#[verifier::external_body] pub fn nft_collection() -> (r: u128) { unimplemented!() }
#[verifier::external_body] pub fn current_block_number() -> (r: u32) ensures r == block() { unimplemented!() }
#[verifier::external_body] pub fn current_period_of() -> (r: Option<u128>) ensures r == period(block()) { unimplemented!() }
#[verifier::external_body] pub fn period_number_of(b: u32) -> (r: Option<u128>) ensures r == period(b) { unimplemented!() }
/// the staking lock of every account (0: none)
#[verifier::external_body]
pub struct Lock { o: u8 }
impl Lock {
    pub uninterp spec fn view(&self) -> spec_fn(AccountId) -> int;
    #[verifier::external_body]
    pub fn set_lock(&mut self, id: [u8; 8], a: u32, who: &AccountId, x: u128) -> (r: DispatchResult)
        ensures r is Ok ==> a == native() ==> forall|k: AccountId| #[trigger] (final(self)@)(k) == (if k == *who { x as int } else { (old(self)@)(k) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_lock(&mut self, id: [u8; 8], a: u32, who: &AccountId) -> (r: DispatchResult)
        ensures r is Ok ==> a == native() ==> forall|k: AccountId| #[trigger] (final(self)@)(k) == (if k == *who { 0 } else { (old(self)@)(k) }) { unimplemented!() }
}
/// who owns the token of a position
#[verifier::external_body]
pub struct Nft { o: u8 }
impl Nft {
    pub uninterp spec fn view(&self) -> Map<u128, AccountId>;
    #[verifier::external_body]
    pub fn is_owner(&self, who: &AccountId, id: u128) -> (r: bool) ensures r == (self@.contains_key(id) && self@[id] == *who) { unimplemented!() }
    #[verifier::external_body]
    pub fn position_of(&self, who: &AccountId) -> (r: Result<Option<u128>, DispatchError>)
        ensures r is Ok ==> ((r->Ok_0 is None) <==> (forall|i: u128| #[trigger] self@.contains_key(i) ==> self@[i] != *who)) { unimplemented!() }
    #[verifier::external_body]
    pub fn create_collection(&mut self, c: &u128, who: &AccountId, admin: &AccountId) -> (r: DispatchResult)
        ensures r is Ok ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn freeze_collection(&mut self, who: AccountId, c: u128) -> (r: DispatchResult)
        ensures r is Ok ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn mint_into(&mut self, c: &u128, id: &u128, who: &AccountId) -> (r: DispatchResult)
        ensures r is Ok ==> !old(self)@.contains_key(*id) && final(self)@ == old(self)@.insert(*id, *who) { unimplemented!() }
    #[verifier::external_body]
    pub fn burn(&mut self, c: &u128, id: &u128, who: Option<&AccountId>) -> (r: DispatchResult)
        ensures r is Ok ==> final(self)@ == old(self)@.remove(*id) { unimplemented!() }
}
/// votes of a position, and votes already processed: opaque
#[verifier::external_body]
pub struct Voting { o: u8 }
#[verifier::external_body]
pub struct VoteIds { o: u8 }
pub struct VotingOf { pub votes: VoteIds }
impl VoteIds {
    pub uninterp spec fn none(&self) -> bool;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == self.none() { unimplemented!() }
}
#[verifier::external_body]
pub struct Processed { o: u8 }
impl Processed {
    pub uninterp spec fn view(&self) -> spec_fn(AccountId) -> bool;
    #[verifier::external_body]
    pub fn contains_prefix(&self, who: &AccountId) -> (r: bool) ensures r == (self@)(*who) { unimplemented!() }
}
#[verifier::external_body]
pub struct Votes { o: u8 }
impl Votes {
    pub uninterp spec fn view(&self) -> spec_fn(u128) -> VotingOf;
    #[verifier::external_body]
    pub fn get(&self, id: u128) -> (r: VotingOf) ensures r == (self@)(id) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, id: u128) { unimplemented!() }
}
pub uninterp spec fn authority(o: Origin) -> bool;
#[verifier::external_body] pub fn ensure_authority(o: Origin) -> (r: Result<(), DispatchError>) ensures r is Ok <==> authority(o) { unimplemented!() }
/// the derived default: zeros
impl Default for StakingData { #[verifier::external_body] fn default() -> (r: Self) ensures r.total_stake == 0, r.accumulated_reward_per_stake@ == 0, r.pot_reserved_balance == 0 { unimplemented!() } }
pub type Pos = Position;
pub struct World { pub Staking: Val<StakingData>, pub Positions: OptMap<u128, Pos>, pub NextPositionId: Val<u128>, pub PositionVotes: Votes, pub ProcessedVotes: Processed, pub nft: Nft, pub cur: Cur, pub lock: Lock }
impl World {
    #[verifier::external_body]
    pub fn vested(&self, who: AccountId) -> (r: u128) ensures r == vesting(who) { unimplemented!() }
    /// assumed: processing finished referenda only touches the votes and the position's action points
    #[verifier::external_body]
    pub fn process_votes(&mut self, who: &AccountId, id: u128, p: &mut Pos) -> (r: DispatchResult)
        ensures final(self).Staking == old(self).Staking, final(self).Positions == old(self).Positions, final(self).NextPositionId == old(self).NextPositionId, final(self).nft == old(self).nft, final(self).cur == old(self).cur, final(self).lock == old(self).lock,
            *final(p) == (Position { action_points: final(p).action_points, ..*old(p) }),
    { unimplemented!() }

}
pub fn deposit_event(e: Event) { }
pub open spec fn signed(o: Origin) -> Option<AccountId> { match signer(o) { Some(Some(a)) => Some(a), _ => None } }
/// what is not vesting and not staked covers the new stake
pub open spec fn stakeable(w: World, who: AccountId, staked: int, stake: int) -> bool {
    let free = (w.cur@)(native(), who, Kind::Free);
    free >= vesting(who) && ssub(free - vesting(who), staked) >= stake
}
pub open spec fn ssub(a: int, b: int) -> int { if a < b { 0 } else { a - b } }
/// the index and the reserved balance after handing out what the pot got since
pub open spec fn spec_update(s: StakingData, balance: int) -> Option<StakingData> {
    if s.total_stake == 0 { Some(s) } else if balance < s.pot_reserved_balance { None } else if balance == s.pot_reserved_balance { Some(s) } else {
        match spec_rps(s.accumulated_reward_per_stake@, balance - s.pot_reserved_balance, s.total_stake as int) {
            None => None,
            Some(v) => if v == s.accumulated_reward_per_stake@ { Some(s) } else { Some(StakingData { total_stake: s.total_stake, accumulated_reward_per_stake: fxu_of(v), pot_reserved_balance: balance as u128 }) }
        }
    }
}
pub open spec fn pos_points(p: Pos, now: int, created: int) -> Option<int> { spec_points(created, now, per_period() as int, tweight()@, p.action_points as int, aweight()@, p.accumulated_slash_points as int) }
/// what a position is paid now, what it keeps in the pot, and at which percentage
pub open spec fn spec_calc(p: Pos, acc: int, now: int, created: int) -> Option<(int, int, int)> {
    match spec_rewards(acc, p.reward_per_stake@, p.stake as int) { None => None, Some(new) =>
        if ssub(now, created) <= unclaimable() { Some((0, imin(p.accumulated_unpaid_rewards + new, m128()), 0)) }
        else { match pos_points(p, now, created) { None => None, Some(x) => match payable(x as u128) { None => None, Some(q) => {
            let total = imin(new + p.accumulated_locked_rewards + p.accumulated_unpaid_rewards, m128());
            let user = imin((q@ * total) / d18(), m128());
            let c = ssub(user, p.accumulated_locked_rewards as int);
            Some((c, ssub(ssub(total, p.accumulated_locked_rewards as int), c), q@)) } } } } }
}
impl Position {
//@ fn pallets/staking/src/types.rs::Position::new(stake, reward_per_stake, created_at)
//@ meta noreplay=1
//@ generics
//@ ensures r == (Position { stake, action_points: 0, reward_per_stake, created_at, accumulated_slash_points: 0, accumulated_unpaid_rewards: 0, accumulated_locked_rewards: 0 })
//@ end
//@ fn pallets/staking/src/types.rs::Position::get_total_locked()
//@ meta noreplay=1
//@ generics
//@ ensures into_ok(r) == (if self.stake + self.accumulated_locked_rewards <= m128() { Some(self.stake + self.accumulated_locked_rewards) } else { None })
//@ end
}
pub open spec fn into_ok<E>(r: Result<u128, E>) -> Option<int> { match r { Ok(x) => Some(x as int), Err(_) => None } }
impl StakingData {
//@ fn pallets/staking/src/types.rs::StakingData::add_stake(amount)
//@ meta noreplay=1
//@ ensures r is Ok <==> old(self).total_stake + amount <= m128(), r is Ok ==> *final(self) == (StakingData { total_stake: (old(self).total_stake + amount) as u128, ..*old(self) }),
//@ end
}
pub struct Pallet { }
impl Pallet {
//@ fn pallets/staking/src/lib.rs::Pallet::is_initialized()
//@ world
//@ ensures *final(w) == *old(w), r == old(w).Staking.e,
//@ end
//@ fn pallets/staking/src/lib.rs::Pallet::ensure_stakeable_balance(who, stake, position)
//@ world
//@ ensures *final(w) == *old(w),
//@ r is Ok <==> stakeable(*old(w), *who, match position { Some(p) => imin(p.stake + p.accumulated_locked_rewards, m128()), None => 0 }, stake as int),
//@ end
//@ fn pallets/staking/src/lib.rs::Pallet::get_next_position_id()
//@ world
//@ ensures okv(r) == (if old(w).NextPositionId.v == u128::MAX { None::<u128> } else { Some(old(w).NextPositionId.v) }),
//@ r is Ok ==> final(w).NextPositionId.v == old(w).NextPositionId.v + 1,
//@ rest_same(*old(w), *final(w)), final(w).Positions == old(w).Positions, final(w).nft == old(w).nft,
//@ end
//@ fn pallets/staking/src/lib.rs::Pallet::create_position_and_mint_nft(who, staked_amount, accumulated_reward_per_stake)
//@ world
//@ ensures rest_same(*old(w), *final(w)),
//@ r is Ok ==> old(w).NextPositionId.v < u128::MAX && r->Ok_0 == old(w).NextPositionId.v && final(w).NextPositionId.v == old(w).NextPositionId.v + 1 && final(w).Positions@ == old(w).Positions@.insert(r->Ok_0, fresh(staked_amount, accumulated_reward_per_stake))
//@ && !old(w).nft@.contains_key(r->Ok_0) && final(w).nft@ == old(w).nft@.insert(r->Ok_0, *who),
//@ end
//@ fn pallets/staking/src/lib.rs::Pallet::update_rewards(staking)
//@ world
//@ ensures *final(w) == *old(w),
//@ match spec_update(*old(staking), (old(w).cur@)(native(), pot(), Kind::Free)) { None => r is Err, Some(s) => r is Ok && *final(staking) == s },
//@ pre broadcast use vxf;
//@ end
//@ fn pallets/staking/src/lib.rs::Pallet::get_points(position, current_period, position_created_at)
//@ world
//@ ensures *final(w) == *old(w), into_(r) == pos_points(*position, current_period as int, position_created_at as int),
//@ end
//@ fn pallets/staking/src/lib.rs::Pallet::calculate_rewards(position, accumulated_reward_per_stake, current_period, position_created_at)
//@ world
//@ ensures *final(w) == *old(w),
//@ match spec_calc(*position, accumulated_reward_per_stake@, current_period as int, position_created_at as int) { None => r is None, Some(x) => (r matches Some(y) && y.0 as int == x.0 && y.1 as int == x.1 && y.2@ == x.2) },
//@ pre broadcast use vxf;
//@ end
//@ fn pallets/staking/src/lib.rs::Pallet::initialize_staking(origin)
//@ world
//@ ensures r is Ok ==> authority(origin) && !old(w).Staking.e && spec_init(*old(w), *final(w)),
//@ end
//@ fn pallets/staking/src/lib.rs::Pallet::stake(origin, amount)
//@ world
//@ ensures r is Ok ==> signed(origin) is Some && amount >= min_stake() && old(w).Staking.e && spec_stake(*old(w), *final(w), signed(origin)->0, amount),
//@ end
//@ fn pallets/staking/src/lib.rs::Pallet::increase_stake(origin, position_id, amount)
//@ world
//@ ensures r is Ok ==> signed(origin) is Some && amount >= min_stake() && old(w).Staking.e && spec_increase(*old(w), *final(w), signed(origin)->0, position_id, amount),
//@ end
//@ fn pallets/staking/src/lib.rs::Pallet::claim(origin, position_id)
//@ world
//@ ensures r is Ok ==> signed(origin) is Some && old(w).Staking.e && spec_claim(*old(w), *final(w), signed(origin)->0, position_id),
//@ end
//@ fn pallets/staking/src/lib.rs::Pallet::unstake(origin, position_id)
//@ world
//@ ensures r is Ok ==> signed(origin) is Some && old(w).Staking.e && spec_unstake(*old(w), *final(w), signed(origin)->0, position_id),
//@ end
}
/// all the pot holds at the start is set aside: it is no staker's reward
pub open spec fn spec_init(w: World, v: World) -> bool {
    &&& v.NextPositionId == w.NextPositionId && v.Positions == w.Positions && v.cur == w.cur && v.lock == w.lock && pot_balance(w) > 0
    &&& v.Staking.e && v.Staking.v.pot_reserved_balance == pot_balance(w) && v.Staking.v.total_stake == 0 && v.Staking.v.accumulated_reward_per_stake@ == 0
}
pub open spec fn fresh(stake: u128, rps: FixedU128) -> Pos { Position { stake, action_points: 0, reward_per_stake: rps, created_at: block(), accumulated_slash_points: 0, accumulated_unpaid_rewards: 0, accumulated_locked_rewards: 0 } }
pub open spec fn rest_same(a: World, b: World) -> bool { a.Staking == b.Staking && a.cur == b.cur && a.lock == b.lock && a.PositionVotes == b.PositionVotes && a.ProcessedVotes == b.ProcessedVotes }
pub open spec fn updated(w: World) -> Option<StakingData> { spec_update(w.Staking.v, (w.cur@)(native(), pot(), Kind::Free)) }
/// `who` is paid x by the pot, and no other balance changes
pub open spec fn paid_out(w: World, v: World, who: AccountId, x: int) -> bool {
    forall|b: u32, k: AccountId, d: Kind| #[trigger] (v.cur@)(b, k, d) == (w.cur@)(b, k, d) + at(b == native() && k == who && d is Free, x) - at(b == native() && k == pot() && d is Free, x)
}
pub open spec fn locked(w: World, v: World, who: AccountId, x: int) -> bool { forall|k: AccountId| #[trigger] (v.lock@)(k) == (if k == who { x } else { (w.lock@)(k) }) }
pub open spec fn spec_stake(w: World, v: World, who: AccountId, amount: u128) -> bool {
    let id = w.NextPositionId.v;
    &&& forall|i: u128| #[trigger] w.nft@.contains_key(i) ==> w.nft@[i] != who
    &&& stakeable(w, who, 0, amount as int)
    &&& updated(w) matches Some(s) && id < u128::MAX && v.NextPositionId.v == id + 1 && v.Positions@ == w.Positions@.insert(id, fresh(amount, s.accumulated_reward_per_stake)) && s.total_stake + amount <= m128() && v.Staking.v == (StakingData { total_stake: (s.total_stake + amount) as u128, ..s })
    &&& paid_out(w, v, who, 0) && locked(w, v, who, amount as int) && v.nft@ == w.nft@.insert(id, who)
}
pub open spec fn voted(p: Pos, ap: u128) -> Pos { Position { action_points: ap, ..p } }
pub open spec fn owned(w: World, who: AccountId, id: u128) -> bool { w.nft@.contains_key(id) && w.nft@[id] == who && !(w.ProcessedVotes@)(who) && w.Positions@.contains_key(id) }
pub open spec fn spec_increase(w: World, v: World, who: AccountId, id: u128, amount: u128) -> bool {
    let q = v.Positions@[id];
    &&& owned(w, who, id) && v.NextPositionId == w.NextPositionId && v.nft == w.nft && v.Positions@ == w.Positions@.insert(id, q)
    &&& updated(w) is Some && period(block()) is Some && period(w.Positions@[id].created_at) is Some && ({
        let s = updated(w)->0; let now = period(block())->0 as int; let p = voted(w.Positions@[id], q.action_points); let created = period(p.created_at)->0 as int;
        &&& stakeable(w, who, imin(p.stake + p.accumulated_locked_rewards, m128()), amount as int)
        &&& spec_calc(p, s.accumulated_reward_per_stake@, now, created) is Some && ({
            let c = spec_calc(p, s.accumulated_reward_per_stake@, now, created)->0;
            let l = (p.accumulated_locked_rewards + c.0) as u128;
            let p1 = Position { accumulated_locked_rewards: l, accumulated_unpaid_rewards: c.1 as u128, reward_per_stake: s.accumulated_reward_per_stake, ..p };
            &&& pos_points(p1, now, created) is Some
            &&& ({ let z = spec_slash(pos_points(p1, now, created)->0, p.stake as int, amount as int, sweight() as int, min_slash(c.2) as int);
                z is Some && p.accumulated_locked_rewards + c.0 <= m128() && p.accumulated_slash_points + z->0 <= m128() && p.stake + amount <= m128() && c.0 <= s.pot_reserved_balance && s.total_stake + amount <= m128()
                && q == (Position { stake: (p.stake + amount) as u128, accumulated_slash_points: (p.accumulated_slash_points + z->0) as u128, ..p1 })
                && v.Staking.v == (StakingData { total_stake: (s.total_stake + amount) as u128, accumulated_reward_per_stake: s.accumulated_reward_per_stake, pot_reserved_balance: (s.pot_reserved_balance - c.0) as u128 })
                && paid_out(w, v, who, c.0) && q.stake + q.accumulated_locked_rewards <= m128() && locked(w, v, who, q.stake + q.accumulated_locked_rewards) })
        })
    })
}
pub open spec fn spec_claim(w: World, v: World, who: AccountId, id: u128) -> bool {
    let q = v.Positions@[id];
    &&& owned(w, who, id) && v.NextPositionId == w.NextPositionId && v.nft == w.nft && v.Positions@ == w.Positions@.insert(id, q)
    &&& updated(w) is Some && period(block()) is Some && period(w.Positions@[id].created_at) is Some && ({
        let s = updated(w)->0; let now = period(block())->0 as int; let p = voted(w.Positions@[id], q.action_points); let created = period(p.created_at)->0 as int;
        &&& spec_calc(p, s.accumulated_reward_per_stake@, now, created) is Some && pos_points(p, now, created) is Some && ({
            let c = spec_calc(p, s.accumulated_reward_per_stake@, now, created)->0;
            let slash = pos_points(p, now, created)->0; let back = if ssub(now, created) > unclaimable() { c.1 } else { 0 };
            &&& p.accumulated_slash_points + slash <= m128() && c.0 + back <= s.pot_reserved_balance
            &&& q == (Position { accumulated_locked_rewards: 0, accumulated_unpaid_rewards: (c.1 - back) as u128, accumulated_slash_points: (p.accumulated_slash_points + slash) as u128, reward_per_stake: s.accumulated_reward_per_stake, ..p })
            &&& v.Staking.v == (StakingData { pot_reserved_balance: (s.pot_reserved_balance - c.0 - back) as u128, ..s })
            &&& paid_out(w, v, who, c.0) && locked(w, v, who, p.stake as int)
        })
    })
}
pub open spec fn spec_unstake(w: World, v: World, who: AccountId, id: u128) -> bool {
    &&& owned(w, who, id) && v.NextPositionId == w.NextPositionId && v.nft@ == w.nft@.remove(id) && v.Positions@ == w.Positions@.remove(id) && (w.PositionVotes@)(id).votes.none()
    &&& updated(w) is Some && period(block()) is Some && period(w.Positions@[id].created_at) is Some && ({
        let s = updated(w)->0; let now = period(block())->0 as int; let p = w.Positions@[id]; let created = period(p.created_at)->0 as int;
        &&& spec_calc(p, s.accumulated_reward_per_stake@, now, created) is Some && ({
            let c = spec_calc(p, s.accumulated_reward_per_stake@, now, created)->0;
            &&& p.stake <= s.total_stake && c.0 + c.1 <= s.pot_reserved_balance
            &&& v.Staking.v == (StakingData { total_stake: (s.total_stake - p.stake) as u128, accumulated_reward_per_stake: s.accumulated_reward_per_stake, pot_reserved_balance: (s.pot_reserved_balance - c.0 - c.1) as u128 })
            &&& paid_out(w, v, who, c.0) && locked(w, v, who, 0)
        })
    })
}
// ---------------------------------------------------------------- C44: the pot covers what the stakers are owed
/// what a position may still be paid out of the pot, in 1e-18 units
pub open spec fn owed(p: Pos, acc: int) -> int { (acc - p.reward_per_stake@) * p.stake + p.accumulated_unpaid_rewards * d18() }
pub open spec fn fo(acc: int) -> spec_fn(Pos) -> int { |p: Pos| owed(p, acc) }
pub open spec fn fs() -> spec_fn(Pos) -> int { |p: Pos| p.stake as int }
pub open spec fn term(m: Map<u128, Pos>, i: u128, f: spec_fn(Pos) -> int) -> int { if m.contains_key(i) { f(m[i]) } else { 0 } }
/// the sum of f over the positions numbered below n
pub open spec fn sm(m: Map<u128, Pos>, n: int, f: spec_fn(Pos) -> int) -> int decreases n { if n <= 0 { 0 } else { sm(m, n - 1, f) + term(m, (n - 1) as u128, f) } }
pub open spec fn pot_balance(w: World) -> int { (w.cur@)(native(), pot(), Kind::Free) }
pub open spec fn inv(w: World) -> bool {
    let s = w.Staking.v; let n = w.NextPositionId.v; let acc = s.accumulated_reward_per_stake@;
    &&& forall|i: u128| #[trigger] w.Positions@.contains_key(i) ==> i < n && w.Positions@[i].reward_per_stake@ <= acc
    &&& sm(w.Positions@, n as int, fs()) == s.total_stake
    &&& sm(w.Positions@, n as int, fo(acc)) <= s.pot_reserved_balance * d18()
    &&& s.pot_reserved_balance <= pot_balance(w) <= m128()
}
proof fn lem_sm_insert(m: Map<u128, Pos>, id: u128, q: Pos, n: int, f: spec_fn(Pos) -> int)
    requires 0 <= n <= u128::MAX,
    ensures sm(m.insert(id, q), n, f) == sm(m, n, f) + (if id < n { f(q) - term(m, id, f) } else { 0 }),
    decreases n
{ if n > 0 { lem_sm_insert(m, id, q, n - 1, f); } }
proof fn lem_sm_remove(m: Map<u128, Pos>, id: u128, n: int, f: spec_fn(Pos) -> int)
    requires 0 <= n <= u128::MAX,
    ensures sm(m.remove(id), n, f) == sm(m, n, f) - (if id < n { term(m, id, f) } else { 0 }),
    decreases n
{ if n > 0 { lem_sm_remove(m, id, n - 1, f); } }
/// raising the index by d owes every position d times its stake
proof fn lem_sm_acc(m: Map<u128, Pos>, n: int, a: int, b: int)
    requires 0 <= n <= u128::MAX,
    ensures sm(m, n, fo(b)) == sm(m, n, fo(a)) + (b - a) * sm(m, n, fs()),
    decreases n
{
    if n <= 0 { assert((b - a) * 0 == 0) by (nonlinear_arith); }
    else {
        lem_sm_acc(m, n - 1, a, b);
        let i = (n - 1) as u128; let x = sm(m, n - 1, fs()); let t = term(m, i, fs());
        assert((b - a) * (x + t) == (b - a) * x + (b - a) * t) by (nonlinear_arith);
        if m.contains_key(i) {
            let p = m[i]; let r = p.reward_per_stake@; let k = p.stake as int;
            assert((b - r) * k == (a - r) * k + (b - a) * k) by (nonlinear_arith);
        } else { assert((b - a) * 0 == 0) by (nonlinear_arith); }
    }
}
/// every position is owed something, and no more than all together
proof fn lem_sm_term(m: Map<u128, Pos>, n: int, f: spec_fn(Pos) -> int, id: u128)
    requires 0 <= n <= u128::MAX, id < n, forall|i: u128| #[trigger] m.contains_key(i) ==> f(m[i]) >= 0,
    ensures term(m, id, f) <= sm(m, n, f),
    decreases n
{
    lem_sm_nonneg(m, n - 1, f);
    if id < n - 1 { lem_sm_term(m, n - 1, f, id); }
}
proof fn lem_sm_nonneg(m: Map<u128, Pos>, n: int, f: spec_fn(Pos) -> int)
    requires n <= u128::MAX, forall|i: u128| #[trigger] m.contains_key(i) ==> f(m[i]) >= 0,
    ensures sm(m, n, f) >= 0,
    decreases n
{ if n > 0 { lem_sm_nonneg(m, n - 1, f); } }
proof fn lem_owed_pos(p: Pos, acc: int) requires p.reward_per_stake@ <= acc ensures owed(p, acc) >= 0
{ assert((acc - p.reward_per_stake@) * p.stake >= 0) by (nonlinear_arith) requires p.reward_per_stake@ <= acc; }
/// handing out what the pot got since keeps the books: what everyone is owed grows by no more than the pot did
proof fn lem_update(w: World)
    requires inv(w), updated(w) is Some,
    ensures ({ let s = updated(w)->0; let a = s.accumulated_reward_per_stake@; s.total_stake == w.Staking.v.total_stake && w.Staking.v.accumulated_reward_per_stake@ <= a && w.Staking.v.pot_reserved_balance <= s.pot_reserved_balance <= pot_balance(w)
        && sm(w.Positions@, w.NextPositionId.v as int, fo(a)) <= s.pot_reserved_balance * d18() }),
{
    broadcast use vxf;
    let s = w.Staking.v; let t = s.total_stake as int; let x = pot_balance(w) - s.pot_reserved_balance; let n = w.NextPositionId.v as int; let cur = s.accumulated_reward_per_stake@;
    if t != 0 && x > 0 {
        lem_div(x * d18(), t); lem_div_pos(x * d18(), t);
        assert(x * d18() >= 0) by (nonlinear_arith) requires x > 0;
        let v = (x * d18()) / t; let a = updated(w)->0.accumulated_reward_per_stake@;
        lem_sm_acc(w.Positions@, n, cur, a);
        assert(spec_rps(cur, x, t) is Some);
        assert(a == cur + v);
        assert((a - cur) * t == v * t);
        assert(pot_balance(w) * d18() == s.pot_reserved_balance * d18() + x * d18()) by (nonlinear_arith) requires x == pot_balance(w) - s.pot_reserved_balance;
        if v == 0 { lem_sm_acc(w.Positions@, n, cur, a); }
    }
}
/// a position is paid, and keeps, no more than it is owed
proof fn lem_calc(p: Pos, acc: int, now: int, created: int)
    requires p.reward_per_stake@ <= acc, spec_calc(p, acc, now, created) is Some,
    ensures ({ let c = spec_calc(p, acc, now, created)->0; c.0 >= 0 && c.1 >= 0 && c.0 <= m128() && c.1 <= m128() && (c.0 + c.1) * d18() <= owed(p, acc) && c.0 * d18() + c.1 * d18() <= owed(p, acc) }),
{
    broadcast use ax_payable, vxf;
    let e = (acc - p.reward_per_stake@) * p.stake; let new = e / d18();
    lem_owed_pos(p, acc);
    assert(e >= 0) by (nonlinear_arith) requires e == (acc - p.reward_per_stake@) * p.stake, p.reward_per_stake@ <= acc;
    lem_div(e, d18()); lem_div_pos(e, d18());
    let u = p.accumulated_unpaid_rewards as int; let l = p.accumulated_locked_rewards as int;
    let c = spec_calc(p, acc, now, created)->0;
    if ssub(now, created) > unclaimable() {
        let x = pos_points(p, now, created)->0; let q = payable(x as u128)->0;
        let total = imin(new + l + u, m128());
        assert(0 <= q@ * total <= d18() * total) by (nonlinear_arith) requires 0 <= q@ <= d18(), total >= 0;
        lem_div(q@ * total, d18()); lem_div_pos(q@ * total, d18()); lem_div_mono(q@ * total, d18() * total, d18()); lem_div_is(d18() * total, d18(), total);
        assert(c.0 + c.1 == ssub(total, l));
    }
    assert(c.0 + c.1 <= new + u);
    assert((c.0 + c.1) * d18() <= (new + u) * d18()) by (nonlinear_arith) requires c.0 + c.1 <= new + u;
    assert((new + u) * d18() == new * d18() + u * d18()) by (nonlinear_arith);
    assert((c.0 + c.1) * d18() == c.0 * d18() + c.1 * d18()) by (nonlinear_arith);
}
/// the pot can pay every position all it is owed: no claim fails for want of funds, and no staker is paid with another's rewards
proof fn c44_solvent(w: World, id: u128)
    requires inv(w), updated(w) is Some, w.Positions@.contains_key(id),
    ensures owed(w.Positions@[id], updated(w)->0.accumulated_reward_per_stake@) <= updated(w)->0.pot_reserved_balance * d18(), updated(w)->0.pot_reserved_balance <= pot_balance(w),
{
    lem_update(w); let a = updated(w)->0.accumulated_reward_per_stake@; let n = w.NextPositionId.v as int;
    assert forall|i: u128| #[trigger] w.Positions@.contains_key(i) implies (fo(a))(w.Positions@[i]) >= 0 by { lem_owed_pos(w.Positions@[i], a); }
    lem_sm_term(w.Positions@, n, fo(a), id);
}
proof fn c44_stake(w: World, v: World, who: AccountId, amount: u128)
    requires inv(w), spec_stake(w, v, who, amount),
    ensures inv(v), pot_balance(v) == pot_balance(w),
{
    lem_update(w); let s = updated(w)->0; let a = s.accumulated_reward_per_stake@; let id = w.NextPositionId.v; let q = fresh(amount, s.accumulated_reward_per_stake);
    lem_sm_insert(w.Positions@, id, q, id + 1, fs()); lem_sm_insert(w.Positions@, id, q, id + 1, fo(a));
    assert(owed(q, a) == 0) by (nonlinear_arith) requires owed(q, a) == (a - q.reward_per_stake@) * q.stake + q.accumulated_unpaid_rewards * d18(), q.accumulated_unpaid_rewards == 0, q.reward_per_stake@ == a;
    assert(sm(v.Positions@, id + 1, fo(a)) == sm(w.Positions@, id as int, fo(a)) + term(w.Positions@, id, fo(a)) + owed(q, a) - term(w.Positions@, id, fo(a)));
    assert((v.cur@)(native(), pot(), Kind::Free) == (w.cur@)(native(), pot(), Kind::Free) + at(native() == native() && pot() == who && Kind::Free is Free, 0) - at(native() == native() && pot() == pot() && Kind::Free is Free, 0));
}
/// replacing a position's entry by one owed y keeps the books when what leaves the reserved balance (x) is covered by what it was owed
proof fn lem_swap(w: World, v: World, id: u128, q: Pos, x: int, stake: int)
    requires inv(w), updated(w) is Some, id < w.NextPositionId.v, w.Positions@.contains_key(id), v.Positions@ == w.Positions@.insert(id, q), v.NextPositionId == w.NextPositionId, x >= 0,
        v.Staking.v.accumulated_reward_per_stake == updated(w)->0.accumulated_reward_per_stake, q.reward_per_stake == updated(w)->0.accumulated_reward_per_stake,
        v.Staking.v.pot_reserved_balance == updated(w)->0.pot_reserved_balance - x, q.stake == w.Positions@[id].stake + stake, v.Staking.v.total_stake == updated(w)->0.total_stake + stake,
        q.accumulated_unpaid_rewards * d18() + x * d18() <= owed(w.Positions@[id], updated(w)->0.accumulated_reward_per_stake@),
        pot_balance(w) - x <= pot_balance(v) <= m128(),
    ensures inv(v),
{
    lem_update(w); let s = updated(w)->0; let a = s.accumulated_reward_per_stake@; let n = w.NextPositionId.v as int; let p = w.Positions@[id];
    lem_sm_insert(w.Positions@, id, q, n, fs()); lem_sm_insert(w.Positions@, id, q, n, fo(a));
    assert(owed(q, a) == q.accumulated_unpaid_rewards * d18()) by (nonlinear_arith) requires owed(q, a) == (a - q.reward_per_stake@) * q.stake + q.accumulated_unpaid_rewards * d18(), q.reward_per_stake@ == a;
    assert(v.Staking.v.pot_reserved_balance * d18() == s.pot_reserved_balance * d18() - x * d18()) by (nonlinear_arith) requires v.Staking.v.pot_reserved_balance == s.pot_reserved_balance - x;
}
proof fn lem_paid(w: World, v: World, who: AccountId, x: int)
    requires paid_out(w, v, who, x), x >= 0, pot_balance(w) <= m128(),
    ensures pot_balance(w) - x <= pot_balance(v) <= m128(),
{ assert((v.cur@)(native(), pot(), Kind::Free) == (w.cur@)(native(), pot(), Kind::Free) + at(native() == native() && pot() == who && Kind::Free is Free, x) - at(native() == native() && pot() == pot() && Kind::Free is Free, x)); }
proof fn c44_increase(w: World, v: World, who: AccountId, id: u128, amount: u128)
    requires inv(w), spec_increase(w, v, who, id, amount),
    ensures inv(v),
{
    let s = updated(w)->0; let q = v.Positions@[id]; let p = voted(w.Positions@[id], q.action_points); let now = period(block())->0 as int; let created = period(p.created_at)->0 as int; let a = s.accumulated_reward_per_stake@;
    let c = spec_calc(p, a, now, created)->0;
    lem_update(w); lem_calc(p, a, now, created); lem_paid(w, v, who, c.0);
    lem_swap(w, v, id, q, c.0, amount as int);
}
proof fn c44_claim(w: World, v: World, who: AccountId, id: u128)
    requires inv(w), spec_claim(w, v, who, id),
    ensures inv(v),
{
    let s = updated(w)->0; let q = v.Positions@[id]; let p = voted(w.Positions@[id], q.action_points); let now = period(block())->0 as int; let created = period(p.created_at)->0 as int; let a = s.accumulated_reward_per_stake@;
    let c = spec_calc(p, a, now, created)->0; let back = if ssub(now, created) > unclaimable() { c.1 } else { 0 };
    lem_update(w); lem_calc(p, a, now, created); lem_paid(w, v, who, c.0);
    assert((c.1 - back) * d18() + (c.0 + back) * d18() == c.1 * d18() + c.0 * d18()) by (nonlinear_arith);
    lem_swap(w, v, id, q, c.0 + back, 0);
}
proof fn c44_unstake(w: World, v: World, who: AccountId, id: u128)
    requires inv(w), spec_unstake(w, v, who, id),
    ensures inv(v),
{
    let s = updated(w)->0; let p = w.Positions@[id]; let now = period(block())->0 as int; let created = period(p.created_at)->0 as int; let a = s.accumulated_reward_per_stake@; let n = w.NextPositionId.v as int;
    let c = spec_calc(p, a, now, created)->0; let x = c.0 + c.1;
    lem_update(w); lem_calc(p, a, now, created); lem_paid(w, v, who, c.0);
    lem_sm_remove(w.Positions@, id, n, fs()); lem_sm_remove(w.Positions@, id, n, fo(a));
    assert(v.Staking.v.pot_reserved_balance * d18() == s.pot_reserved_balance * d18() - x * d18()) by (nonlinear_arith) requires v.Staking.v.pot_reserved_balance == s.pot_reserved_balance - x;
}
/// tokens handed to the pot, or anything else that does not touch the staking records and does not take from the pot, keep the books too
proof fn c44_other(w: World, v: World)
    requires inv(w), v.Staking == w.Staking, v.Positions@ == w.Positions@, v.NextPositionId == w.NextPositionId, pot_balance(w) <= pot_balance(v) <= m128(),
    ensures inv(v),
{}
proof fn c44_init(w: World, v: World)
    requires spec_init(w, v), w.NextPositionId.v == 0, w.Positions@ == Map::<u128, Pos>::empty(), pot_balance(w) <= m128(),
    ensures inv(v), pot_balance(w) > 0,
{ assert(v.Staking.v.pot_reserved_balance * d18() >= 0) by (nonlinear_arith); }
}
fn main(){}
