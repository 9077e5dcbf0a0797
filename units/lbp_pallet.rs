//@ root pallets/lbp/src
//@ root traits/src
//@ root math/src
//@ subst lbp.rs|Rounding => PerRounding
//@ include prelude.rs
//@ include fixed.rs
//@ include mathlib.rs
//@ include fx96.rs
//@ include pow2.inc.rs
//@ include storage.inc.rs
//@ dropgen T
//@ dropgen BlockNumber
//@ subst BlockNumber => u32
//@ subst Option<BlockNumber> => MaybeBlock
//@ subst Pool<T::AccountId,BlockNumberFor<T>> => PoolRec
//@ subst BlockNumberFor<T> => u32
//@ subst T::AccountId => AccountId
//@ subst PoolId<T> => AccountId
//@ subst BalanceOf<T> => u128
//@ subst BalanceOf::<T> => u128
//@ subst OriginFor<T> => Origin
//@ subst sp_runtime::DispatchError => DispatchError
//@ subst Self::Error => DispatchError
//@ subst traits/src/lib.rs|Amount => u128
//@ subst dispatch::DispatchResult => DispatchResult
//@ storage PoolData FeeCollectorWithAsset
//@ call AMM::sell => Self::amm_sell
//@ call AMM::buy => Self::amm_buy
//@ call T::AssetPairAccountId::from_assets => w.from_assets
//@ call T::CreatePoolOrigin::ensure_origin => w.ensure_origin
//@ call T::LBPWeightFunction::calculate_weight => weight_at
//@ call T::BlockNumberProvider::current_block_number => w.current_block_number
//@ call T::LockedBalance::get_by_lock => w.locks.get_by_lock
//@ call T::MultiCurrency::set_lock => w.locks.set_lock
//@ call T::MultiCurrency::remove_lock => w.locks.remove_lock
//@ call T::MinPoolLiquidity::get => w.min_pool_liquidity
//@ call T::MaxInRatio::get => w.max_in_ratio
//@ call T::MaxOutRatio::get => w.max_out_ratio
//@ call T::MultiCurrency::free_balance => w.cur.free_balance
//@ call T::MultiCurrency::transfer => w.cur.transfer
//@ call Self::deposit_event => w.deposit_event
//@ call lib.rs|.or => vx_or
//@ known ensure_signed amm_sell amm_buy weight_at
//@ worldfns amm_sell amm_buy
//@ include frame.inc.rs
//@ include currency.inc.rs
pub type Balance = u128;
pub type AssetId = u32;
pub type LBPWeight = u32;
pub type LockIdentifier = [u8; 8];
pub type MaybeBlock = Option<u32>;
pub trait VxOr<T>: Sized { fn vx_or(self, o: Option<T>) -> (r: Option<T>); }
impl<T> VxOr<T> for Option<T> { fn vx_or(self, o: Option<T>) -> (r: Option<T>) ensures r == (if self is Some { self } else { o }) { match self { Some(x) => Some(x), None => o } } }
//@ include fee.inc.rs
//@ include lbp_pow.inc.rs
//@ include lbp_trade.inc.rs
//@ include lbp_weights.inc.rs
//@ item traits/src/router.rs::PoolType derive Clone, Copy, PartialEq, Eq, Structural
//@ item traits/src/router.rs::ExecutorError derive none
//@ item traits/src/lib.rs::AMMTransfer derive none
//@ item pallets/lbp/src/types.rs::AssetPair derive Clone, Copy
//@ item pallets/lbp/src/lib.rs::Error derive none
impl From<Error> for DispatchError { #[verifier::external_body] fn from(e: Error) -> (r: Self) { DispatchError::E } }
//@ item pallets/lbp/src/lib.rs::WeightCurveType derive Clone, Copy, PartialEq, Eq, Structural
//@ item pallets/lbp/src/lib.rs::Pool derive none
impl<A: Copy> Clone for Pool<A> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<A: Copy> Copy for Pool<A> { }
//@ item pallets/lbp/src/lib.rs::Event derive none
pub type Pair = AssetPair;
pub type PoolRec = Pool<AccountId>;
pub type Transfer = AMMTransfer<AccountId, u32, AssetPair, u128>;
/// which collector takes the fees of a pool in which asset
#[verifier::external_body]
pub struct Collectors { o: u8 }
impl Collectors {
    pub uninterp spec fn view(&self) -> Map<(AccountId, u32), bool>;
    pub open spec fn at(&self, k: AccountId, a: u32) -> bool { self@.contains_key((k, a)) && self@[(k, a)] }
    #[verifier::external_body]
    pub fn get(&self, k: AccountId, a: u32) -> (r: bool) ensures r == self.at(k, a) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: AccountId, a: u32) -> (r: bool) ensures r == self@.contains_key((k, a)) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: AccountId, a: u32, v: bool) ensures final(self)@ == old(self)@.insert((k, a), v) { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, k: AccountId, a: u32, v: bool) ensures final(self)@ == old(self)@.insert((k, a), v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: AccountId, a: u32) ensures final(self)@ == old(self)@.remove((k, a)) { unimplemented!() }
}
/// the locks of this pallet on the collected fees, per asset and account
#[verifier::external_body]
pub struct Locks { o: u8 }
pub open spec fn half() -> int { u128::MAX as int / 2 }
impl Locks {
    pub uninterp spec fn view(&self) -> spec_fn(u32, AccountId) -> int;
    /// issuances stay below 2^127
    #[verifier::external_body]
    pub fn get_by_lock(&self, id: LockIdentifier, a: u32, who: AccountId) -> (r: u128) ensures r == (self@)(a, who), r <= half() { unimplemented!() }
    /// a lock of nothing is not set
    #[verifier::external_body]
    pub fn set_lock(&mut self, id: LockIdentifier, a: u32, who: &AccountId, x: u128) -> (r: DispatchResult)
        ensures r is Ok && x > 0 ==> forall|b: u32, k: AccountId| #[trigger] (final(self)@)(b, k) == (if b == a && k == *who { x as int } else { (old(self)@)(b, k) }), r is Ok && x == 0 ==> final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_lock(&mut self, id: LockIdentifier, a: u32, who: &AccountId) -> (r: DispatchResult)
        ensures r is Ok ==> forall|b: u32, k: AccountId| #[trigger] (final(self)@)(b, k) == (if b == a && k == *who { 0 } else { (old(self)@)(b, k) }),
    { unimplemented!() }
}
pub struct World { pub PoolData: OptMap<AccountId, PoolRec>, pub FeeCollectorWithAsset: Collectors, pub cur: Cur, pub locks: Locks }
/// the account of a pool: a hash of the unordered pair of assets, so the same for both orders and different for different pairs
pub uninterp spec fn acc_of(lo: u32, hi: u32) -> AccountId;
pub open spec fn pool(a: u32, b: u32) -> AccountId { acc_of(if a <= b { a } else { b }, if a <= b { b } else { a }) }
pub uninterp spec fn min_pool() -> u128;
pub uninterp spec fn max_in() -> u128;
pub uninterp spec fn max_out() -> u128;
pub uninterp spec fn may_create(o: Origin) -> bool;
/// the block the call is executed in
pub uninterp spec fn now() -> u32;
impl World {
    #[verifier::external_body]
    pub fn from_assets(&self, a: u32, b: u32, id: &str) -> (r: AccountId) ensures r == pool(a, b) { unimplemented!() }
    #[verifier::external_body]
    pub fn ensure_origin(&self, o: Origin) -> (r: DispatchResult) ensures r is Ok <==> may_create(o) { unimplemented!() }
    #[verifier::external_body]
    pub fn current_block_number(&self) -> (r: u32) ensures r == now() { unimplemented!() }
    #[verifier::external_body]
    pub fn min_pool_liquidity(&self) -> (r: u128) ensures r == min_pool() { unimplemented!() }
    #[verifier::external_body]
    pub fn max_in_ratio(&self) -> (r: u128) ensures r == max_in() { unimplemented!() }
    #[verifier::external_body]
    pub fn max_out_ratio(&self) -> (r: u128) ensures r == max_out() { unimplemented!() }
    pub fn deposit_event(&self, e: Event) { }
}
pub open spec fn signed(o: Origin) -> Option<AccountId> { match signer(o) { Some(Some(a)) => Some(a), _ => None } }
pub open spec fn free(w: World, a: u32, k: AccountId) -> int { (w.cur@)(a, k, Kind::Free) }
/// a free balance, with issuances below 2^127
pub broadcast axiom fn ax_free(c: Cur, a: u32, k: AccountId) ensures #![trigger (c@)(a, k, Kind::Free)] 0 <= (c@)(a, k, Kind::Free) <= half();
/// a lock is on a u128
pub broadcast axiom fn ax_lock(l: Locks, a: u32, k: AccountId) ensures #![trigger (l@)(a, k)] 0 <= (l@)(a, k);
/// accounts of different pools differ: a collision of the hash is excluded
pub broadcast axiom fn ax_pool(a: u32, b: u32, c: u32, d: u32) ensures #![trigger pool(a, b), pool(c, d)] pool(a, b) == pool(c, d) ==> (a == c && b == d) || (a == d && b == c);
pub open spec fn okx<E>(r: Result<u128, E>) -> Option<int> { match r { Ok(v) => Some(v as int), Err(_) => None } }
pub open spec fn ok2w<E>(r: Result<(u32, u32), E>) -> Option<(int, int)> { match r { Ok(v) => Some((v.0 as int, v.1 as int)), Err(_) => None } }
pub open spec fn blk(x: Option<u32>) -> int { match x { Some(b) => b as int, None => 0 } }
pub open spec fn full() -> int { 100_000_000 }
pub open spec fn weight_a(d: PoolRec) -> Option<int> { spec_weight(blk(d.start), blk(d.end), d.initial_weight as int, d.final_weight as int, now() as int) }
pub open spec fn sub0(a: int, b: int) -> int { if a >= b { a - b } else { 0 } }
/// the weights of the incoming and the outgoing asset now
pub open spec fn weights(d: PoolRec, a: u32) -> Option<(int, int)> {
    match weight_a(d) { None => None, Some(x) => Some(if a == d.assets.0 { (x, sub0(full(), x)) } else { (sub0(full(), x), x) }) }
}
pub open spec fn runs(d: PoolRec) -> bool { match (d.start, d.end) { (Some(s), Some(e)) => s <= now() <= e, _ => false } }
pub open spec fn started(d: PoolRec) -> bool { match d.start { Some(s) => s <= now(), None => false } }
/// what a pool's data must satisfy: a window in the future of less than two weeks, or none, weights from 2% up, and a fee that is a fraction
pub open spec fn valid(d: PoolRec) -> bool {
    &&& match (d.start, d.end) { (Some(s), Some(e)) => now() < s < e && e - s < 201600, (None, None) => true, _ => false }
    &&& full() / 50 <= d.initial_weight < full() && full() / 50 <= d.final_weight < full() && d.fee.1 != 0
}
pub open spec fn collected(w: World, d: PoolRec) -> int { (w.locks@)(d.assets.0, d.fee_collector) }
/// a fifth until the target is repaid
pub open spec fn rate(w: World, d: PoolRec) -> (u32, u32) { if collected(w, d) < d.repay_target { (2u32, 10u32) } else { d.fee } }
pub open spec fn fee_for(w: World, d: PoolRec, x: int) -> Option<int> { spec_fee(x, rate(w, d).0 as int, rate(w, d).1 as int) }
pub open spec fn pd(w: World, p: Pair) -> PoolRec { w.PoolData@[pool(p.asset_in, p.asset_out)] }
pub open spec fn is_pool(w: World, p: Pair) -> bool { w.PoolData@.contains_key(pool(p.asset_in, p.asset_out)) }
pub open spec fn res(w: World, p: Pair, a: u32) -> int { free(w, a, pool(p.asset_in, p.asset_out)) }
pub open spec fn out_of(w: World, p: Pair, x: int) -> Option<int> { match weights(pd(w, p), p.asset_in) { None => None, Some(s) => sell(res(w, p, p.asset_in), res(w, p, p.asset_out), s.0, s.1, x) } }
pub open spec fn in_of(w: World, p: Pair, y: int) -> Option<int> { match weights(pd(w, p), p.asset_in) { None => None, Some(s) => buy(res(w, p, p.asset_in), res(w, p, p.asset_out), s.0, s.1, y) } }
/// the fee is in the accumulated asset, paid on top of what the pool gets or out of what it pays
pub open spec fn on_in(w: World, p: Pair) -> bool { pd(w, p).assets.0 == p.asset_in }
pub open spec fn sell_fee(w: World, p: Pair, x: int) -> Option<int> { if on_in(w, p) { fee_for(w, pd(w, p), x) } else { fee_for(w, pd(w, p), out_of(w, p, x)->0) } }
/// what the seller gets
pub open spec fn got(w: World, p: Pair, x: int) -> int { if on_in(w, p) { out_of(w, p, x)->0 } else { out_of(w, p, x)->0 - sell_fee(w, p, x)->0 } }
pub open spec fn sell_ok(w: World, who: AccountId, p: Pair, x: int, min: int) -> bool {
    let y = out_of(w, p, x)->0; let f = sell_fee(w, p, x);
    &&& x > 0 && free(w, p.asset_in, who) >= x && is_pool(w, p) && runs(pd(w, p))
    &&& max_in() > 0 && max_out() > 0 && x <= res(w, p, p.asset_in) / (max_in() as int)
    &&& out_of(w, p, x) is Some && y <= res(w, p, p.asset_out) / (max_out() as int)
    &&& f is Some && f->0 <= (if on_in(w, p) { x } else { y }) && got(w, p, x) >= min
}
/// what a purchase of y takes out of the pool, and its fee
pub open spec fn on_out(w: World, p: Pair) -> bool { pd(w, p).assets.0 == p.asset_out }
pub open spec fn taken(w: World, p: Pair, y: int) -> int { if on_out(w, p) { y + fee_for(w, pd(w, p), y)->0 } else { y } }
pub open spec fn buy_fee(w: World, p: Pair, y: int) -> Option<int> { if on_out(w, p) { fee_for(w, pd(w, p), y) } else { fee_for(w, pd(w, p), in_of(w, p, y)->0) } }
pub open spec fn cost(w: World, p: Pair, y: int) -> Option<int> { in_of(w, p, taken(w, p, y)) }
pub open spec fn buy_ok(w: World, who: AccountId, p: Pair, y: int, max: int) -> bool {
    let x = cost(w, p, y)->0; let f = buy_fee(w, p, y);
    &&& y > 0 && is_pool(w, p) && runs(pd(w, p))
    &&& max_in() > 0 && max_out() > 0 && y <= res(w, p, p.asset_out) / (max_out() as int)
    &&& f is Some && taken(w, p, y) <= u128::MAX && cost(w, p, y) is Some && x <= res(w, p, p.asset_in) / (max_in() as int)
    &&& (!on_out(w, p) ==> f->0 <= x) && free(w, p.asset_in, who) >= x && max >= x
}
/// what a trade moves: x of asset_in to the pool, y of asset_out to the trader, the fee to the collector from the trader or the pool
pub open spec fn moves(b: u32, k: AccountId, d: Kind, a: u32, from: AccountId, to: AccountId, x: int) -> int { at(b == a && k == to && d is Free, x) - at(b == a && k == from && d is Free, x) }
pub open spec fn traded(w: World, p: Pair, who: AccountId, x: int, y: int, fa: u32, f: int, b: u32, k: AccountId, d: Kind) -> int {
    let q = pool(p.asset_in, p.asset_out);
    moves(b, k, d, p.asset_in, who, q, x) + moves(b, k, d, p.asset_out, q, who, y) + moves(b, k, d, fa, if p.asset_in == fa { who } else { q }, pd(w, p).fee_collector, f)
}
pub open spec fn trade_done(w: World, v: World, p: Pair, who: AccountId, x: int, y: int, fa: u32, f: int) -> bool {
    &&& is_pool(w, p) && v.PoolData == w.PoolData && v.FeeCollectorWithAsset == w.FeeCollectorWithAsset && v.cur.iss() == w.cur.iss()
    &&& forall|b: u32, k: AccountId, d: Kind| #[trigger] (v.cur@)(b, k, d) == (w.cur@)(b, k, d) + traded(w, p, who, x, y, fa, f, b, k, d)
    &&& forall|b: u32, k: AccountId| #[trigger] (v.locks@)(b, k) == (if b == fa && k == pd(w, p).fee_collector && collected(w, pd(w, p)) + f > 0 { collected(w, pd(w, p)) + f } else { (w.locks@)(b, k) })
}
pub open spec fn sold(w: World, v: World, who: AccountId, p: Pair, x: int, min: int) -> bool {
    let f = sell_fee(w, p, x)->0;
    sell_ok(w, who, p, x, min) && trade_done(w, v, p, who, if on_in(w, p) { x - f } else { x }, got(w, p, x), pd(w, p).assets.0, f)
}
pub open spec fn bought(w: World, v: World, who: AccountId, p: Pair, y: int, max: int) -> bool {
    let f = buy_fee(w, p, y)->0; let x = cost(w, p, y)->0;
    buy_ok(w, who, p, y, max) && trade_done(w, v, p, who, if on_out(w, p) { x } else { x - f }, y, pd(w, p).assets.0, f)
}
//@ fn pallets/lbp/src/lib.rs::LBPWeightFunction::calculate_weight(weight_curve, start, end, initial_weight, final_weight, at)
//@ rename weight_at
//@ meta noreplay=1
//@ ensures into_(match r { Some(x) => Some(x as u128), None => None }) == spec_weight(start as int, end as int, initial_weight as int, final_weight as int, at as int)
//@ end
pub struct Pallet { }
impl Pallet {
//@ fn pallets/lbp/src/lib.rs::Pallet::repay_fee()
//@ meta noreplay=1
//@ ensures r == (2u32, 10u32)
//@ end
//@ fn pallets/lbp/src/lib.rs::Pallet::pair_account_from_assets(asset_a, asset_b)
//@ world
//@ ensures *final(w) == *old(w), r == pool(asset_a, asset_b),
//@ end
//@ fn pallets/lbp/src/lib.rs::Pallet::get_pair_id(assets)
//@ world
//@ ensures *final(w) == *old(w), r == pool(assets.asset_in, assets.asset_out),
//@ end
//@ fn pallets/lbp/src/lib.rs::Pallet::exists(assets)
//@ world
//@ ensures *final(w) == *old(w), r == is_pool(*old(w), assets),
//@ end
//@ fn pallets/lbp/src/lib.rs::Pallet::calculate_weights(pool_data, at)
//@ world
//@ requires at == now()
//@ ensures *final(w) == *old(w), ok2w(r) == weights(*pool_data, pool_data.assets.0),
//@ end
//@ fn pallets/lbp/src/lib.rs::Pallet::get_sorted_weight(asset_in, now, pool_data)
//@ world
//@ requires now == crate::now()
//@ ensures *final(w) == *old(w), ok2w(r) == weights(*pool_data, asset_in),
//@ end
//@ fn pallets/lbp/src/lib.rs::Pallet::validate_pool_data(pool_data)
//@ world
//@ ensures *final(w) == *old(w), r is Ok <==> valid(*pool_data),
//@ end
//@ fn pallets/lbp/src/lib.rs::Pallet::is_pool_running(pool_data)
//@ world
//@ ensures *final(w) == *old(w), r == runs(*pool_data),
//@ end
//@ fn pallets/lbp/src/lib.rs::Pallet::has_pool_started(pool_data)
//@ world
//@ ensures *final(w) == *old(w), r == started(*pool_data),
//@ end
//@ fn pallets/lbp/src/lib.rs::Pallet::collected_fees(pool)
//@ world
//@ ensures *final(w) == *old(w), r == collected(*old(w), *pool), r <= half(),
//@ end
//@ fn pallets/lbp/src/lib.rs::Pallet::is_repay_fee_applied(pool)
//@ world
//@ ensures *final(w) == *old(w), r == (collected(*old(w), *pool) < pool.repay_target),
//@ end
//@ fn pallets/lbp/src/lib.rs::Pallet::calculate_fees(pool, amount)
//@ world
//@ ensures *final(w) == *old(w), okx(r) == fee_for(*old(w), *pool, amount as int),
//@ end
//@ fn pallets/lbp/src/lib.rs::Pallet::validate_sell(who, assets, amount, min_bought, discount)
//@ world
//@ ensures *final(w) == *old(w), r is Ok <==> sell_ok(*old(w), *who, assets, amount as int, min_bought as int),
//@ r matches Ok(t) ==> t.origin == *who && t.assets == assets && t.fee.0 == pd(*old(w), assets).assets.0 && t.fee.1 == sell_fee(*old(w), assets, amount as int)->0
//@ && t.amount == (if on_in(*old(w), assets) { amount - t.fee.1 } else { amount as int }) && t.amount_b == got(*old(w), assets, amount as int) && t.fee.1 <= half(),
//@ pre broadcast use ax_free; proof { lem_caps(*w, assets); }
//@ end
//@ fn pallets/lbp/src/lib.rs::Pallet::validate_buy(who, assets, amount, max_sold, discount)
//@ world
//@ ensures *final(w) == *old(w), r is Ok <==> buy_ok(*old(w), *who, assets, amount as int, max_sold as int),
//@ r matches Ok(t) ==> t.origin == *who && t.assets == assets && t.fee.0 == pd(*old(w), assets).assets.0 && t.fee.1 == buy_fee(*old(w), assets, amount as int)->0
//@ && t.amount == (if on_out(*old(w), assets) { cost(*old(w), assets, amount as int)->0 } else { cost(*old(w), assets, amount as int)->0 - t.fee.1 }) && t.amount_b == amount && t.fee.1 <= half(),
//@ pre broadcast use ax_free; proof { lem_caps(*w, assets); }
//@ end
//@ fn pallets/lbp/src/lib.rs::Pallet::execute_trade(transfer)
//@ world
//@ requires transfer.fee.1 <= half(), old(w).PoolData@.contains_key(pool(transfer.assets.asset_in, transfer.assets.asset_out)) ==> transfer.fee.0 == pd(*old(w), transfer.assets).assets.0
//@ ensures r is Ok ==> trade_done(*old(w), *final(w), transfer.assets, transfer.origin, transfer.amount as int, transfer.amount_b as int, transfer.fee.0, transfer.fee.1 as int),
//@ end
//@ fn pallets/lbp/src/lib.rs::Pallet::execute_sell(transfer)
//@ world
//@ requires transfer.fee.1 <= half(), old(w).PoolData@.contains_key(pool(transfer.assets.asset_in, transfer.assets.asset_out)) ==> transfer.fee.0 == pd(*old(w), transfer.assets).assets.0
//@ ensures r is Ok ==> trade_done(*old(w), *final(w), transfer.assets, transfer.origin, transfer.amount as int, transfer.amount_b as int, transfer.fee.0, transfer.fee.1 as int),
//@ end
//@ fn pallets/lbp/src/lib.rs::Pallet::execute_buy(transfer)
//@ world
//@ requires transfer.fee.1 <= half(), old(w).PoolData@.contains_key(pool(transfer.assets.asset_in, transfer.assets.asset_out)) ==> transfer.fee.0 == pd(*old(w), transfer.assets).assets.0
//@ ensures r is Ok ==> trade_done(*old(w), *final(w), transfer.assets, transfer.origin, transfer.amount as int, transfer.amount_b as int, transfer.fee.0, transfer.fee.1 as int),
//@ end
//@ fn traits/src/lib.rs::AMM::sell(origin, assets, amount, min_bought, discount)
//@ world
//@ rename amm_sell
//@ ensures r is Ok ==> sold(*old(w), *final(w), *origin, assets, amount as int, min_bought as int),
//@ end
//@ fn traits/src/lib.rs::AMM::buy(origin, assets, amount, max_limit, discount)
//@ world
//@ rename amm_buy
//@ ensures r is Ok ==> bought(*old(w), *final(w), *origin, assets, amount as int, max_limit as int),
//@ end
//@ fn pallets/lbp/src/lib.rs::Pallet::sell(origin, asset_in, asset_out, amount, max_limit)
//@ world
//@ ensures r is Ok ==> signed(origin) is Some && sold(*old(w), *final(w), signed(origin)->0, AssetPair { asset_in, asset_out }, amount as int, max_limit as int),
//@ end
//@ fn pallets/lbp/src/lib.rs::Pallet::buy(origin, asset_out, asset_in, amount, max_limit)
//@ world
//@ ensures r is Ok ==> signed(origin) is Some && bought(*old(w), *final(w), signed(origin)->0, AssetPair { asset_in, asset_out }, amount as int, max_limit as int),
//@ end
//@ fn pallets/lbp/src/lib.rs::Pallet::create_pool(origin, pool_owner, asset_a, asset_a_amount, asset_b, asset_b_amount, initial_weight, final_weight, weight_curve, fee, fee_collector, repay_target)
//@ world
//@ ensures r is Ok ==> may_create(origin) && created(*old(w), *final(w), pool_owner, asset_a, asset_a_amount as int, asset_b, asset_b_amount as int,
//@ Pool { owner: pool_owner, start: None, end: None, assets: (asset_a, asset_b), initial_weight, final_weight, weight_curve, fee, fee_collector, repay_target }),
//@ end
//@ fn pallets/lbp/src/lib.rs::Pallet::update_pool_data(origin, pool_id, pool_owner, start, end, initial_weight, final_weight, fee, fee_collector, repay_target)
//@ world
//@ ensures r is Ok ==> signed(origin) is Some && updated(*old(w), *final(w), signed(origin)->0, pool_id, pool_owner, start, end, initial_weight, final_weight, fee, fee_collector, repay_target),
//@ end
//@ fn pallets/lbp/src/lib.rs::Pallet::add_liquidity(origin, amount_a, amount_b)
//@ world
//@ ensures r is Ok ==> signed(origin) is Some && added(*old(w), *final(w), signed(origin)->0, amount_a.0, amount_a.1 as int, amount_b.0, amount_b.1 as int),
//@ end
//@ fn pallets/lbp/src/lib.rs::Pallet::remove_liquidity(origin, pool_id)
//@ world
//@ ensures r is Ok ==> signed(origin) is Some && removed(*old(w), *final(w), signed(origin)->0, pool_id),
//@ end
//@ fn pallets/lbp/src/trade_execution.rs::Pallet::calculate_sell(pool_type, asset_in, asset_out, amount_in)
//@ world
//@ ensures *final(w) == *old(w), okx(r) == quote_sell(*old(w), pool_type, AssetPair { asset_in, asset_out }, amount_in as int),
//@ end
//@ fn pallets/lbp/src/trade_execution.rs::Pallet::calculate_buy(pool_type, asset_in, asset_out, amount_out)
//@ world
//@ ensures *final(w) == *old(w), okx(r) == quote_buy(*old(w), pool_type, AssetPair { asset_in, asset_out }, amount_out as int),
//@ end
}
/// a pool's share of its reserves is not above them
proof fn lem_caps(w: World, p: Pair)
    ensures max_in() > 0 ==> res(w, p, p.asset_in) / (max_in() as int) <= res(w, p, p.asset_in) <= half(), max_out() > 0 ==> res(w, p, p.asset_out) / (max_out() as int) <= res(w, p, p.asset_out) <= half(),
        forall|y: int| y > res(w, p, p.asset_out) ==> #[trigger] in_of(w, p, y) is None,
{
    ax_free(w.cur, p.asset_in, pool(p.asset_in, p.asset_out)); ax_free(w.cur, p.asset_out, pool(p.asset_in, p.asset_out));
    if max_in() > 0 { lem_cap(res(w, p, p.asset_in), max_in() as int); }
    if max_out() > 0 { lem_cap(res(w, p, p.asset_out), max_out() as int); }
}
proof fn lem_cap(a: int, m: int) requires a >= 0, m > 0 ensures a / m <= a, (a / m) * m <= a, a / m >= 0
{ lem_div(a, m); lem_div_pos(a, m); let q = a / m; assert(q <= a) by (nonlinear_arith) requires q * m <= a, q >= 0, m > 0; }
pub open spec fn quote_sell(w: World, t: PoolType<u32>, p: Pair, x: int) -> Option<int> {
    if !(t is LBP) || !is_pool(w, p) || out_of(w, p, x) is None { None } else if on_in(w, p) { out_of(w, p, x) } else if sell_fee(w, p, x) is None || got(w, p, x) < 0 { None } else { Some(got(w, p, x)) }
}
pub open spec fn quote_buy(w: World, t: PoolType<u32>, p: Pair, y: int) -> Option<int> {
    if !(t is LBP) || !is_pool(w, p) || weights(pd(w, p), p.asset_in) is None { None } else if on_out(w, p) && (buy_fee(w, p, y) is None || taken(w, p, y) > u128::MAX) { None } else { cost(w, p, y) }
}
pub open spec fn put2(w: World, v: World, q: AccountId, who: AccountId, a: u32, x: int, b: u32, y: int) -> bool {
    &&& forall|c: u32, k: AccountId, d: Kind| #[trigger] (v.cur@)(c, k, d) == (w.cur@)(c, k, d) + moves(c, k, d, a, who, q, x) + moves(c, k, d, b, who, q, y)
    &&& v.cur.iss() == w.cur.iss()
}
pub open spec fn created(w: World, v: World, owner: AccountId, a: u32, x: int, b: u32, y: int, d: PoolRec) -> bool {
    let q = pool(a, b);
    &&& x >= min_pool() && y >= min_pool() && a != b && !w.PoolData@.contains_key(q) && !w.FeeCollectorWithAsset@.contains_key((d.fee_collector, a)) && valid(d)
    &&& v.PoolData@ == w.PoolData@.insert(q, d) && v.FeeCollectorWithAsset@ == w.FeeCollectorWithAsset@.insert((d.fee_collector, a), true) && v.locks == w.locks && put2(w, v, q, owner, a, x, b, y)
}
pub open spec fn or_<X>(n: Option<X>, o: X) -> X { match n { Some(x) => x, None => o } }
pub open spec fn updated(w: World, v: World, who: AccountId, q: AccountId, owner: Option<AccountId>, start: Option<u32>, end: Option<u32>, iw: Option<u32>, fw: Option<u32>, fee: Option<(u32, u32)>, fc: Option<AccountId>, target: Option<u128>) -> bool {
    let d = w.PoolData@[q]; let e = v.PoolData@[q];
    &&& w.PoolData@.contains_key(q) && who == d.owner && !started(d) && valid(e) && v.PoolData@ == w.PoolData@.insert(q, e) && v.cur == w.cur && v.locks == w.locks
    &&& e.owner == or_(owner, d.owner) && e.start == (if start is Some { start } else { d.start }) && e.end == (if end is Some { end } else { d.end }) && e.assets == d.assets
    &&& e.initial_weight == or_(iw, d.initial_weight) && e.final_weight == or_(fw, d.final_weight) && e.fee == or_(fee, d.fee) && e.fee_collector == or_(fc, d.fee_collector) && e.repay_target == or_(target, d.repay_target)
    &&& (match fc { None => v.FeeCollectorWithAsset == w.FeeCollectorWithAsset, Some(k) => !w.FeeCollectorWithAsset.at(k, d.assets.0) && v.FeeCollectorWithAsset@ == w.FeeCollectorWithAsset@.remove((d.fee_collector, d.assets.0)).insert((k, d.assets.0), true) })
}
pub open spec fn added(w: World, v: World, who: AccountId, a: u32, x: int, b: u32, y: int) -> bool {
    let q = pool(a, b);
    &&& w.PoolData@.contains_key(q) && who == w.PoolData@[q].owner && (x > 0 || y > 0)
    &&& v.PoolData == w.PoolData && v.FeeCollectorWithAsset == w.FeeCollectorWithAsset && v.locks == w.locks && put2(w, v, q, who, a, x, b, y)
}
pub open spec fn removed(w: World, v: World, who: AccountId, q: AccountId) -> bool {
    let d = w.PoolData@[q]; let (a, b) = d.assets;
    &&& w.PoolData@.contains_key(q) && who == d.owner && !runs(d)
    &&& v.PoolData@ == w.PoolData@.remove(q) && v.FeeCollectorWithAsset@ == w.FeeCollectorWithAsset@.remove((d.fee_collector, a))
    &&& put2(w, v, who, q, a, free(w, a, q), b, free(w, b, q))
    &&& forall|c: u32, k: AccountId| #[trigger] (v.locks@)(c, k) == (if c == a && k == d.fee_collector && collected(w, d) > 0 { 0 } else { (w.locks@)(c, k) })
}
// ---------------------------------------------------------------- property lemmas
/// a sale costs exactly the amount, pays at least the limit and what is quoted; the fee goes to the collector and is locked there; the pool is not emptied and nobody else's holdings change
proof fn c49_sell(w: World, v: World, who: AccountId, p: Pair, x: int, min: int)
    requires sold(w, v, who, p, x, min), p.asset_in != p.asset_out, who != pool(p.asset_in, p.asset_out), x <= u128::MAX,
        wf(w), pd(w, p).fee_collector != who, pd(w, p).fee_collector != pool(p.asset_in, p.asset_out), 0 <= min,
    ensures ({ let q = pool(p.asset_in, p.asset_out); let k = pd(w, p).fee_collector; let fa = pd(w, p).assets.0; let f = sell_fee(w, p, x)->0; let y = free(v, p.asset_out, who) - free(w, p.asset_out, who);
        &&& runs(pd(w, p)) && free(v, p.asset_in, who) == free(w, p.asset_in, who) - x && y >= min && quote_sell(w, PoolType::LBP, p, x) == Some(y)
        &&& free(v, fa, k) == free(w, fa, k) + f && 0 <= f && (f > 0 ==> (v.locks@)(fa, k) == (w.locks@)(fa, k) + f)
        &&& free(v, p.asset_in, q) + (if on_in(w, p) { f } else { 0 }) == free(w, p.asset_in, q) + x
        &&& free(w, p.asset_out, q) - free(v, p.asset_out, q) == out_of(w, p, x)->0
        &&& free(w, p.asset_out, q) > 0 ==> free(v, p.asset_out, q) > 0
        &&& forall|b: u32, j: AccountId| j != q && j != who && j != k ==> #[trigger] (v.cur@)(b, j, Kind::Free) == (w.cur@)(b, j, Kind::Free) }),
{
    let a = res(w, p, p.asset_in); let b = res(w, p, p.asset_out);
    ax_free(w.cur, p.asset_in, pool(p.asset_in, p.asset_out)); ax_free(w.cur, p.asset_out, pool(p.asset_in, p.asset_out));
    lem_cap(a, max_in() as int);
    let s = weights(pd(w, p), p.asset_in)->0;
    broadcast use ax_lock, ax_pool; assert(shape(pool(p.asset_in, p.asset_out), pd(w, p)));
    lem_weights(pd(w, p), p.asset_in);
    c38_sell(a, b, s.0, s.1, x);
    lem_fee_pos(w, pd(w, p), x); lem_fee_pos(w, pd(w, p), out_of(w, p, x)->0);
}
proof fn c49_buy(w: World, v: World, who: AccountId, p: Pair, y: int, max: int)
    requires bought(w, v, who, p, y, max), p.asset_in != p.asset_out, who != pool(p.asset_in, p.asset_out), max <= u128::MAX,
        wf(w), pd(w, p).fee_collector != who, pd(w, p).fee_collector != pool(p.asset_in, p.asset_out),
    ensures ({ let q = pool(p.asset_in, p.asset_out); let k = pd(w, p).fee_collector; let fa = pd(w, p).assets.0; let f = buy_fee(w, p, y)->0; let x = free(w, p.asset_in, who) - free(v, p.asset_in, who);
        &&& runs(pd(w, p)) && free(v, p.asset_out, who) == free(w, p.asset_out, who) + y && 1 <= x <= max && quote_buy(w, PoolType::LBP, p, y) == Some(x)
        &&& free(v, fa, k) == free(w, fa, k) + f && 0 <= f && (f > 0 ==> (v.locks@)(fa, k) == (w.locks@)(fa, k) + f)
        &&& free(w, p.asset_out, q) - free(v, p.asset_out, q) == taken(w, p, y) && free(v, p.asset_out, q) > 0
        &&& forall|b: u32, j: AccountId| j != q && j != who && j != k ==> #[trigger] (v.cur@)(b, j, Kind::Free) == (w.cur@)(b, j, Kind::Free) }),
{
    let a = res(w, p, p.asset_in); let b = res(w, p, p.asset_out);
    ax_free(w.cur, p.asset_in, pool(p.asset_in, p.asset_out)); ax_free(w.cur, p.asset_out, pool(p.asset_in, p.asset_out));
    lem_cap(b, max_out() as int);
    let s = weights(pd(w, p), p.asset_in)->0;
    broadcast use ax_lock, ax_pool; assert(shape(pool(p.asset_in, p.asset_out), pd(w, p)));
    lem_weights(pd(w, p), p.asset_in);
    lem_fee_pos(w, pd(w, p), y);
    c38_buy(a, b, s.0, s.1, taken(w, p, y));
    lem_fee_pos(w, pd(w, p), cost(w, p, y)->0);
}
proof fn lem_fee_pos(w: World, d: PoolRec, x: int) ensures 0 <= x && fee_for(w, d, x) is Some ==> fee_for(w, d, x)->0 >= 0
{ let n = rate(w, d).0 as int; let m = rate(w, d).1 as int; if m > 0 && 0 <= x && fee_for(w, d, x) is Some { c03_bounds(x, n, m); } }
proof fn lem_weights(d: PoolRec, a: u32) ensures weights(d, a) matches Some(s) ==> 0 <= s.0 <= u32::MAX && 0 <= s.1 <= u32::MAX
{ if weight_a(d) is Some { lem_lin(blk(d.start), blk(d.end), d.initial_weight as int, d.final_weight as int, now() as int); } }
/// while a pool runs, its two weights add up to the whole, and that of the accumulated asset stays between those the pool was set up with
proof fn c49_weights(w: World, q: AccountId, a: u32)
    requires wf(w), w.PoolData@.contains_key(q), runs(w.PoolData@[q]),
    ensures ({ let d = w.PoolData@[q]; weights(d, a) matches Some(s) && s.0 + s.1 == full() && s.0 >= 1 && s.1 >= 1 && (if a == d.assets.0 { s.0 } else { s.1 }) >= full() / 50
        && imin(d.initial_weight as int, d.final_weight as int) <= (if a == d.assets.0 { s.0 } else { s.1 }) <= imax(d.initial_weight as int, d.final_weight as int) }),
{ let d = w.PoolData@[q]; assert(shape(q, d)); c05_range(blk(d.start), blk(d.end), d.initial_weight as int, d.final_weight as int, now() as int); }
/// each pool has its collector registered for its accumulated asset, and no two pools the same
pub open spec fn shape(q: AccountId, d: PoolRec) -> bool {
    &&& pool(d.assets.0, d.assets.1) == q && d.assets.0 != d.assets.1 && d.fee.1 != 0
    &&& full() / 50 <= d.initial_weight < full() && full() / 50 <= d.final_weight < full()
    &&& match (d.start, d.end) { (Some(s), Some(e)) => s < e && e - s < 201600, (None, None) => true, _ => false }
}
pub open spec fn wf(w: World) -> bool {
    &&& forall|q: AccountId| #[trigger] w.PoolData@.contains_key(q) ==> shape(q, w.PoolData@[q])
    &&& forall|q: AccountId| #[trigger] w.PoolData@.contains_key(q) ==> w.FeeCollectorWithAsset.at(w.PoolData@[q].fee_collector, w.PoolData@[q].assets.0)
    &&& forall|q: AccountId, r: AccountId| #[trigger] w.PoolData@.contains_key(q) && #[trigger] w.PoolData@.contains_key(r) && q != r ==> (w.PoolData@[q].fee_collector, w.PoolData@[q].assets.0) != (w.PoolData@[r].fee_collector, w.PoolData@[r].assets.0)
}
proof fn c49_created(w: World, v: World, owner: AccountId, a: u32, x: int, b: u32, y: int, d: PoolRec) requires wf(w), created(w, v, owner, a, x, b, y, d), d.assets == (a, b) ensures wf(v) { }
proof fn c49_updated(w: World, v: World, who: AccountId, q: AccountId, owner: Option<AccountId>, start: Option<u32>, end: Option<u32>, iw: Option<u32>, fw: Option<u32>, fee: Option<(u32, u32)>, fc: Option<AccountId>, target: Option<u128>)
    requires wf(w), updated(w, v, who, q, owner, start, end, iw, fw, fee, fc, target) ensures wf(v) { }
proof fn c49_removed(w: World, v: World, who: AccountId, q: AccountId)
    requires wf(w), removed(w, v, who, q), who != q
    ensures wf(v), !v.PoolData@.contains_key(q), free(v, w.PoolData@[q].assets.0, q) == 0, free(v, w.PoolData@[q].assets.1, q) == 0,
        free(v, w.PoolData@[q].assets.0, who) == free(w, w.PoolData@[q].assets.0, who) + free(w, w.PoolData@[q].assets.0, q), free(v, w.PoolData@[q].assets.1, who) == free(w, w.PoolData@[q].assets.1, who) + free(w, w.PoolData@[q].assets.1, q),
{ assert(shape(q, w.PoolData@[q])); }
proof fn c49_traded(w: World, v: World, p: Pair, who: AccountId, x: int, y: int, fa: u32, f: int) requires wf(w), trade_done(w, v, p, who, x, y, fa, f) ensures wf(v) { }
}
fn main(){}
