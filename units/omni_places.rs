//@ root pallets/omnipool/src
//@ root math/src
//@ include prelude.rs
//@ include fixed.rs
//@ include mathlib.rs
//@ include storage.inc.rs
//@ dropgen T
//@ subst T::AccountId => AccountId
//@ subst T::AssetId => u32
//@ subst T::PositionItemId => u128
//@ subst OriginFor<T> => Origin
//@ subst T::RuntimeOrigin => Origin
//@ subst pallets/omnipool/src/lib.rs|AssetReserveState<Balance> => PoolState<u128>
//@ subst pallets/omnipool/src/types.rs|AssetReserveState<Balance> => PoolState<u128>
//@ subst pallets/omnipool/src/traits.rs|AssetReserveState<Balance> => PoolState<Balance>
//@ storage Assets HubAssetImbalance HubAssetTradability Positions NextPositionId
//@ call math/src/omnipool/types.rs|.checked_add => num_checked_add
//@ call math/src/omnipool/types.rs|.checked_sub => num_checked_sub
//@ call .clone => vclone
//@ call Self::protocol_account => w.protocol_account
//@ subst pallets/omnipool/src/lib.rs|Position<Balance,T::AssetId> => Pos<u128,u32>
//@ subst pallets/omnipool/src/lib.rs|Position::<Balance,u32> => Pos
//@ subst pallets/omnipool/src/lib.rs|AssetReserveState<_> => PoolState<u128>
//@ subst pallets/omnipool/src/lib.rs|AssetReserveState => PoolState
//@ subst pallets/omnipool/src/lib.rs|hydra_dx_math::omnipool::types::Position::<Balance> => Position
//@ subst pallets/omnipool/src/types.rs|Position<Balance,AssetId> => Pos<u128,u32>
//@ call pallets/omnipool/src/lib.rs|.defensive_ok_or => ok_or
//@ call T::MinimumPoolLiquidity::get => w.min_liquidity
//@ call T::MinWithdrawalFee::get => w.min_withdrawal_fee
//@ call T::NFTCollectionId::get => w.collection
//@ call T::NFTHandler::owner => w.nft.owner
//@ call T::NFTHandler::mint_into => w.nft.mint_into
//@ call T::NFTHandler::burn => w.nft.burn
//@ call T::AuthorityOrigin::ensure_origin => ensure_authority
//@ call T::TechnicalOrigin::ensure_origin => ensure_technical
//@ call T::NFTHandler::create_collection => w.nft.create_collection
//@ call T::AssetRegistry::exists => w.registered
//@ call T::AssetRegistry::existential_deposit => w.min_deposit
//@ call T::PriceBarrier::ensure_price => w.ensure_price
//@ call T::ExternalPriceOracle::get_price => w.oracle_price
//@ call T::HubAssetId::get => w.hub_id
//@ call T::OmnipoolHooks::on_liquidity_changed => w.on_liquidity_changed
//@ call T::Currency::free_balance => w.cur.free_balance
//@ call T::Currency::ensure_can_withdraw => w.cur.ensure_can_withdraw
//@ call T::Currency::transfer => w.cur.transfer
//@ call T::Currency::deposit => w.cur.deposit
//@ call T::Currency::withdraw => w.cur.withdraw
//@ call Self::deposit_event => w.deposit_event
//@ known ensure_signed ensure_authority ensure_technical
//@ include frame.inc.rs
//@ include currency.inc.rs
//@ include omni.inc.rs
//@ include omni_state.inc.rs
//@ include omni_types.inc.rs
//@ include omni_add.inc.rs
//@ include omni_remove.inc.rs
//@ include omni_pallet_types.inc.rs
impl Tradability {
    pub const ADD_LIQUIDITY: Tradability = Tradability { bits: 4 };
    pub const REMOVE_LIQUIDITY: Tradability = Tradability { bits: 8 };
//@ fn pallets/omnipool/src/types.rs::Tradability::is_safe_withdrawal()
//@ meta noreplay=1
//@ ensures r == (self.bits == 8 || self.bits == 12)
//@ pre proof { assert(4u8 | 8u8 == 12u8) by (bit_vector); }
//@ end
}
impl Tradability { pub const FROZEN: Tradability = Tradability { bits: 0 }; }
impl Tradability {
//@ fn pallets/omnipool/src/types.rs::<Default for Tradability>::default()
//@ meta noreplay=1
//@ ensures r.bits == 15
//@ pre proof { assert(1u8 | 2u8 | 4u8 | 8u8 == 15u8) by (bit_vector); }
//@ end
}
impl vstd::std_specs::ops::BitOrSpecImpl<Tradability> for Tradability {
    open spec fn obeys_bitor_spec() -> bool { true }
    open spec fn bitor_req(self, o: Tradability) -> bool { true }
    open spec fn bitor_spec(self, o: Tradability) -> Tradability { Tradability { bits: self.bits | o.bits } }
}
impl core::ops::BitOr<Tradability> for Tradability { type Output = Tradability; fn bitor(self, o: Tradability) -> (r: Tradability) { Tradability { bits: self.bits | o.bits } } }
/// derived: zeros and the default permissions
impl Default for PoolState<u128> { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
//@ item math/src/ratio.rs::Ratio derive Clone, Copy
pub type EmaPrice = Ratio;
impl Ratio {
//@ fn math/src/ratio.rs::Ratio::new(n, d)
//@ meta noreplay=1
//@ ensures r.n == n && r.d == (if d > 0 { d } else { 1 })
//@ end
//@ fn math/src/ratio.rs::Ratio::is_zero()
//@ meta noreplay=1
//@ ensures r == (self.n == 0)
//@ end
}
//@ item pallets/omnipool/src/types.rs::Position as Pos derive none
pub open spec fn math_pos(p: Pos<u128, u32>) -> Position<u128> { Position { amount: p.amount, shares: p.shares, price: p.price } }
impl vstd::std_specs::convert::FromSpecImpl<&Pos<u128, u32>> for Position<u128> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: &Pos<u128, u32>) -> Position<u128> { math_pos(*x) } }
impl From<&Pos<u128, u32>> for Position<u128> {
//@ fn pallets/omnipool/src/types.rs::<From<&Position<Balance,AssetId>> for Position>::from(x)
//@ meta noreplay=1
//@ ensures r == math_pos(*x)
//@ end
}
impl Pos<u128, u32> {
//@ fn pallets/omnipool/src/types.rs::Position::delta_update(delta_reserve, delta_shares)
//@ meta noreplay=1
//@ ensures r is Some <==> moved(self.amount as int, sg(*delta_reserve)) is Some && moved(self.shares as int, sg(*delta_shares)) is Some,
//@ r matches Some(p) ==> p.asset_id == self.asset_id && p.price == self.price && p.amount == self.amount + sg(*delta_reserve) && p.shares == self.shares + sg(*delta_shares)
//@ end
//@ fn pallets/omnipool/src/types.rs::Position::price_from_rational()
//@ meta noreplay=1
//@ ensures true
//@ end
}
impl PoolState<u128> {
//@ fn pallets/omnipool/src/types.rs::AssetReserveState::price()
//@ meta noreplay=1
//@ ensures fxo(r) == px(self.hub_reserve as int, self.reserve as int)
//@ pre broadcast use vxf;
//@ end
//@ fn pallets/omnipool/src/types.rs::AssetReserveState::weight_cap()
//@ meta noreplay=1
//@ ensures r@ == self.cap
//@ pre broadcast use vxf;
//@ end
}
/// the positions' tokens and their owners
#[verifier::external_body]
pub struct Nft { o: u8 }
impl Nft {
    pub uninterp spec fn view(&self) -> Map<u128, AccountId>;
    #[verifier::external_body]
    pub fn owner(&self, c: &u128, id: &u128) -> (r: Option<AccountId>) ensures r == (if self@.contains_key(*id) { Some(self@[*id]) } else { None::<AccountId> }) { unimplemented!() }
    #[verifier::external_body]
    pub fn create_collection(&mut self, c: &u128, who: &AccountId, admin: &AccountId) -> (r: DispatchResult) ensures final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn mint_into(&mut self, c: &u128, id: &u128, who: &AccountId) -> (r: DispatchResult)
        ensures r is Ok ==> !old(self)@.contains_key(*id) && final(self)@ == old(self)@.insert(*id, *who) { unimplemented!() }
    #[verifier::external_body]
    pub fn burn(&mut self, c: &u128, id: &u128, who: Option<&AccountId>) -> (r: DispatchResult)
        ensures r is Ok ==> final(self)@ == old(self)@.remove(*id) { unimplemented!() }
}
#[verifier::external_body]
pub struct Hooks { o: u8 }
impl Hooks { pub uninterp spec fn changes(&self) -> Seq<Info>; }
pub struct World { pub Assets: OptMap<u32, AssetState<u128>>, pub HubAssetImbalance: Val<SimpleImbalance<u128>>, pub HubAssetTradability: Val<Tradability>, pub Positions: OptMap<u128, Pos<u128, u32>>, pub NextPositionId: Val<u128>, pub nft: Nft, pub cur: Cur, pub hooks: Hooks }
pub uninterp spec fn pool() -> AccountId;
pub uninterp spec fn hub() -> u32;
pub uninterp spec fn min_liq() -> u128;
pub uninterp spec fn min_wfee() -> Permill;
pub uninterp spec fn oracle(a: u32) -> Ratio;
/// whether the price barrier lets an account change liquidity of an asset at a price
pub uninterp spec fn barrier(who: AccountId, a: u32, p: Ratio) -> bool;
impl World {
    #[verifier::external_body]
    pub fn protocol_account(&self) -> (r: AccountId) ensures r == pool() { unimplemented!() }
    #[verifier::external_body]
    pub fn hub_id(&self) -> (r: u32) ensures r == hub() { unimplemented!() }
    #[verifier::external_body]
    pub fn collection(&self) -> (r: u128) { unimplemented!() }
    #[verifier::external_body]
    pub fn min_liquidity(&self) -> (r: u128) ensures r == min_liq() { unimplemented!() }
    #[verifier::external_body]
    pub fn min_withdrawal_fee(&self) -> (r: Permill) ensures r == min_wfee() { unimplemented!() }
    #[verifier::external_body]
    pub fn ensure_price(&self, who: &AccountId, a: u32, b: u32, p: Ratio) -> (r: Result<(), ()>) ensures r is Ok ==> a == hub() ==> barrier(*who, b, p) { unimplemented!() }
    #[verifier::external_body]
    pub fn oracle_price(&self, a: u32, b: u32) -> (r: Result<Ratio, DispatchError>) ensures r matches Ok(p) ==> a == hub() ==> p == oracle(b) { unimplemented!() }
    #[verifier::external_body]
    pub fn on_liquidity_changed(&mut self, o: Origin, a: Info) -> (r: Result<Weight, DispatchError>)
        ensures books(*final(self), *old(self)), final(self).cur == old(self).cur, final(self).hooks.changes() == old(self).hooks.changes().push(a),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn registered(&self, a: u32) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn min_deposit(&self, a: u32) -> (r: Option<u128>) { unimplemented!() }
    pub fn deposit_event(&self, e: Event) { }
}
pub open spec fn places(v: World, w: World) -> bool { v.Positions == w.Positions && v.NextPositionId == w.NextPositionId && v.nft == w.nft && v.HubAssetTradability == w.HubAssetTradability }
pub open spec fn books(v: World, w: World) -> bool { v.Assets == w.Assets && v.HubAssetImbalance == w.HubAssetImbalance && places(v, w) }
pub open spec fn signed(o: Origin) -> Option<AccountId> { match signer(o) { Some(Some(a)) => Some(a), _ => None } }
pub open spec fn free(w: World, a: u32, k: AccountId) -> int { (w.cur@)(a, k, Kind::Free) }
pub open spec fn res(w: World, a: u32) -> int { free(w, a, pool()) }
pub open spec fn listed(w: World, a: u32) -> bool { w.Assets@.contains_key(a) }
pub open spec fn hubres(w: World, a: u32) -> int { w.Assets@[a].hub_reserve as int }
pub open spec fn pstate(w: World, a: u32) -> PoolState<u128> { with_reserve(w.Assets@[a], res(w, a) as u128) }
/// a free balance is a u128
pub broadcast axiom fn ax_free(c: Cur, a: u32, k: AccountId) ensures #![trigger (c@)(a, k, Kind::Free)] 0 <= (c@)(a, k, Kind::Free) <= u128::MAX as int;
pub open spec fn told(w: World, v: World, a: u32, d: (int, int, int, int), safe: bool) -> bool {
    let i = v.hooks.changes().last();
    v.hooks.changes().len() == w.hooks.changes().len() + 1 && v.hooks.changes().drop_last() =~= w.hooks.changes() && i.asset_id == a && i.before == pstate(w, a) && i.after == shifted(pstate(w, a), d) && ac(i.delta_changes) == d && i.safe_withdrawal == safe
}
/// dx of asset a from who to the pool, hub changed by dq in the pool's account, of which h went to who
pub open spec fn paid(w: World, v: World, who: AccountId, a: u32, dx: int, dq: int, h: int) -> bool {
    &&& forall|c: u32, k: AccountId, d: Kind| #[trigger] (v.cur@)(c, k, d) == (w.cur@)(c, k, d) + at(c == a && k == pool() && d is Free, dx) - at(c == a && k == who && d is Free, dx)
        + at(c == hub() && k == pool() && d is Free, dq) + at(c == hub() && k == who && d is Free, h)
    &&& forall|c: u32| #[trigger] (v.cur.iss())(c) == (w.cur.iss())(c) + at(c == hub(), dq + h)
}
pub open spec fn rebalanced(w: World, v: World, d: int) -> bool { sv(v.HubAssetImbalance.v) == sv(w.HubAssetImbalance.v) + d && v.HubAssetImbalance.v.negative && v.HubAssetTradability == w.HubAssetTradability }
pub open spec fn add_of(w: World, a: u32, x: int) -> Option<((int, int, int, int), int, int, int, int)> {
    spec_add(res(w, a), hubres(w, a), w.Assets@[a].shares as int, x, w.HubAssetImbalance.v.value as int, w.HubAssetImbalance.v.negative, res(w, hub()))
}
pub open spec fn added(w: World, v: World, who: AccountId, a: u32, x: int, min: int, t: ((int, int, int, int), int, int, int, int)) -> bool {
    let (c, d, pr, ps, h) = t; let id = w.NextPositionId.v; let s = shifted(pstate(w, a), c);
    &&& listed(w, a) && has(w.Assets@[a].tradable, Tradability::ADD_LIQUIDITY) && x >= min_liq() && c.0 == x && c.2 >= min && spec_delta(pst(pstate(w, a)), c) is Some
    &&& barrier(who, a, Ratio { n: pstate(w, a).hub_reserve, d: if res(w, a) > 0 { res(w, a) as u128 } else { 1 } })
    &&& px(s.hub_reserve as int, res(w, hub()) + c.1) matches Some(q) && q <= s.cap
    &&& v.Assets@ =~= w.Assets@.insert(a, without_reserve(s))
    &&& !w.nft@.contains_key(id) && v.nft@ == w.nft@.insert(id, who) && v.NextPositionId.v == id + 1
    &&& v.Positions@ =~= w.Positions@.insert(id, Pos { asset_id: a, amount: x as u128, shares: c.2 as u128, price: (s.hub_reserve, s.reserve) })
    &&& paid(w, v, who, a, x, c.1, 0) && rebalanced(w, v, d) && told(w, v, a, c, false)
}
pub open spec fn wfee_of(w: World, a: u32) -> int {
    spec_wfee(px(hubres(w, a), res(w, a))->0, px(oracle(a).n as int, oracle(a).d as int)->0, (min_wfee()@ * d18()) / mil())
}
pub open spec fn remove_of(w: World, id: u128, x: int) -> Option<((int, int, int, int), int, int, int, int)> {
    let p = w.Positions@[id]; let a = p.asset_id;
    spec_remove(res(w, a), hubres(w, a), w.Assets@[a].shares as int, x, p.amount as int, p.shares as int, p.price.0 as int, p.price.1 as int, w.HubAssetImbalance.v.value as int, w.HubAssetImbalance.v.negative, res(w, hub()), wfee_of(w, a))
}
pub open spec fn removed(w: World, v: World, who: AccountId, id: u128, x: int, min: int, t: ((int, int, int, int), int, int, int, int)) -> bool {
    let (c, d, pr, ps, h) = t; let p = w.Positions@[id]; let a = p.asset_id; let safe = w.Assets@[a].tradable.bits == 8 || w.Assets@[a].tradable.bits == 12;
    &&& w.Positions@.contains_key(id) && w.nft@.contains_key(id) && w.nft@[id] == who && listed(w, a) && has(w.Assets@[a].tradable, Tradability::REMOVE_LIQUIDITY)
    &&& 0 < x <= p.shares && -c.0 >= min && oracle(a).n != 0 && px(oracle(a).n as int, oracle(a).d as int) is Some && px(hubres(w, a), res(w, a)) is Some && spec_delta(pst(pstate(w, a)), c) is Some
    &&& (safe || barrier(who, a, Ratio { n: pstate(w, a).hub_reserve, d: if res(w, a) > 0 { res(w, a) as u128 } else { 1 } }))
    &&& v.Assets@ =~= w.Assets@.insert(a, without_reserve(shifted(pstate(w, a), c))) && v.NextPositionId == w.NextPositionId
    &&& 0 <= p.amount + pr <= u128::MAX && 0 <= p.shares + ps <= u128::MAX
    &&& if p.shares + ps == 0 { v.Positions@ =~= w.Positions@.remove(id) && v.nft@ == w.nft@.remove(id) }
        else { v.Positions@ =~= w.Positions@.insert(id, Pos { asset_id: a, amount: (p.amount + pr) as u128, shares: (p.shares + ps) as u128, price: p.price }) && v.nft == w.nft }
    &&& (paid(w, v, who, a, c.0, c.1, h) || h < 400_000_000 && paid(w, v, who, a, c.0, c.1, 0)) && rebalanced(w, v, d) && told(w, v, a, c, safe)
}
pub uninterp spec fn authority(o: Origin) -> bool;
#[verifier::external_body] pub fn ensure_authority(o: Origin) -> (r: Result<(), DispatchError>) ensures r is Ok <==> authority(o) { unimplemented!() }
pub uninterp spec fn technical(o: Origin) -> bool;
#[verifier::external_body] pub fn ensure_technical(o: Origin) -> (r: Result<(), DispatchError>) ensures r is Ok <==> technical(o) { unimplemented!() }
/// only an asset's permissions or cap change
pub open spec fn retuned(w: World, v: World, a: u32) -> bool {
    let (s, t) = (w.Assets@[a], v.Assets@[a]);
    listed(w, a) && v.Assets@ =~= w.Assets@.insert(a, t) && t.hub_reserve == s.hub_reserve && t.shares == s.shares && t.protocol_shares == s.protocol_shares && places(v, w) && v.HubAssetImbalance == w.HubAssetImbalance && v.cur == w.cur && v.hooks == w.hooks
}
/// an asset the pool does not list is sent back
pub open spec fn refunded(w: World, v: World, who: AccountId, a: u32, x: int) -> bool { a != hub() && !listed(w, a) && books(v, w) && v.hooks == w.hooks && paid(w, v, who, a, -x, 0, 0) }
pub open spec fn protocol_remove_of(w: World, a: u32, x: int, price: (u128, u128)) -> Option<((int, int, int, int), int, int, int, int)> {
    spec_remove(res(w, a), hubres(w, a), w.Assets@[a].shares as int, x, 0, x, price.0 as int, price.1 as int, w.HubAssetImbalance.v.value as int, w.HubAssetImbalance.v.negative, res(w, hub()), 0)
}
pub open spec fn protocol_removed(w: World, v: World, who: AccountId, a: u32, x: int, t: ((int, int, int, int), int, int, int, int)) -> bool {
    let (c, d, pr, ps, h) = t; let s = shifted(pstate(w, a), c); let i = v.hooks.changes().last();
    &&& listed(w, a) && x <= w.Assets@[a].protocol_shares && spec_delta(pst(pstate(w, a)), c) is Some && places(v, w)
    &&& v.Assets@ =~= w.Assets@.insert(a, AssetState { hub_reserve: s.hub_reserve, shares: s.shares, protocol_shares: (s.protocol_shares - x) as u128, cap: s.cap, tradable: s.tradable })
    &&& (paid(w, v, who, a, c.0, c.1, h) || h < 400_000_000 && paid(w, v, who, a, c.0, c.1, 0)) && rebalanced(w, v, d)
    &&& v.hooks.changes().len() == w.hooks.changes().len() + 1 && v.hooks.changes().drop_last() =~= w.hooks.changes() && i.asset_id == a && i.before == pstate(w, a) && ac(i.delta_changes) == c && i.safe_withdrawal
}
pub open spec fn delisted(w: World, v: World, who: AccountId, a: u32) -> bool {
    let s = w.Assets@[a];
    &&& listed(w, a) && s.tradable.bits == 0 && s.shares == s.protocol_shares && v.Assets@ =~= w.Assets@.remove(a) && places(v, w) && v.hooks == w.hooks
    &&& paid(w, v, who, a, -res(w, a), -(s.hub_reserve as int), 0)
    &&& (spec_delta_imbalance(hubres(w, a), w.HubAssetImbalance.v.value as int, w.HubAssetImbalance.v.negative, res(w, hub())) matches Some(d) && rebalanced(w, v, d))
}
pub open spec fn price_amount(p: FixedU128, x: int) -> int { (p@ * x) / d18() }
pub open spec fn enlisted(w: World, v: World, who: AccountId, a: u32, p: FixedU128, cap: Permill) -> bool {
    let x = res(w, a); let q = price_amount(p, x); let id = w.NextPositionId.v;
    &&& !listed(w, a) && x > 0 && p@ > 0 && q <= u128::MAX
    &&& v.Assets@ =~= w.Assets@.insert(a, AssetState { hub_reserve: q as u128, shares: x as u128, protocol_shares: 0, cap: ((cap@ * d18()) / mil()) as u128, tradable: Tradability { bits: 15 } })
    &&& !w.nft@.contains_key(id) && v.nft@ == w.nft@.insert(id, who) && v.NextPositionId.v == id + 1
    &&& v.Positions@ =~= w.Positions@.insert(id, Pos { asset_id: a, amount: x as u128, shares: x as u128, price: (p@ as u128, d18() as u128) })
    &&& paid(w, v, who, a, 0, q, 0)
    &&& (spec_delta_imbalance(q, w.HubAssetImbalance.v.value as int, w.HubAssetImbalance.v.negative, res(w, hub())) matches Some(d) && rebalanced(w, v, -d))
}
pub struct Pallet { }
impl Pallet {
//@ fn pallets/omnipool/src/lib.rs::Pallet::load_asset_state(asset_id)
//@ world
//@ ensures *final(w) == *old(w), r is Ok <==> listed(*old(w), asset_id), r matches Ok(s) ==> s == pstate(*old(w), asset_id),
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::set_asset_state(asset_id, new_state)
//@ world
//@ ensures final(w).Assets@ == old(w).Assets@.insert(asset_id, without_reserve(new_state)), final(w).HubAssetImbalance == old(w).HubAssetImbalance, places(*final(w), *old(w)), final(w).cur == old(w).cur, final(w).hooks == old(w).hooks,
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::update_imbalance(delta_imbalance)
//@ world
//@ ensures final(w).Assets == old(w).Assets && final(w).cur == old(w).cur && final(w).hooks == old(w).hooks && places(*final(w), *old(w)), r is Ok ==> rebalanced(*old(w), *final(w), sg(delta_imbalance)),
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::create_and_mint_position_instance(owner)
//@ world
//@ ensures final(w).Assets == old(w).Assets && final(w).cur == old(w).cur && final(w).hooks == old(w).hooks && final(w).HubAssetImbalance == old(w).HubAssetImbalance && final(w).Positions == old(w).Positions && final(w).HubAssetTradability == old(w).HubAssetTradability,
//@ r matches Ok(id) ==> id == old(w).NextPositionId.v && final(w).NextPositionId.v == id + 1 && !old(w).nft@.contains_key(id) && final(w).nft@ == old(w).nft@.insert(id, *owner),
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::update_hub_asset_liquidity(delta_amount)
//@ world
//@ ensures books(*final(w), *old(w)), final(w).hooks == old(w).hooks,
//@ r is Ok ==> forall|b: u32, k: AccountId, d: Kind| #[trigger] (final(w).cur@)(b, k, d) == (old(w).cur@)(b, k, d) + at(b == hub() && k == pool() && d is Free, sg(*delta_amount)),
//@ r is Ok ==> forall|b: u32| #[trigger] (final(w).cur.iss())(b) == (old(w).cur.iss())(b) + at(b == hub(), sg(*delta_amount)),
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::process_hub_amount(amount, dest)
//@ world
//@ ensures books(*final(w), *old(w)), final(w).hooks == old(w).hooks,
//@ r is Ok ==> handed(*old(w), *final(w), *dest, amount as int, amount as int) || amount < 400_000_000 && handed(*old(w), *final(w), *dest, amount as int, 0),
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::add_liquidity_with_limit(origin, asset, amount, min_shares_limit)
//@ world
//@ attr #[verifier::spinoff_prover] #[verifier::rlimit(80)]
//@ ensures r is Ok ==> signed(origin) is Some && (add_of(*old(w), asset, amount as int) matches Some(t) && added(*old(w), *final(w), signed(origin)->0, asset, amount as int, min_shares_limit as int, t)),
//@ pre broadcast use vxf; proof { lem_add_of(*w, asset, amount as int); }
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::add_liquidity(origin, asset, amount)
//@ world
//@ ensures r is Ok ==> signed(origin) is Some && (add_of(*old(w), asset, amount as int) matches Some(t) && added(*old(w), *final(w), signed(origin)->0, asset, amount as int, 0, t)),
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::remove_liquidity_with_limit(origin, position_id, amount, min_limit)
//@ world
//@ attr #[verifier::spinoff_prover] #[verifier::rlimit(80)]
//@ ensures r is Ok ==> signed(origin) is Some && (remove_of(*old(w), position_id, amount as int) matches Some(t) && removed(*old(w), *final(w), signed(origin)->0, position_id, amount as int, min_limit as int, t)),
//@ pre broadcast use vxf; proof { lem_remove_of(*w, position_id, amount as int); }
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::remove_liquidity(origin, position_id, amount)
//@ world
//@ ensures r is Ok ==> signed(origin) is Some && (remove_of(*old(w), position_id, amount as int) matches Some(t) && removed(*old(w), *final(w), signed(origin)->0, position_id, amount as int, 0, t)),
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::get_hub_asset_balance_of_protocol_account()
//@ world
//@ ensures *final(w) == *old(w), r as int == res(*old(w), hub()),
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::withdraw_protocol_liquidity(origin, asset_id, amount, price, dest)
//@ world
//@ attr #[verifier::spinoff_prover] #[verifier::rlimit(80)]
//@ ensures r is Ok ==> authority(origin) && (protocol_remove_of(*old(w), asset_id, amount as int, price) matches Some(t) && protocol_removed(*old(w), *final(w), dest, asset_id, amount as int, t)),
//@ pre broadcast use vxf; proof { lem_protocol_remove_of(*w, asset_id, amount as int, price); }
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::remove_token(origin, asset_id, beneficiary)
//@ world
//@ ensures r is Ok ==> authority(origin) && delisted(*old(w), *final(w), beneficiary, asset_id),
//@ pre proof { ax_free(w.cur, asset_id, pool()); }
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::add_token(origin, asset, initial_price, weight_cap, position_owner)
//@ world
//@ ensures r is Ok ==> authority(origin) && enlisted(*old(w), *final(w), position_owner, asset, initial_price, weight_cap),
//@ pre broadcast use vxf;
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::load_position(position_id, owner)
//@ world
//@ ensures *final(w) == *old(w), r matches Ok(p) ==> old(w).nft@.contains_key(position_id) && old(w).nft@[position_id] == owner && old(w).Positions@.contains_key(position_id) && p == old(w).Positions@[position_id],
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::set_asset_tradable_state(origin, asset_id, state)
//@ world
//@ ensures r is Ok ==> technical(origin) && (if asset_id == hub() { has(state, Tradability::ADD_LIQUIDITY) == false && has(state, Tradability::REMOVE_LIQUIDITY) == false && final(w).HubAssetTradability.v == state && final(w).Assets == old(w).Assets && final(w).HubAssetImbalance == old(w).HubAssetImbalance && final(w).cur == old(w).cur && final(w).Positions == old(w).Positions && final(w).nft == old(w).nft }
//@ else { retuned(*old(w), *final(w), asset_id) && final(w).Assets@[asset_id].tradable == state && final(w).Assets@[asset_id].cap == old(w).Assets@[asset_id].cap }),
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::set_asset_weight_cap(origin, asset_id, cap)
//@ world
//@ ensures r is Ok ==> technical(origin) && retuned(*old(w), *final(w), asset_id) && final(w).Assets@[asset_id].cap == (cap@ * d18()) / mil() && final(w).Assets@[asset_id].tradable == old(w).Assets@[asset_id].tradable,
//@ pre broadcast use vxf;
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::refund_refused_asset(origin, asset_id, amount, recipient)
//@ world
//@ ensures r is Ok ==> authority(origin) && refunded(*old(w), *final(w), recipient, asset_id, amount as int),
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::sacrifice_position(origin, position_id)
//@ world
//@ ensures r is Ok ==> signed(origin) is Some && sacrificed(*old(w), *final(w), signed(origin)->0, position_id),
//@ end
}
/// b units of hub moved to an account and the rest of x burned
pub open spec fn handed(w: World, v: World, who: AccountId, x: int, b: int) -> bool {
    &&& forall|c: u32, k: AccountId, d: Kind| #[trigger] (v.cur@)(c, k, d) == (w.cur@)(c, k, d) - at(c == hub() && k == pool() && d is Free, x) + at(c == hub() && k == who && d is Free, b)
    &&& forall|c: u32| #[trigger] (v.cur.iss())(c) == (w.cur.iss())(c) - at(c == hub(), x - b)
}
pub open spec fn sacrificed(w: World, v: World, who: AccountId, id: u128) -> bool {
    let p = w.Positions@[id]; let s = w.Assets@[p.asset_id];
    &&& w.Positions@.contains_key(id) && w.nft@.contains_key(id) && w.nft@[id] == who && listed(w, p.asset_id) && s.protocol_shares + p.shares <= u128::MAX
    &&& v.Assets@ =~= w.Assets@.insert(p.asset_id, AssetState { hub_reserve: s.hub_reserve, shares: s.shares, protocol_shares: (s.protocol_shares + p.shares) as u128, cap: s.cap, tradable: s.tradable })
    &&& v.Positions@ =~= w.Positions@.remove(id) && v.nft@ == w.nft@.remove(id) && v.cur == w.cur && v.hooks == w.hooks && v.HubAssetImbalance == w.HubAssetImbalance && v.NextPositionId == w.NextPositionId && v.HubAssetTradability == w.HubAssetTradability
}
proof fn lem_add_of(w: World, a: u32, x: int) requires 0 <= x <= u128::MAX,
    ensures 0 <= res(w, a) <= u128::MAX, add_of(w, a, x) matches Some((c, d, pr, ps, h)) ==> c.0 == x && c.1 >= 0 && c.2 >= 0 && c.3 == 0 && d <= 0,
{ ax_free(w.cur, a, pool()); ax_free(w.cur, hub(), pool());
  if res(w, a) > 0 { c23_fair(res(w, a), hubres(w, a), w.Assets@[a].shares as int, x, w.HubAssetImbalance.v.value as int, w.HubAssetImbalance.v.negative, res(w, hub())); } }
proof fn lem_wfee_range(w: World, a: u32) ensures 0 <= wfee_of(w, a) <= d18()
{
    broadcast use vxf; let m = (min_wfee()@ * d18()) / mil(); c24_min_fee(min_wfee()@);
}
proof fn lem_remove_of(w: World, id: u128, x: int) requires 0 <= x <= u128::MAX,
    ensures ({ let a = w.Positions@[id].asset_id; 0 <= res(w, a) <= u128::MAX && 0 <= wfee_of(w, a) }), remove_of(w, id, x) matches Some((c, d, pr, ps, h)) ==> c.0 <= 0 && c.1 <= 0 && c.2 <= 0 && c.3 >= 0 && c.3 - c.2 == x && pr <= 0 && ps == -x && d >= 0 && 0 <= h,
{
    let p = w.Positions@[id]; let a = p.asset_id; let f = wfee_of(w, a); lem_wfee_range(w, a);
    ax_free(w.cur, a, pool()); ax_free(w.cur, hub(), pool());
    let (r, q, s, cp, pp) = (res(w, a), hubres(w, a), w.Assets@[a].shares as int, px(hubres(w, a), res(w, a)), px(p.price.0 as int, p.price.1 as int));
    lem_px(q, r); lem_px(p.price.0 as int, p.price.1 as int);
    if remove_of(w, id, x) is Some {
        lem_remove(r, q, s, x, p.amount as int, p.shares as int, cp->0, pp->0);
        let (ds, db, dr, dq, h) = remove_parts(r, q, s, x, cp->0, pp->0)->0;
        lem_keep(dr, f); lem_keep(dq, f); lem_keep(h, f);
    }
}

proof fn lem_protocol_remove_of(w: World, a: u32, x: int, price: (u128, u128)) requires 0 <= x <= u128::MAX,
    ensures 0 <= res(w, a) <= u128::MAX, protocol_remove_of(w, a, x, price) matches Some((c, d, pr, ps, h)) ==> c.0 <= 0 && c.1 <= 0 && c.2 <= 0 && c.3 >= 0 && c.3 - c.2 == x && pr <= 0 && ps == -x && d >= 0 && 0 <= h,
{
    ax_free(w.cur, a, pool()); ax_free(w.cur, hub(), pool());
    let (r, q, s, cp, pp) = (res(w, a), hubres(w, a), w.Assets@[a].shares as int, px(hubres(w, a), res(w, a)), px(price.0 as int, price.1 as int));
    lem_px(q, r); lem_px(price.0 as int, price.1 as int);
    if protocol_remove_of(w, a, x, price) is Some {
        lem_remove(r, q, s, x, 0, x, cp->0, pp->0);
        let (ds, db, dr, dq, h) = remove_parts(r, q, s, x, cp->0, pp->0)->0;
        lem_keep(dr, 0); lem_keep(dq, 0); lem_keep(h, 0);
    }
}
pub open spec fn hub_upto(m: Map<u32, AssetState<u128>>, n: int) -> int decreases n { if n <= 0 { 0 } else { hub_upto(m, n - 1) + if m.contains_key((n - 1) as u32) { m[(n - 1) as u32].hub_reserve as int } else { 0 } } }
pub open spec fn hub_total(m: Map<u32, AssetState<u128>>) -> int { hub_upto(m, 0x1_0000_0000) }
pub open spec fn hub_at(m: Map<u32, AssetState<u128>>, k: u32) -> int { if m.contains_key(k) { m[k].hub_reserve as int } else { 0 } }
proof fn lem_upto(m: Map<u32, AssetState<u128>>, k: u32, s: AssetState<u128>, n: int)
    requires 0 <= n <= 0x1_0000_0000,
    ensures hub_upto(m.insert(k, s), n) == hub_upto(m, n) + at(n > k, s.hub_reserve - hub_at(m, k)), hub_upto(m.remove(k), n) == hub_upto(m, n) - at(n > k, hub_at(m, k)),
    decreases n,
{ if n > 0 { lem_upto(m, k, s, n - 1); } }
/// hub asset held by the pool beyond what it has booked to its assets
pub open spec fn unbooked(w: World) -> int { res(w, hub()) - hub_total(w.Assets@) }
/// shares of an asset in positions below n
pub open spec fn owned(p: Pos<u128, u32>, a: u32) -> int { if p.asset_id == a { p.shares as int } else { 0 } }
pub open spec fn owned_at(m: Map<u128, Pos<u128, u32>>, k: u128, a: u32) -> int { if m.contains_key(k) { owned(m[k], a) } else { 0 } }
pub open spec fn owned_upto(m: Map<u128, Pos<u128, u32>>, a: u32, n: int) -> int decreases n { if n <= 0 { 0 } else { owned_upto(m, a, n - 1) + owned_at(m, (n - 1) as u128, a) } }
pub open spec fn owned_total(m: Map<u128, Pos<u128, u32>>, a: u32) -> int { owned_upto(m, a, u128::MAX + 1) }
proof fn lem_owned(m: Map<u128, Pos<u128, u32>>, k: u128, p: Pos<u128, u32>, a: u32, n: int)
    requires 0 <= n <= u128::MAX + 1,
    ensures owned_upto(m.insert(k, p), a, n) == owned_upto(m, a, n) + at(n > k, owned(p, a) - owned_at(m, k, a)), owned_upto(m.remove(k), a, n) == owned_upto(m, a, n) - at(n > k, owned_at(m, k, a)), owned_upto(m, a, n) >= at(n > k, owned_at(m, k, a)),
    decreases n,
{ if n > 0 { lem_owned(m, k, p, a, n - 1); } }
pub open spec fn issued(w: World, a: u32) -> int { if listed(w, a) { w.Assets@[a].shares - w.Assets@[a].protocol_shares } else { 0 } }
/// every share is a position's or the protocol's, and every position has its token
pub open spec fn sound(w: World) -> bool {
    &&& forall|a: u32| #[trigger] owned_total(w.Positions@, a) == issued(w, a)
    &&& forall|i: u128| #[trigger] w.Positions@.contains_key(i) <==> w.nft@.contains_key(i)
}
pub open spec fn did_add(w: World, v: World, who: AccountId, a: u32, x: int, min: int) -> bool { 0 <= x <= u128::MAX && (add_of(w, a, x) matches Some(t) && added(w, v, who, a, x, min, t)) }
pub open spec fn did_remove(w: World, v: World, who: AccountId, id: u128, x: int, min: int) -> bool { 0 <= x <= u128::MAX && (remove_of(w, id, x) matches Some(t) && removed(w, v, who, id, x, min, t)) }
pub open spec fn did_protocol(w: World, v: World, who: AccountId, a: u32, x: int, price: (u128, u128)) -> bool { 0 <= x <= u128::MAX && (protocol_remove_of(w, a, x, price) matches Some(t) && protocol_removed(w, v, who, a, x, t)) }
/// providing: the amount is taken, shares are worth no more than it, nobody's shares lose, the price in hub asset does not rise
proof fn c48_add(w: World, v: World, who: AccountId, a: u32, x: int, min: int)
    requires did_add(w, v, who, a, x, min), who != pool(), a != hub(),
    ensures ({ let p = v.Positions@[w.NextPositionId.v]; let (s, s2) = (w.Assets@[a].shares, v.Assets@[a].shares);
        &&& free(v, a, who) == free(w, a, who) - x && res(v, a) == res(w, a) + x && p.asset_id == a && p.amount == x && p.shares >= min && s2 == s + p.shares && v.nft@[w.NextPositionId.v] == who
        &&& p.shares * res(w, a) <= s * x && s2 * res(w, a) <= s * res(v, a) && hubres(v, a) * res(w, a) <= hubres(w, a) * res(v, a)
        &&& unbooked(v) == unbooked(w) && sv(v.HubAssetImbalance.v) <= 0
        &&& forall|c: u32| c != a ==> (listed(v, c) <==> listed(w, c)) && #[trigger] v.Assets@[c] == w.Assets@[c]
        &&& forall|c: u32, k: AccountId| k != who && k != pool() ==> #[trigger] free(v, c, k) == free(w, c, k) }),
{
    lem_add_of(w, a, x); ax_free(w.cur, hub(), pool());
    c23_fair(res(w, a), hubres(w, a), w.Assets@[a].shares as int, x, w.HubAssetImbalance.v.value as int, w.HubAssetImbalance.v.negative, res(w, hub()));
    let t = add_of(w, a, x)->0; lem_upto(w.Assets@, a, without_reserve(shifted(pstate(w, a), t.0)), 0x1_0000_0000);
    assert(v.Assets@ == w.Assets@.insert(a, without_reserve(shifted(pstate(w, a), t.0))));
}
/// removing: only the position's owner, at most the proportional part, nobody else's shares lose
proof fn c48_remove(w: World, v: World, who: AccountId, id: u128, x: int, min: int)
    requires did_remove(w, v, who, id, x, min), sound(w), who != pool(), w.Positions@[id].asset_id != hub(),
    ensures ({ let p = w.Positions@[id]; let a = p.asset_id; let y = free(v, a, who) - free(w, a, who); let h = free(v, hub(), who) - free(w, hub(), who); let (s, s2) = (w.Assets@[a].shares, v.Assets@[a].shares);
        &&& w.nft@[id] == who && x <= p.shares <= s && y >= min && y >= 0 && res(v, a) == res(w, a) - y && h >= 0
        &&& y * s <= res(w, a) * x && h * s <= hubres(w, a) * x && res(v, a) * s >= res(w, a) * s2
        &&& (v.Positions@.contains_key(id) <==> x < p.shares) && (x < p.shares ==> v.Positions@[id].shares == p.shares - x && v.Positions@[id].price == p.price && v.Positions@[id].amount <= p.amount)
        &&& unbooked(v) == unbooked(w) && sv(v.HubAssetImbalance.v) <= 0
        &&& forall|c: u32| c != a ==> (listed(v, c) <==> listed(w, c)) && #[trigger] v.Assets@[c] == w.Assets@[c]
        &&& forall|c: u32, k: AccountId| k != who && k != pool() ==> #[trigger] free(v, c, k) == free(w, c, k) }),
{
    let p = w.Positions@[id]; let a = p.asset_id; let s = w.Assets@[a].shares as int; lem_remove_of(w, id, x); lem_wfee_range(w, a); ax_free(w.cur, hub(), pool());
    lem_owned(w.Positions@, id, p, a, u128::MAX + 1); assert(owned_total(w.Positions@, a) == issued(w, a));
    c24_fair(res(w, a), hubres(w, a), s, x, p.amount as int, p.shares as int, p.price.0 as int, p.price.1 as int, w.HubAssetImbalance.v.value as int, w.HubAssetImbalance.v.negative, res(w, hub()), wfee_of(w, a));
    let (c, d, pr, ps, h) = remove_of(w, id, x)->0; let (r, q) = (res(w, a), hubres(w, a)); let st = without_reserve(shifted(pstate(w, a), c)); lem_upto(w.Assets@, a, st, 0x1_0000_0000);
    assert(v.Assets@ == w.Assets@.insert(a, st));
    lem_part(-c.0, s, r, -c.2, x); lem_part(h, s, q, -c.2, x); assert(0 * s <= q * x) by (nonlinear_arith) requires 0 <= q, 0 <= x;
}
proof fn lem_part(y: int, s: int, r: int, n: int, x: int) requires y * s <= r * n, n <= x, 0 <= r, ensures y * s <= r * x { assert(r * n <= r * x) by (nonlinear_arith) requires n <= x, 0 <= r; }
/// the authority's withdrawal of the protocol's shares leaves everybody's share of the reserve whole
proof fn c48_protocol(w: World, v: World, who: AccountId, a: u32, x: int, price: (u128, u128))
    requires did_protocol(w, v, who, a, x, price), sound(w), who != pool(), a != hub(),
    ensures ({ let y = free(v, a, who) - free(w, a, who); let (s, s2) = (w.Assets@[a].shares, v.Assets@[a].shares);
        &&& x <= w.Assets@[a].protocol_shares && 0 <= y && y * s <= res(w, a) * x && res(v, a) == res(w, a) - y && res(v, a) * s >= res(w, a) * s2 && v.Positions == w.Positions
        &&& unbooked(v) == unbooked(w) && sv(v.HubAssetImbalance.v) <= 0 }),
{
    lem_protocol_remove_of(w, a, x, price); ax_free(w.cur, hub(), pool()); let s = w.Assets@[a].shares as int;
    assert(owned_total(w.Positions@, a) == issued(w, a)); lem_owned(w.Positions@, 0, arbitrary(), a, u128::MAX + 1);
    c24_fair(res(w, a), hubres(w, a), s, x, 0, x, price.0 as int, price.1 as int, w.HubAssetImbalance.v.value as int, w.HubAssetImbalance.v.negative, res(w, hub()), 0);
    let (c, d, pr, ps, h) = protocol_remove_of(w, a, x, price)->0; let r = res(w, a); lem_part(-c.0, s, r, -c.2, x);
    let st = v.Assets@[a]; lem_upto(w.Assets@, a, st, 0x1_0000_0000); assert(v.Assets@ =~= w.Assets@.insert(a, st));
}
/// listing and delisting book what they mint and burn
proof fn c48_listing(w: World, v: World, who: AccountId, a: u32, x: int, p: FixedU128, cap: Permill)
    requires a != hub(), who != pool(), enlisted(w, v, who, a, p, cap) || delisted(w, v, who, a) || retuned(w, v, a) && sv(w.HubAssetImbalance.v) <= 0 || refunded(w, v, who, a, x) && sv(w.HubAssetImbalance.v) <= 0,
    ensures unbooked(v) == unbooked(w), sv(v.HubAssetImbalance.v) <= 0,
{ let st = v.Assets@[a]; lem_upto(w.Assets@, a, st, 0x1_0000_0000); }
/// the shares of every asset are those of its positions and the protocol, whatever the history
proof fn c48_sound(w: World, v: World, who: AccountId, a: u32, id: u128, x: int, min: int, price: (u128, u128), p: FixedU128, cap: Permill)
    requires sound(w), did_add(w, v, who, a, x, min) || did_remove(w, v, who, id, x, min) || did_protocol(w, v, who, a, x, price) || sacrificed(w, v, who, id) || enlisted(w, v, who, a, p, cap) || delisted(w, v, who, a) || retuned(w, v, a) || refunded(w, v, who, a, x),
    ensures sound(v),
{
    let nid = w.NextPositionId.v; let np = v.Positions@[nid];
    assert forall|b: u32| #[trigger] owned_total(v.Positions@, b) == issued(v, b) by {
        assert(owned_total(w.Positions@, b) == issued(w, b));
        lem_owned(w.Positions@, nid, np, b, u128::MAX + 1); lem_owned(w.Positions@, id, v.Positions@[id], b, u128::MAX + 1);
        if did_add(w, v, who, a, x, min) { lem_add_of(w, a, x); assert(!w.Positions@.contains_key(nid)); assert(v.Positions@ == w.Positions@.insert(nid, np)); }
        else if did_remove(w, v, who, id, x, min) { lem_remove_of(w, id, x); assert(v.Positions@ == w.Positions@.remove(id) || v.Positions@ == w.Positions@.insert(id, v.Positions@[id])); }
        else if did_protocol(w, v, who, a, x, price) { lem_protocol_remove_of(w, a, x, price); }
        else if sacrificed(w, v, who, id) { assert(v.Positions@ == w.Positions@.remove(id)); }
        else if enlisted(w, v, who, a, p, cap) { ax_free(w.cur, a, pool()); assert(!w.Positions@.contains_key(nid)); assert(v.Positions@ == w.Positions@.insert(nid, np)); }
    }
    assert forall|i: u128| #[trigger] v.Positions@.contains_key(i) <==> v.nft@.contains_key(i) by { assert(w.Positions@.contains_key(i) <==> w.nft@.contains_key(i)); }
}
}
fn main(){}
