//@ root pallets/omnipool/src
//@ root math/src
//@ include prelude.rs
//@ include fixed.rs
//@ include mathlib.rs
//@ include storage.inc.rs
//@ dropgen T
//@ subst T::AccountId => AccountId
//@ subst T::AssetId => u32
//@ subst T::PositionItemId => u128
//@ subst OriginFor<T> => Origin
//@ subst T::RuntimeOrigin => Origin
//@ subst pallets/omnipool/src/lib.rs|AssetReserveState<Balance> => PoolState<u128>
//@ subst pallets/omnipool/src/types.rs|AssetReserveState<Balance> => PoolState<u128>
//@ subst pallets/omnipool/src/traits.rs|AssetReserveState<Balance> => PoolState<Balance>
//@ storage Assets HubAssetImbalance HubAssetTradability
//@ call math/src/omnipool/types.rs|.checked_add => num_checked_add
//@ call math/src/omnipool/types.rs|.checked_sub => num_checked_sub
//@ call .clone => vclone
//@ call Self::protocol_account => w.protocol_account
//@ call T::HubAssetId::get => w.hub_id
//@ call T::HdxAssetId::get => w.hdx_id
//@ call T::Fee::get => w.fee
//@ call T::MinimumTradingLimit::get => w.min_trading_limit
//@ call T::MaxInRatio::get => w.max_in_ratio
//@ call T::MaxOutRatio::get => w.max_out_ratio
//@ call T::OmnipoolHooks::on_trade => w.on_trade
//@ call T::OmnipoolHooks::on_hub_asset_trade => w.on_hub_asset_trade
//@ call T::OmnipoolHooks::on_liquidity_changed => w.on_liquidity_changed
//@ call T::OmnipoolHooks::on_trade_fee => w.on_trade_fee
//@ call T::Currency::free_balance => w.cur.free_balance
//@ call T::Currency::ensure_can_withdraw => w.cur.ensure_can_withdraw
//@ call T::Currency::transfer => w.cur.transfer
//@ call T::Currency::deposit => w.cur.deposit
//@ call T::Currency::withdraw => w.cur.withdraw
//@ call Self::deposit_event => w.deposit_event
//@ known ensure_signed
//@ include frame.inc.rs
//@ include currency.inc.rs
//@ include omni.inc.rs
//@ include omni_types.inc.rs
//@ include omni_sell_fn.inc.rs
//@ include omni_buy.inc.rs
//@ include omni_buy_fn.inc.rs
//@ include omni_hub_fn.inc.rs
//@ include omni_pallet_types.inc.rs
/// what the chain's other pallets are told of trades: oracle and circuit breaker, which keep their own books
#[verifier::external_body]
pub struct Hooks { o: u8 }
impl Hooks {
    pub uninterp spec fn trades(&self) -> Seq<(Info, Info)>;
    pub uninterp spec fn hub_trades(&self) -> Seq<Info>;
    pub uninterp spec fn changes(&self) -> Seq<Info>;
}
pub struct World { pub Assets: OptMap<u32, AssetState<u128>>, pub HubAssetImbalance: Val<SimpleImbalance<u128>>, pub HubAssetTradability: Val<Tradability>, pub cur: Cur, pub hooks: Hooks }
pub uninterp spec fn pool() -> AccountId;
pub uninterp spec fn hub() -> u32;
pub uninterp spec fn hdx() -> u32;
/// the fees of an asset in this block: on what is bought, on the hub amount of what is sold
pub uninterp spec fn fees(a: u32) -> (Permill, Permill);
pub uninterp spec fn min_trade() -> u128;
pub uninterp spec fn max_in() -> u128;
pub uninterp spec fn max_out() -> u128;
pub open spec fn books(v: World, w: World) -> bool { v.Assets == w.Assets && v.HubAssetImbalance == w.HubAssetImbalance && v.HubAssetTradability == w.HubAssetTradability }
impl World {
    #[verifier::external_body]
    pub fn protocol_account(&self) -> (r: AccountId) ensures r == pool() { unimplemented!() }
    #[verifier::external_body]
    pub fn hub_id(&self) -> (r: u32) ensures r == hub() { unimplemented!() }
    #[verifier::external_body]
    pub fn hdx_id(&self) -> (r: u32) ensures r == hdx() { unimplemented!() }
    #[verifier::external_body]
    pub fn fee(&self, a: &u32) -> (r: (Permill, Permill)) ensures r == fees(*a) { unimplemented!() }
    #[verifier::external_body]
    pub fn min_trading_limit(&self) -> (r: u128) ensures r == min_trade() { unimplemented!() }
    #[verifier::external_body]
    pub fn max_in_ratio(&self) -> (r: u128) ensures r == max_in() { unimplemented!() }
    #[verifier::external_body]
    pub fn max_out_ratio(&self) -> (r: u128) ensures r == max_out() { unimplemented!() }
    #[verifier::external_body]
    pub fn on_trade(&mut self, o: Origin, a: Info, b: Info) -> (r: Result<Weight, DispatchError>)
        ensures books(*final(self), *old(self)), final(self).cur == old(self).cur, final(self).hooks.trades() == old(self).hooks.trades().push((a, b)), final(self).hooks.hub_trades() == old(self).hooks.hub_trades(), final(self).hooks.changes() == old(self).hooks.changes(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn on_hub_asset_trade(&mut self, o: Origin, a: Info) -> (r: Result<Weight, DispatchError>)
        ensures books(*final(self), *old(self)), final(self).cur == old(self).cur, final(self).hooks.trades() == old(self).hooks.trades(), final(self).hooks.hub_trades() == old(self).hooks.hub_trades().push(a), final(self).hooks.changes() == old(self).hooks.changes(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn on_liquidity_changed(&mut self, o: Origin, a: Info) -> (r: Result<Weight, DispatchError>)
        ensures books(*final(self), *old(self)), final(self).cur == old(self).cur, final(self).hooks.trades() == old(self).hooks.trades(), final(self).hooks.hub_trades() == old(self).hooks.hub_trades(), final(self).hooks.changes() == old(self).hooks.changes().push(a),
    { unimplemented!() }
    /// the handler of the fee (referrals, staking) moves what it takes of that asset elsewhere, not to the trader; how much of it is not assumed
    #[verifier::external_body]
    pub fn on_trade_fee(&mut self, from: AccountId, trader: AccountId, a: u32, x: u128) -> (r: Result<u128, DispatchError>)
        ensures books(*final(self), *old(self)), final(self).hooks == old(self).hooks, final(self).cur.iss() == old(self).cur.iss(),
            forall|b: u32, k: AccountId, d: Kind| b != a || k == trader && trader != from ==> #[trigger] (final(self).cur@)(b, k, d) == (old(self).cur@)(b, k, d),
    { unimplemented!() }
    pub fn deposit_event(&self, e: Event) { }
}
pub open spec fn signed(o: Origin) -> Option<AccountId> { match signer(o) { Some(Some(a)) => Some(a), _ => None } }
pub open spec fn free(w: World, a: u32, k: AccountId) -> int { (w.cur@)(a, k, Kind::Free) }
pub open spec fn res(w: World, a: u32) -> int { free(w, a, pool()) }
pub open spec fn listed(w: World, a: u32) -> bool { w.Assets@.contains_key(a) }
pub open spec fn hubres(w: World, a: u32) -> int { w.Assets@[a].hub_reserve as int }
pub open spec fn pstate(w: World, a: u32) -> PoolState<u128> { with_reserve(w.Assets@[a], res(w, a) as u128) }
/// a free balance is a u128
pub broadcast axiom fn ax_free(c: Cur, a: u32, k: AccountId) ensures #![trigger (c@)(a, k, Kind::Free)] 0 <= (c@)(a, k, Kind::Free) <= u128::MAX as int;
pub open spec fn hub_added(s: AssetState<u128>, h: int) -> AssetState<u128> { AssetState { hub_reserve: (s.hub_reserve + h) as u128, shares: s.shares, protocol_shares: s.protocol_shares, cap: s.cap, tradable: s.tradable } }
/// the books after the hub amount h went to the native asset
pub open spec fn with_hdx(m: Map<u32, AssetState<u128>>, h: int) -> Map<u32, AssetState<u128>> { if h > 0 { m.insert(hdx(), hub_added(m[hdx()], h)) } else { m } }
pub open spec fn told_info(i: Info, a: u32, s: PoolState<u128>, d: (int, int, int, int)) -> bool { i.asset_id == a && i.before == s && i.after == shifted(s, d) && ac(i.delta_changes) == d && !i.safe_withdrawal }
/// balances after a trade: dx of asset a from who to the pool, dy of asset b from the pool to who, and hub burned; of the fee in b, the handler took at most one unit less
pub open spec fn paid(w: World, v: World, who: AccountId, a: u32, b: u32, dx: int, dy: int, burned: int, f: int) -> bool {
    &&& forall|c: u32, k: AccountId, d: Kind| c != b || k == who && who != pool() ==> #[trigger] (v.cur@)(c, k, d) == (w.cur@)(c, k, d) + at(c == a && k == pool() && d is Free, dx) - at(c == a && k == who && d is Free, dx)
        - at(c == b && k == pool() && d is Free, dy) + at(c == b && k == who && d is Free, dy) - at(c == hub() && k == pool() && d is Free, burned)
    &&& who != pool() ==> res(v, b) >= res(w, b) - dy - imax(f - 1, 0)
    &&& forall|c: u32| #[trigger] (v.cur.iss())(c) == (w.cur.iss())(c) - at(c == hub(), burned)
}
pub open spec fn rebalanced(w: World, v: World, d: int) -> bool { sv(v.HubAssetImbalance.v) == sv(w.HubAssetImbalance.v) + d && v.HubAssetImbalance.v.negative && v.HubAssetTradability == w.HubAssetTradability }
/// everything a trade of a for b does, from the changes worked out for it
pub open spec fn swapped(w: World, v: World, who: AccountId, a: u32, b: u32, t: ((int, int, int, int), (int, int, int, int), int, int, int, int)) -> bool {
    let (i, o, d, h, f, p) = t; let (sa, sb) = (pstate(w, a), pstate(w, b));
    &&& a != b && a != hub() && b != hub() && listed(w, a) && listed(w, b) && has(w.Assets@[a].tradable, Tradability::SELL) && has(w.Assets@[b].tradable, Tradability::BUY)
    &&& max_in() > 0 && max_out() > 0 && i.0 <= res(w, a) / (max_in() as int) && -o.0 <= res(w, b) / (max_out() as int)
    &&& i.1 + o.1 + h <= 0 && 0 <= qafter(w, a, i) <= u128::MAX && 0 <= qafter(w, b, o) <= u128::MAX
    &&& paid(w, v, who, a, b, i.0, -o.0, -(i.1 + o.1 + h), f)
    &&& v.Assets@ =~= with_hdx(w.Assets@.insert(a, without_reserve(shifted(sa, i))).insert(b, without_reserve(shifted(sb, o))), h)
    &&& (h > 0 ==> (listed(w, hdx()) && v.Assets@[hdx()].hub_reserve == w.Assets@[hdx()].hub_reserve + at(a == hdx(), i.1) + at(b == hdx(), o.1) + h))
    &&& rebalanced(w, v, d)
    &&& v.hooks.hub_trades() == w.hooks.hub_trades()
    &&& v.hooks.trades().len() == w.hooks.trades().len() + 1 && v.hooks.trades().drop_last() =~= w.hooks.trades() && told_info(v.hooks.trades().last().0, a, sa, i) && told_info(v.hooks.trades().last().1, b, sb, o)
}
pub open spec fn qafter(w: World, a: u32, i: (int, int, int, int)) -> int { hubres(w, a) + i.1 }
pub open spec fn sell_of(w: World, a: u32, b: u32, x: int) -> Option<((int, int, int, int), (int, int, int, int), int, int, int, int)> {
    spec_sell(res(w, a), hubres(w, a), res(w, b), hubres(w, b), x, fees(b).0@, fees(a).1@, w.HubAssetImbalance.v.value as int)
}
pub open spec fn buy_of(w: World, a: u32, b: u32, y: int) -> Option<((int, int, int, int), (int, int, int, int), int, int, int, int)> {
    spec_buy(res(w, a), hubres(w, a), res(w, b), hubres(w, b), y, fees(b).0@, fees(a).1@, w.HubAssetImbalance.v.value as int)
}
pub open spec fn hub_swapped(w: World, v: World, who: AccountId, b: u32, t: ((int, int, int, int), int, int, int)) -> bool {
    let (o, d, f, p) = t; let sb = pstate(w, b);
    &&& b != hub() && listed(w, b) && has(w.HubAssetTradability.v, Tradability::SELL) && has(w.Assets@[b].tradable, Tradability::BUY)
    &&& max_in() > 0 && max_out() > 0 && o.1 <= hubres(w, b) / (max_in() as int) && -o.0 <= res(w, b) / (max_out() as int) && 0 <= qafter(w, b, o) <= u128::MAX
    &&& paid(w, v, who, hub(), b, o.1, -o.0, 0, f)
    &&& v.Assets@ =~= w.Assets@.insert(b, without_reserve(shifted(sb, o)))
    &&& rebalanced(w, v, d)
    &&& v.hooks.trades() == w.hooks.trades() && v.hooks.changes() == w.hooks.changes()
    &&& v.hooks.hub_trades().len() == w.hooks.hub_trades().len() + 1 && v.hooks.hub_trades().drop_last() =~= w.hooks.hub_trades() && told_info(v.hooks.hub_trades().last(), b, sb, o)
}
pub open spec fn hub_sell_of(w: World, b: u32, x: int) -> Option<((int, int, int, int), int, int, int)> { spec_sell_hub(res(w, b), hubres(w, b), x, fees(b).0@, w.HubAssetImbalance.v.value as int, res(w, hub())) }
pub open spec fn hub_buy_of(w: World, b: u32, y: int) -> Option<((int, int, int, int), int, int, int)> { spec_buy_hub(res(w, b), hubres(w, b), y, fees(b).0@, w.HubAssetImbalance.v.value as int, res(w, hub())) }
pub open spec fn hub_sold(w: World, v: World, who: AccountId, b: u32, x: int, min: int) -> bool { hub_sell_of(w, b, x) matches Some(t) && -t.0.0 >= min && hub_swapped(w, v, who, b, t) }
pub open spec fn hub_bought(w: World, v: World, who: AccountId, b: u32, y: int, max: int) -> bool { hub_buy_of(w, b, y) matches Some(t) && t.0.1 <= max && hub_swapped(w, v, who, b, t) }
pub open spec fn sold(w: World, v: World, who: AccountId, a: u32, b: u32, x: int, min: int) -> bool {
    x >= min_trade() && if a == hub() { hub_sold(w, v, who, b, x, min) } else { sell_of(w, a, b, x) matches Some(t) && -t.1.0 >= min && -t.1.0 > 0 && swapped(w, v, who, a, b, t) }
}
pub open spec fn bought(w: World, v: World, who: AccountId, a: u32, b: u32, y: int, max: int) -> bool {
    y >= min_trade() && if a == hub() { hub_bought(w, v, who, b, y, max) } else { buy_of(w, a, b, y) matches Some(t) && t.0.0 <= max && swapped(w, v, who, a, b, t) }
}
pub struct Pallet { }
impl Pallet {
//@ fn pallets/omnipool/src/lib.rs::Pallet::load_asset_state(asset_id)
//@ world
//@ ensures *final(w) == *old(w), r is Ok <==> listed(*old(w), asset_id), r matches Ok(s) ==> s == pstate(*old(w), asset_id),
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::set_asset_state(asset_id, new_state)
//@ world
//@ ensures final(w).Assets@ == old(w).Assets@.insert(asset_id, without_reserve(new_state)), final(w).HubAssetImbalance == old(w).HubAssetImbalance, final(w).HubAssetTradability == old(w).HubAssetTradability, final(w).cur == old(w).cur, final(w).hooks == old(w).hooks,
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::update_hdx_subpool_hub_asset(origin, hub_asset_amount)
//@ world
//@ ensures r is Ok ==> final(w).Assets@ =~= with_hdx(old(w).Assets@, hub_asset_amount as int) && final(w).HubAssetImbalance == old(w).HubAssetImbalance && final(w).HubAssetTradability == old(w).HubAssetTradability && final(w).cur == old(w).cur
//@ && final(w).hooks.trades() == old(w).hooks.trades() && final(w).hooks.hub_trades() == old(w).hooks.hub_trades(),
//@ r is Ok && hub_asset_amount > 0 ==> listed(*old(w), hdx()) && hubres(*old(w), hdx()) + hub_asset_amount <= u128::MAX && final(w).hooks.changes().len() == old(w).hooks.changes().len() + 1 && final(w).hooks.changes().drop_last() =~= old(w).hooks.changes()
//@ && told_info(final(w).hooks.changes().last(), hdx(), pstate(*old(w), hdx()), (0, hub_asset_amount as int, 0, 0)),
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::update_imbalance(delta_imbalance)
//@ world
//@ ensures final(w).Assets == old(w).Assets && final(w).cur == old(w).cur && final(w).hooks == old(w).hooks, r is Ok ==> rebalanced(*old(w), *final(w), sg(delta_imbalance)),
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::allow_assets(asset_in, asset_out)
//@ meta noreplay=1
//@ ensures r == (has(asset_in.tradable, Tradability::SELL) && has(asset_out.tradable, Tradability::BUY))
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::get_hub_asset_balance_of_protocol_account()
//@ world
//@ ensures *final(w) == *old(w), r as int == res(*old(w), hub()),
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::process_trade_fee(trader, asset, amount)
//@ world
//@ ensures r is Ok ==> books(*final(w), *old(w)) && final(w).hooks == old(w).hooks && final(w).cur.iss() == old(w).cur.iss() && res(*final(w), asset) >= res(*old(w), asset) - imax(amount - 1, 0),
//@ r is Ok ==> forall|b: u32, k: AccountId, d: Kind| b != asset || k == *trader && *trader != pool() ==> #[trigger] (final(w).cur@)(b, k, d) == (old(w).cur@)(b, k, d),
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::buy_hub_asset(who, asset_in, amount, limit)
//@ world
//@ ensures r is Err, *final(w) == *old(w),
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::sell_asset_for_hub_asset(who, asset_in, amount, limit)
//@ world
//@ ensures r is Err, *final(w) == *old(w),
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::sell_hub_asset(origin, who, asset_out, amount, limit)
//@ world
//@ attr #[verifier::spinoff_prover] #[verifier::rlimit(50)]
//@ requires asset_out != hub()
//@ ensures r is Ok ==> hub_sold(*old(w), *final(w), *who, asset_out, amount as int, limit as int),
//@ pre proof { lem_hub_sell(*w, asset_out, amount as int); }
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::buy_asset_for_hub_asset(origin, who, asset_out, amount, limit)
//@ world
//@ attr #[verifier::spinoff_prover] #[verifier::rlimit(50)]
//@ requires asset_out != hub()
//@ ensures r is Ok ==> hub_bought(*old(w), *final(w), *who, asset_out, amount as int, limit as int),
//@ pre proof { lem_hub_buy(*w, asset_out, amount as int); }
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::sell(origin, asset_in, asset_out, amount, min_buy_amount)
//@ world
//@ attr #[verifier::spinoff_prover] #[verifier::rlimit(80)]
//@ ensures r is Ok ==> signed(origin) is Some && sold(*old(w), *final(w), signed(origin)->0, asset_in, asset_out, amount as int, min_buy_amount as int),
//@ pre proof { lem_swap_sell(*w, asset_in, asset_out, amount as int); }
//@ end
//@ fn pallets/omnipool/src/lib.rs::Pallet::buy(origin, asset_out, asset_in, amount, max_sell_amount)
//@ world
//@ attr #[verifier::spinoff_prover] #[verifier::rlimit(80)]
//@ ensures r is Ok ==> signed(origin) is Some && bought(*old(w), *final(w), signed(origin)->0, asset_in, asset_out, amount as int, max_sell_amount as int),
//@ pre proof { lem_swap_buy(*w, asset_in, asset_out, amount as int); }
//@ end
}
pub open spec fn fits(w: World, a: u32) -> bool { 0 <= res(w, a) <= u128::MAX }
proof fn lem_fees(a: u32) ensures 0 <= fees(a).0@ <= mil(), 0 <= fees(a).1@ <= mil() { broadcast use vxf; }
/// signs of what the calculations return
proof fn lem_swap_sell(w: World, a: u32, b: u32, x: int) requires 0 <= x <= u128::MAX,
    ensures fits(w, a), fits(w, b), sell_of(w, a, b, x) matches Some((i, o, d, h, f, p)) ==> i.0 == x && i.1 <= 0 && o.0 <= 0 && o.1 >= 0 && d >= 0 && h >= 0 && i.1 + o.1 + d + h == 0 && i.2 == 0 && i.3 == 0 && o.2 == 0 && o.3 == 0 && 0 <= f,
{ lem_fees(a); lem_fees(b); ax_free(w.cur, a, pool()); ax_free(w.cur, b, pool());
  c20_conservation(res(w, a), hubres(w, a), res(w, b), hubres(w, b), x, fees(b).0@, fees(a).1@, w.HubAssetImbalance.v.value as int); }
proof fn lem_swap_buy(w: World, a: u32, b: u32, y: int) requires 0 <= y <= u128::MAX,
    ensures fits(w, a), fits(w, b), buy_of(w, a, b, y) matches Some((i, o, d, h, f, p)) ==> i.0 > 0 && i.1 <= 0 && o.0 == -y && o.1 >= 0 && d >= 0 && h >= 0 && i.1 + o.1 + d + h == 0 && i.2 == 0 && i.3 == 0 && o.2 == 0 && o.3 == 0,
{ lem_fees(a); lem_fees(b); ax_free(w.cur, a, pool()); ax_free(w.cur, b, pool());
  c21_conservation(res(w, a), hubres(w, a), res(w, b), hubres(w, b), y, fees(b).0@, fees(a).1@, w.HubAssetImbalance.v.value as int);
  lem_hub_for(res(w, b), hubres(w, b), y, fees(b).0@); }
proof fn lem_hub_sell(w: World, b: u32, x: int) requires 0 <= x <= u128::MAX,
    ensures fits(w, b), hub_sell_of(w, b, x) matches Some((o, d, f, p)) ==> o.1 == x && o.0 <= 0 && o.2 == 0 && o.3 == 0 && 0 <= f,
{ lem_fees(b); ax_free(w.cur, b, pool()); c22_sell(res(w, b), hubres(w, b), x, fees(b).0@, w.HubAssetImbalance.v.value as int, res(w, hub())); }
proof fn lem_hub_buy(w: World, b: u32, y: int) requires 0 <= y <= u128::MAX,
    ensures fits(w, b), hub_buy_of(w, b, y) matches Some((o, d, f, p)) ==> o.1 > 0 && o.0 == -y && o.2 == 0 && o.3 == 0,
{ lem_fees(b); ax_free(w.cur, b, pool()); c22_buy(res(w, b), hubres(w, b), y, fees(b).0@, w.HubAssetImbalance.v.value as int, res(w, hub())); }
/// the product of an asset's reserve and hub reserve has not fallen
pub open spec fn product_kept(w: World, v: World, a: u32) -> bool { res(v, a) * hubres(v, a) >= res(w, a) * hubres(w, a) }
proof fn lem_mono(r: int, q: int, r0: int, q0: int, k: int) requires r >= r0 >= 0, q >= q0 >= 0, r0 * q0 >= k, ensures r * q >= k
{ assert(r * q >= r0 * q0) by (nonlinear_arith) requires r >= r0 >= 0, q >= q0 >= 0; }
proof fn lem_cap(x: int, r: int, m: int) requires m > 0, x <= r / m, ensures x * m <= r
{ lem_div(r, m); assert(x * m <= r) by (nonlinear_arith) requires x <= r / m, (r / m) * m <= r, m > 0; }
/// a sale costs exactly the amount and pays at least the limit; the product of neither asset falls, however much of the fee is taken out, other assets are untouched, and both amounts are within the caps
proof fn c47_sell(w: World, v: World, who: AccountId, a: u32, b: u32, x: int, min: int)
    requires sold(w, v, who, a, b, x, min), a != hub(), who != pool(), 0 <= x <= u128::MAX,
    ensures ({ let y = free(v, b, who) - free(w, b, who);
        &&& free(v, a, who) == free(w, a, who) - x && res(v, a) == res(w, a) + x && y >= min && y > 0 && product_kept(w, v, a) && product_kept(w, v, b)
        &&& x * max_in() <= res(w, a) && y * max_out() <= res(w, b)
        &&& forall|c: u32, k: AccountId| c != a && c != b && (c != hub() || k != pool()) ==> #[trigger] (v.cur@)(c, k, Kind::Free) == (w.cur@)(c, k, Kind::Free)
        &&& forall|c: u32| c != a && c != b && listed(w, c) ==> #[trigger] v.Assets@.contains_key(c) && hubres(v, c) >= hubres(w, c) }),
{
    lem_fees(a); lem_fees(b); ax_free(w.cur, a, pool()); ax_free(w.cur, b, pool()); ax_free(v.cur, b, pool());
    let (ri, qi, ro, qo) = (res(w, a), hubres(w, a), res(w, b), hubres(w, b)); let (fa, fp) = (fees(b).0@, fees(a).1@);
    lem_swap_sell(w, a, b, x); lem_sell(ri, qi, ro, qo, x, fa, fp); lem_into(x, qi, ri);
    let (dqi, pf, o, p) = sell_parts(ri, qi, ro, qo, x, fa, fp)->0; lem_into(dqi - pf, ro, qo); lem_nofee(o, fa);
    lem_cap(x, ri, max_in() as int); lem_cap(p, ro, max_out() as int);
    assert(res(v, a) == ri + x);
    assert(hubres(v, a) >= qi - dqi); assert(hubres(v, b) >= qo + (dqi - pf));
    lem_mono(res(v, a), hubres(v, a), ri + x, qi - dqi, ri * qi);
    assert((ro - o) * (qo + (dqi - pf)) == (qo + (dqi - pf)) * (ro - o)) by (nonlinear_arith); assert(ro * qo == qo * ro) by (nonlinear_arith);
    lem_mono(res(v, b), hubres(v, b), ro - o, qo + (dqi - pf), ro * qo);
}
/// the hub put in for a purchase covers the fee on top of it as well, less the one unit the handler leaves
proof fn lem_buy_fee(ro: int, qo: int, a: int, fa: int)
    requires 0 <= ro <= u128::MAX, 0 <= qo <= u128::MAX, 0 <= a <= u128::MAX, 0 <= fa <= mil(), hub_for(ro, qo, a, fa) is Some,
    ensures ({ let t = a + imax(fee_on(fa, a) - 1, 0); 0 <= t <= ro && (ro - t) * (qo + hub_for(ro, qo, a, fa)->0) >= ro * qo }),
{
    lem_hub_for(ro, qo, a, fa); lem_nofee(ro, fa);
    let g = mil() - fa; let m = room(ro, a, fa); let d = hub_for(ro, qo, a, fa)->0; let e = imax(fee_on(fa, a) - 1, 0); let t = a + e;
    assert(0 <= fa * a) by (nonlinear_arith) requires 0 <= fa, 0 <= a;
    lem_div(g * ro, mil()); lem_div(qo * a, m);
    if fa == mil() { assert(g * ro == 0) by (nonlinear_arith) requires g == 0; lem_div_is(0, mil(), 0); }
    assert(g > 0);
    let s = imin(fa * a, u128::MAX as int); lem_div(s, g); lem_div_pos(s, g);
    assert(e * g <= fa * a) by {
        if fa == 0 { assert(e == 0); assert(0 * g == 0) by (nonlinear_arith); } else { let z = s / g; assert(0 <= e <= z); assert(e * g <= z * g) by (nonlinear_arith) requires e <= z, g > 0; }
    }
    assert(t * g <= a * mil()) by (nonlinear_arith) requires t == a + e, e * g <= fa * a, g == mil() - fa;
    assert(m * mil() <= g * ro - a * mil()) by (nonlinear_arith) requires m == (g * ro) / mil() - a, ((g * ro) / mil()) * mil() <= g * ro;
    assert((ro - t) * g >= m * mil()) by (nonlinear_arith) requires t * g <= a * mil(), m * mil() <= g * ro - a * mil();
    assert(ro - t > 0) by (nonlinear_arith) requires (ro - t) * g >= m * mil(), m > 0, g > 0, mil() > 0;
    assert(d * m >= qo * a) by (nonlinear_arith) requires d == (qo * a) / m + 1, qo * a < ((qo * a) / m) * m + m;
    assert((d * (ro - t)) * g >= (d * m) * mil()) by (nonlinear_arith) requires (ro - t) * g >= m * mil(), d >= 0;
    assert((d * m) * mil() >= (qo * a) * mil()) by (nonlinear_arith) requires d * m >= qo * a;
    assert((qo * t) * g <= (qo * a) * mil()) by (nonlinear_arith) requires t * g <= a * mil(), qo >= 0;
    assert(d * (ro - t) >= qo * t) by (nonlinear_arith) requires (d * (ro - t)) * g >= (qo * t) * g, g > 0;
    assert((ro - t) * (qo + d) >= ro * qo) by (nonlinear_arith) requires d * (ro - t) >= qo * t;
}
/// a purchase delivers exactly the amount for at most the limit, otherwise as a sale
proof fn c47_buy(w: World, v: World, who: AccountId, a: u32, b: u32, y: int, max: int)
    requires bought(w, v, who, a, b, y, max), a != hub(), who != pool(), 0 <= y <= u128::MAX,
    ensures ({ let x = free(w, a, who) - free(v, a, who);
        &&& free(v, b, who) == free(w, b, who) + y && res(v, a) == res(w, a) + x && 0 < x <= max && product_kept(w, v, a) && product_kept(w, v, b)
        &&& x * max_in() <= res(w, a) && y * max_out() <= res(w, b)
        &&& forall|c: u32, k: AccountId| c != a && c != b && (c != hub() || k != pool()) ==> #[trigger] (v.cur@)(c, k, Kind::Free) == (w.cur@)(c, k, Kind::Free)
        &&& forall|c: u32| c != a && c != b && listed(w, c) ==> #[trigger] v.Assets@.contains_key(c) && hubres(v, c) >= hubres(w, c) }),
{
    lem_fees(a); lem_fees(b); ax_free(w.cur, a, pool()); ax_free(w.cur, b, pool()); ax_free(v.cur, b, pool());
    let (ri, qi, ro, qo) = (res(w, a), hubres(w, a), res(w, b), hubres(w, b)); let (fa, fp) = (fees(b).0@, fees(a).1@);
    lem_swap_buy(w, a, b, y); lem_buy(ri, qi, ro, qo, y, fa, fp); lem_buy_fee(ro, qo, y, fa);
    c21_product(ri, qi, ro, qo, y, fa, fp, w.HubAssetImbalance.v.value as int); c21_conservation(ri, qi, ro, qo, y, fa, fp, w.HubAssetImbalance.v.value as int);
    let (dqo, dqi, dri) = buy_parts(ri, qi, ro, qo, y, fa, fp)->0;
    lem_cap(dri, ri, max_in() as int); lem_cap(y, ro, max_out() as int);
    let t = y + imax(fee_on(fa, y) - 1, 0);
    lem_mono(res(v, a), hubres(v, a), ri + dri, qi - dqi, ri * qi);
    lem_mono(res(v, b), hubres(v, b), ro - t, qo + dqo, ro * qo);
}
proof fn c47_hub_sell(w: World, v: World, who: AccountId, b: u32, x: int, min: int)
    requires sold(w, v, who, hub(), b, x, min), who != pool(), 0 <= x <= u128::MAX,
    ensures ({ let y = free(v, b, who) - free(w, b, who);
        &&& free(v, hub(), who) == free(w, hub(), who) - x && y >= min && y >= 0 && product_kept(w, v, b) && y * max_out() <= res(w, b) && x * max_in() <= hubres(w, b)
        &&& forall|c: u32| c != b ==> (listed(v, c) <==> listed(w, c)) && #[trigger] v.Assets@[c] == w.Assets@[c] }),
{
    lem_fees(b); ax_free(w.cur, b, pool()); ax_free(v.cur, b, pool());
    let (ro, qo) = (res(w, b), hubres(w, b)); let fa = fees(b).0@;
    lem_hub_sell(w, b, x); lem_into(x, ro, qo); let o = into_pool(x, ro, qo)->0; lem_nofee(o, fa);
    lem_cap(no_fee(o, fa), ro, max_out() as int); lem_cap(x, qo, max_in() as int);
    assert((ro - o) * (qo + x) == (qo + x) * (ro - o)) by (nonlinear_arith); assert(ro * qo == qo * ro) by (nonlinear_arith);
    lem_mono(res(v, b), hubres(v, b), ro - o, qo + x, ro * qo);
}
proof fn c47_hub_buy(w: World, v: World, who: AccountId, b: u32, y: int, max: int)
    requires bought(w, v, who, hub(), b, y, max), who != pool(), 0 <= y <= u128::MAX,
    ensures ({ let x = free(w, hub(), who) - free(v, hub(), who);
        &&& free(v, b, who) == free(w, b, who) + y && 0 < x <= max && product_kept(w, v, b) && y * max_out() <= res(w, b) && x * max_in() <= hubres(w, b)
        &&& forall|c: u32| c != b ==> (listed(v, c) <==> listed(w, c)) && #[trigger] v.Assets@[c] == w.Assets@[c] }),
{
    lem_fees(b); ax_free(w.cur, b, pool()); ax_free(v.cur, b, pool());
    let (ro, qo) = (res(w, b), hubres(w, b)); let fa = fees(b).0@;
    lem_hub_buy(w, b, y); lem_buy_fee(ro, qo, y, fa); let d = hub_for(ro, qo, y, fa)->0;
    lem_cap(y, ro, max_out() as int); lem_cap(d, qo, max_in() as int);
    lem_mono(res(v, b), hubres(v, b), ro - (y + imax(fee_on(fa, y) - 1, 0)), qo + d, ro * qo);
}
/// the hub reserves on the books of the assets below n
pub open spec fn hub_upto(m: Map<u32, AssetState<u128>>, n: int) -> int decreases n { if n <= 0 { 0 } else { hub_upto(m, n - 1) + if m.contains_key((n - 1) as u32) { m[(n - 1) as u32].hub_reserve as int } else { 0 } } }
/// the hub reserves of all assets
pub open spec fn hub_total(m: Map<u32, AssetState<u128>>) -> int { hub_upto(m, 0x1_0000_0000) }
proof fn lem_upto(m: Map<u32, AssetState<u128>>, k: u32, s: AssetState<u128>, n: int)
    requires m.contains_key(k), 0 <= n <= 0x1_0000_0000,
    ensures hub_upto(m.insert(k, s), n) == hub_upto(m, n) + if n > k { s.hub_reserve - m[k].hub_reserve } else { 0 },
    decreases n,
{ if n > 0 { lem_upto(m, k, s, n - 1); } }
proof fn lem_total(m: Map<u32, AssetState<u128>>, k: u32, s: AssetState<u128>) requires m.contains_key(k), ensures hub_total(m.insert(k, s)) == hub_total(m) + s.hub_reserve - m[k].hub_reserve
{ lem_upto(m, k, s, 0x1_0000_0000); }
/// what the pool holds of the hub asset beyond what its books say: no trade changes it, nor lets the imbalance turn positive
pub open spec fn unbooked(w: World) -> int { res(w, hub()) - hub_total(w.Assets@) }
proof fn c47_hub(w: World, v: World, who: AccountId, a: u32, b: u32, x: int, lim: int)
    requires who != pool(), 0 <= x <= u128::MAX, sold(w, v, who, a, b, x, lim) || bought(w, v, who, a, b, x, lim),
    ensures unbooked(v) == unbooked(w), sv(v.HubAssetImbalance.v) <= 0, v.HubAssetImbalance.v.negative, (v.cur.iss())(hub()) <= (w.cur.iss())(hub()), a != hub() ==> sv(v.HubAssetImbalance.v) >= sv(w.HubAssetImbalance.v) || !w.HubAssetImbalance.v.negative,
{
    if a == hub() {
        lem_hub_sell(w, b, x); lem_hub_buy(w, b, x);
        let t = if sold(w, v, who, a, b, x, lim) { hub_sell_of(w, b, x)->0 } else { hub_buy_of(w, b, x)->0 };
        lem_total(w.Assets@, b, without_reserve(shifted(pstate(w, b), t.0)));
        assert(v.Assets@ == w.Assets@.insert(b, without_reserve(shifted(pstate(w, b), t.0))));
    } else {
        lem_swap_sell(w, a, b, x); lem_swap_buy(w, a, b, x);
        let t = if sold(w, v, who, a, b, x, lim) { sell_of(w, a, b, x)->0 } else { buy_of(w, a, b, x)->0 };
        let (sa, sb) = (without_reserve(shifted(pstate(w, a), t.0)), without_reserve(shifted(pstate(w, b), t.1)));
        let m = w.Assets@.insert(a, sa); let n = m.insert(b, sb);
        lem_total(w.Assets@, a, sa); lem_total(m, b, sb);
        if t.3 > 0 { lem_total(n, hdx(), hub_added(n[hdx()], t.3)); }
        assert(v.Assets@ == with_hdx(n, t.3));
    }
}
}
fn main(){}
