//@ root pallets/circuit-breaker/src
//@ include prelude.rs
//@ include storage.inc.rs
//@ dropgen T
//@ subst T::Balance => u128
//@ subst T::AssetId => u32
//@ subst OriginFor<T> => Origin
//@ subst BlockNumberFor<T> => u32
//@ storage TradeVolumeLimitPerAsset AllowedTradeVolumeLimitPerAsset LiquidityAddLimitPerAsset AllowedAddLiquidityAmountPerAsset LiquidityRemoveLimitPerAsset AllowedRemoveLiquidityAmountPerAsset
//@ call T::OmnipoolHubAsset::get => w.hub_asset
//@ call T::WhitelistedAccounts::contains => w.whitelisted
//@ call T::TechnicalOrigin::ensure_origin => w.technical
//@ call Self::deposit_event => w.deposit_event
//@ call T::WeightInfo::ensure_pool_state_change_limit => a_weight
//@ call T::WeightInfo::ensure_add_liquidity_limit => a_weight
//@ call T::WeightInfo::ensure_remove_liquidity_limit => a_weight
//@ known ensure_signed_or_root
//@ include frame.inc.rs
//@ item pallets/circuit-breaker/src/lib.rs::Error derive none
impl From<Error> for DispatchError { #[verifier::external_body] fn from(e: Error) -> (r: Self) { DispatchError::E } }
//@ item pallets/circuit-breaker/src/lib.rs::TradeVolumeLimit derive Clone, Copy
//@ item pallets/circuit-breaker/src/lib.rs::LiquidityLimit derive Clone, Copy
//@ item pallets/circuit-breaker/src/lib.rs::Event derive none
/// the storage of the pallet and the configuration it reads
pub struct World {
    pub TradeVolumeLimitPerAsset: ValMap<u32, (u32, u32)>,
    pub AllowedTradeVolumeLimitPerAsset: OptMap<u32, TradeVolumeLimit>,
    pub LiquidityAddLimitPerAsset: ValMap<u32, Option<(u32, u32)>>,
    pub AllowedAddLiquidityAmountPerAsset: OptMap<u32, LiquidityLimit>,
    pub LiquidityRemoveLimitPerAsset: ValMap<u32, Option<(u32, u32)>>,
    pub AllowedRemoveLiquidityAmountPerAsset: OptMap<u32, LiquidityLimit>,
}
pub uninterp spec fn hub() -> u32;
pub uninterp spec fn white(a: AccountId) -> bool;
pub uninterp spec fn tech(o: Origin) -> bool;
impl World {
    #[verifier::external_body]
    pub fn hub_asset(&self) -> (r: u32) ensures r == hub() { unimplemented!() }
    #[verifier::external_body]
    pub fn whitelisted(&self, a: &AccountId) -> (r: bool) ensures r == white(*a) { unimplemented!() }
    #[verifier::external_body]
    pub fn technical(&self, o: Origin) -> (r: Result<(), DispatchError>) ensures r is Ok <==> tech(o) { unimplemented!() }
    pub fn deposit_event(&self, e: Event) { }
}
pub open spec fn m128() -> int { u128::MAX as int }
/// the limit an asset gets for a block: the share `l` of the reserve it is first touched with
pub open spec fn limit_of(reserve: int, l: (u32, u32)) -> Option<int> { if reserve * l.0 > m128() || l.1 == 0 { None } else { Some(reserve * l.0 / (l.1 as int)) } }
pub type Vols = Map<u32, TradeVolumeLimit>;
pub type Liqs = Map<u32, LiquidityLimit>;
pub open spec fn init_vol(m: Vols, a: u32, reserve: int, l: (u32, u32)) -> Option<Vols> {
    if a == hub() || m.contains_key(a) { Some(m) } else { match limit_of(reserve, l) { None => None, Some(x) => Some(m.insert(a, TradeVolumeLimit { volume_in: 0, volume_out: 0, limit: x as u128 })) } }
}
pub open spec fn net_ok(vi: int, vo: int, l: int) -> bool { iabs(vi - vo) <= l }
pub open spec fn add_vol(m: Vols, a: u32, vi: int, vo: int) -> Option<Vols> {
    if a == hub() { Some(m) } else if !m.contains_key(a) || m[a].volume_in + vi > m128() || m[a].volume_out + vo > m128() || !net_ok(m[a].volume_in + vi, m[a].volume_out + vo, m[a].limit as int) { None }
    else { Some(m.insert(a, TradeVolumeLimit { volume_in: (m[a].volume_in + vi) as u128, volume_out: (m[a].volume_out + vo) as u128, limit: m[a].limit })) }
}
pub open spec fn trade_vol(m: Vols, ai: u32, vi: int, ao: u32, vo: int) -> Option<Vols> { match add_vol(m, ai, vi, 0) { None => None, Some(m1) => add_vol(m1, ao, 0, vo) } }
pub open spec fn spec_trade(m: Vols, f: spec_fn(u32) -> (u32, u32), ai: u32, ri: int, vi: int, ao: u32, ro: int, vo: int) -> Option<Vols> {
    match init_vol(m, ai, ri, f(ai)) { None => None, Some(m1) => match init_vol(m1, ao, ro, f(ao)) { None => None, Some(m2) => trade_vol(m2, ai, vi, ao, vo) } }
}
pub open spec fn init_liq(m: Liqs, a: u32, reserve: int, l: Option<(u32, u32)>) -> Option<Liqs> {
    if l is None || m.contains_key(a) { Some(m) } else { match limit_of(reserve, l->0) { None => None, Some(x) => Some(m.insert(a, LiquidityLimit { liquidity: 0, limit: x as u128 })) } }
}
pub open spec fn add_liq(m: Liqs, a: u32, v: int, l: Option<(u32, u32)>) -> Option<Liqs> {
    if a == hub() || l is None { Some(m) } else if !m.contains_key(a) || m[a].liquidity + v > m128() || m[a].liquidity + v > m[a].limit { None }
    else { Some(m.insert(a, LiquidityLimit { liquidity: (m[a].liquidity + v) as u128, limit: m[a].limit })) }
}
pub open spec fn limits_same(a: World, b: World) -> bool { a.TradeVolumeLimitPerAsset == b.TradeVolumeLimitPerAsset && a.LiquidityAddLimitPerAsset == b.LiquidityAddLimitPerAsset && a.LiquidityRemoveLimitPerAsset == b.LiquidityRemoveLimitPerAsset }
pub open spec fn liqs_same(a: World, b: World) -> bool { a.AllowedAddLiquidityAmountPerAsset == b.AllowedAddLiquidityAmountPerAsset && a.AllowedRemoveLiquidityAmountPerAsset == b.AllowedRemoveLiquidityAmountPerAsset }
pub open spec fn valid_limit(l: (u32, u32)) -> bool { 1 <= l.0 <= 10_000 && 1 <= l.1 <= 10_000 }

pub open spec fn exempt(o: Origin) -> Option<bool> { match signer(o) { None => None::<bool>, Some(None) => Some(true), Some(Some(a)) => Some(white(a)) } }
pub open spec fn spec_liq(w: World, a: u32, initial: int, v: int, add: bool) -> Option<(Liqs, Liqs)> {
    let x = if a == hub() { Some(w.AllowedAddLiquidityAmountPerAsset@) } else { init_liq(w.AllowedAddLiquidityAmountPerAsset@, a, initial, (w.LiquidityAddLimitPerAsset@)(a)) };
    let y = if a == hub() { Some(w.AllowedRemoveLiquidityAmountPerAsset@) } else { init_liq(w.AllowedRemoveLiquidityAmountPerAsset@, a, initial, (w.LiquidityRemoveLimitPerAsset@)(a)) };
    if x is None || y is None { None } else if add { match add_liq(x->0, a, v, (w.LiquidityAddLimitPerAsset@)(a)) { None => None, Some(x2) => Some((x2, y->0)) } }
    else { match add_liq(y->0, a, v, (w.LiquidityRemoveLimitPerAsset@)(a)) { None => None, Some(y2) => Some((x->0, y2)) } }
}
impl TradeVolumeLimit {
//@ fn pallets/circuit-breaker/src/lib.rs::TradeVolumeLimit::update_amounts(amount_in, amount_out)
//@ ensures
//@ r is Ok <==> (old(self).volume_in + amount_in <= m128() && old(self).volume_out + amount_out <= m128()),
//@ r is Ok ==> final(self).volume_in == old(self).volume_in + amount_in && final(self).volume_out == old(self).volume_out + amount_out,
//@ final(self).limit == old(self).limit,
//@ end
//@ fn pallets/circuit-breaker/src/lib.rs::TradeVolumeLimit::check_outflow_limit()
//@ ensures r is Ok <==> self.volume_out - self.volume_in <= self.limit
//@ end
//@ fn pallets/circuit-breaker/src/lib.rs::TradeVolumeLimit::check_influx_limit()
//@ ensures r is Ok <==> self.volume_in - self.volume_out <= self.limit
//@ end
//@ fn pallets/circuit-breaker/src/lib.rs::TradeVolumeLimit::check_limits()
//@ ensures r is Ok <==> net_ok(self.volume_in as int, self.volume_out as int, self.limit as int)
//@ end
}
impl LiquidityLimit {
//@ fn pallets/circuit-breaker/src/lib.rs::LiquidityLimit::update_amount(liquidity_in)
//@ ensures
//@ r is Ok <==> old(self).liquidity + liquidity_in <= m128(),
//@ r is Ok ==> final(self).liquidity == old(self).liquidity + liquidity_in,
//@ final(self).limit == old(self).limit,
//@ end
//@ fn pallets/circuit-breaker/src/lib.rs::LiquidityLimit::check_limit()
//@ ensures r is Ok <==> self.liquidity <= self.limit
//@ end
}
pub struct Pallet { }
impl Pallet {
//@ fn pallets/circuit-breaker/src/lib.rs::Pallet::validate_limit(limit)
//@ ensures r is Ok <==> valid_limit(limit)
//@ end
//@ fn pallets/circuit-breaker/src/lib.rs::Pallet::calculate_limit(liquidity, limit)
//@ ensures match limit_of(liquidity as int, limit) { None => r is Err, Some(x) => r is Ok && r->Ok_0 as int == x }
//@ end
//@ fn pallets/circuit-breaker/src/lib.rs::Pallet::initialize_trade_limit(asset_id, initial_asset_reserve)
//@ world
//@ ensures
//@ match init_vol(old(w).AllowedTradeVolumeLimitPerAsset@, asset_id, initial_asset_reserve as int, (old(w).TradeVolumeLimitPerAsset@)(asset_id)) { None => r is Err, Some(m) => r is Ok && final(w).AllowedTradeVolumeLimitPerAsset@ == m },
//@ limits_same(*old(w), *final(w)), liqs_same(*old(w), *final(w)),
//@ end
//@ fn pallets/circuit-breaker/src/lib.rs::Pallet::ensure_and_update_trade_volume_limit(asset_in, amount_in, asset_out, amount_out)
//@ world
//@ ensures
//@ match trade_vol(old(w).AllowedTradeVolumeLimitPerAsset@, asset_in, amount_in as int, asset_out, amount_out as int) { None => r is Err, Some(m) => r is Ok && final(w).AllowedTradeVolumeLimitPerAsset@ == m },
//@ limits_same(*old(w), *final(w)), liqs_same(*old(w), *final(w)),
//@ end
//@ fn pallets/circuit-breaker/src/lib.rs::Pallet::calculate_and_store_liquidity_limits(asset_id, initial_liquidity)
//@ world
//@ ensures
//@ limits_same(*old(w), *final(w)), old(w).AllowedTradeVolumeLimitPerAsset == final(w).AllowedTradeVolumeLimitPerAsset,
//@ ({ let a = if asset_id == hub() { Some(old(w).AllowedAddLiquidityAmountPerAsset@) } else { init_liq(old(w).AllowedAddLiquidityAmountPerAsset@, asset_id, initial_liquidity as int, (old(w).LiquidityAddLimitPerAsset@)(asset_id)) };
//@    let b = if asset_id == hub() { Some(old(w).AllowedRemoveLiquidityAmountPerAsset@) } else { init_liq(old(w).AllowedRemoveLiquidityAmountPerAsset@, asset_id, initial_liquidity as int, (old(w).LiquidityRemoveLimitPerAsset@)(asset_id)) };
//@    if a is None || b is None { r is Err } else { r is Ok && final(w).AllowedAddLiquidityAmountPerAsset@ == a->0 && final(w).AllowedRemoveLiquidityAmountPerAsset@ == b->0 } }),
//@ end
//@ fn pallets/circuit-breaker/src/lib.rs::Pallet::ensure_and_update_add_liquidity_limit(asset_id, added_liquidity)
//@ world
//@ ensures
//@ limits_same(*old(w), *final(w)), old(w).AllowedTradeVolumeLimitPerAsset == final(w).AllowedTradeVolumeLimitPerAsset, old(w).AllowedRemoveLiquidityAmountPerAsset == final(w).AllowedRemoveLiquidityAmountPerAsset,
//@ match add_liq(old(w).AllowedAddLiquidityAmountPerAsset@, asset_id, added_liquidity as int, (old(w).LiquidityAddLimitPerAsset@)(asset_id)) { None => r is Err, Some(m) => r is Ok && final(w).AllowedAddLiquidityAmountPerAsset@ == m },
//@ end
//@ fn pallets/circuit-breaker/src/lib.rs::Pallet::ensure_and_update_remove_liquidity_limit(asset_id, removed_liquidity)
//@ world
//@ ensures
//@ limits_same(*old(w), *final(w)), old(w).AllowedTradeVolumeLimitPerAsset == final(w).AllowedTradeVolumeLimitPerAsset, old(w).AllowedAddLiquidityAmountPerAsset == final(w).AllowedAddLiquidityAmountPerAsset,
//@ match add_liq(old(w).AllowedRemoveLiquidityAmountPerAsset@, asset_id, removed_liquidity as int, (old(w).LiquidityRemoveLimitPerAsset@)(asset_id)) { None => r is Err, Some(m) => r is Ok && final(w).AllowedRemoveLiquidityAmountPerAsset@ == m },
//@ end
//@ fn pallets/circuit-breaker/src/lib.rs::Pallet::ensure_pool_state_change_limit(asset_in, asset_in_reserve, amount_in, asset_out, asset_out_reserve, amount_out)
//@ world
//@ ensures
//@ limits_same(*old(w), *final(w)), liqs_same(*old(w), *final(w)),
//@ match spec_trade(old(w).AllowedTradeVolumeLimitPerAsset@, old(w).TradeVolumeLimitPerAsset@, asset_in, asset_in_reserve as int, amount_in as int, asset_out, asset_out_reserve as int, amount_out as int) {
//@   None => r is Err, Some(m) => r is Ok && final(w).AllowedTradeVolumeLimitPerAsset@ == m },
//@ end
//@ fn pallets/circuit-breaker/src/lib.rs::Pallet::is_origin_whitelisted_or_root(origin)
//@ world
//@ ensures *final(w) == *old(w),
//@ okv(r) == (match signer(origin) { None => None::<bool>, Some(None) => Some(true), Some(Some(a)) => Some(white(a)) }),
//@ end
//@ fn pallets/circuit-breaker/src/lib.rs::Pallet::ensure_add_liquidity_limit(origin, asset_id, initial_liquidity, added_liquidity)
//@ world
//@ ensures
//@ limits_same(*old(w), *final(w)), old(w).AllowedTradeVolumeLimitPerAsset == final(w).AllowedTradeVolumeLimitPerAsset,
//@ (exempt(origin) == Some(true)) ==> r is Ok && *final(w) == *old(w),
//@ exempt(origin) is None ==> r is Err,
//@ (exempt(origin) == Some(false)) ==> ((r is Ok) <==> spec_liq(*old(w), asset_id, initial_liquidity as int, added_liquidity as int, true) is Some),
//@ (exempt(origin) == Some(false)) && r is Ok ==> spec_liq(*old(w), asset_id, initial_liquidity as int, added_liquidity as int, true)->0 == (final(w).AllowedAddLiquidityAmountPerAsset@, final(w).AllowedRemoveLiquidityAmountPerAsset@),
//@ end
//@ fn pallets/circuit-breaker/src/lib.rs::Pallet::ensure_remove_liquidity_limit(origin, asset_id, initial_liquidity, removed_liquidity)
//@ world
//@ ensures
//@ limits_same(*old(w), *final(w)), old(w).AllowedTradeVolumeLimitPerAsset == final(w).AllowedTradeVolumeLimitPerAsset,
//@ (exempt(origin) == Some(true)) ==> r is Ok && *final(w) == *old(w),
//@ exempt(origin) is None ==> r is Err,
//@ (exempt(origin) == Some(false)) ==> ((r is Ok) <==> spec_liq(*old(w), asset_id, initial_liquidity as int, removed_liquidity as int, false) is Some),
//@ (exempt(origin) == Some(false)) && r is Ok ==> spec_liq(*old(w), asset_id, initial_liquidity as int, removed_liquidity as int, false)->0 == (final(w).AllowedAddLiquidityAmountPerAsset@, final(w).AllowedRemoveLiquidityAmountPerAsset@),
//@ end
//@ fn pallets/circuit-breaker/src/lib.rs::Pallet::on_finalize(n)
//@ world
//@ ensures limits_same(*old(w), *final(w)),
//@ final(w).AllowedTradeVolumeLimitPerAsset@ == Map::<u32, TradeVolumeLimit>::empty(), final(w).AllowedAddLiquidityAmountPerAsset@ == Map::<u32, LiquidityLimit>::empty(), final(w).AllowedRemoveLiquidityAmountPerAsset@ == Map::<u32, LiquidityLimit>::empty(),
//@ end
//@ fn pallets/circuit-breaker/src/lib.rs::Pallet::set_trade_volume_limit(origin, asset_id, trade_volume_limit)
//@ world
//@ ensures liqs_same(*old(w), *final(w)), old(w).AllowedTradeVolumeLimitPerAsset == final(w).AllowedTradeVolumeLimitPerAsset,
//@ old(w).LiquidityAddLimitPerAsset == final(w).LiquidityAddLimitPerAsset, old(w).LiquidityRemoveLimitPerAsset == final(w).LiquidityRemoveLimitPerAsset,
//@ r is Ok <==> tech(origin) && asset_id != hub() && valid_limit(trade_volume_limit),
//@ r is Err ==> final(w).TradeVolumeLimitPerAsset == old(w).TradeVolumeLimitPerAsset,
//@ r is Ok ==> (forall|a: u32| #[trigger] (final(w).TradeVolumeLimitPerAsset@)(a) == (if a == asset_id { trade_volume_limit } else { (old(w).TradeVolumeLimitPerAsset@)(a) })),
//@ end
//@ fn pallets/circuit-breaker/src/lib.rs::Pallet::set_add_liquidity_limit(origin, asset_id, liquidity_limit)
//@ world
//@ ensures liqs_same(*old(w), *final(w)), old(w).AllowedTradeVolumeLimitPerAsset == final(w).AllowedTradeVolumeLimitPerAsset,
//@ old(w).TradeVolumeLimitPerAsset == final(w).TradeVolumeLimitPerAsset, old(w).LiquidityRemoveLimitPerAsset == final(w).LiquidityRemoveLimitPerAsset,
//@ r is Ok <==> tech(origin) && asset_id != hub() && (liquidity_limit is None || valid_limit(liquidity_limit->0)),
//@ r is Err ==> final(w).LiquidityAddLimitPerAsset == old(w).LiquidityAddLimitPerAsset,
//@ r is Ok ==> (forall|a: u32| #[trigger] (final(w).LiquidityAddLimitPerAsset@)(a) == (if a == asset_id { liquidity_limit } else { (old(w).LiquidityAddLimitPerAsset@)(a) })),
//@ end
//@ fn pallets/circuit-breaker/src/lib.rs::Pallet::set_remove_liquidity_limit(origin, asset_id, liquidity_limit)
//@ world
//@ ensures liqs_same(*old(w), *final(w)), old(w).AllowedTradeVolumeLimitPerAsset == final(w).AllowedTradeVolumeLimitPerAsset,
//@ old(w).TradeVolumeLimitPerAsset == final(w).TradeVolumeLimitPerAsset, old(w).LiquidityAddLimitPerAsset == final(w).LiquidityAddLimitPerAsset,
//@ r is Ok <==> tech(origin) && asset_id != hub() && (liquidity_limit is None || valid_limit(liquidity_limit->0)),
//@ r is Err ==> final(w).LiquidityRemoveLimitPerAsset == old(w).LiquidityRemoveLimitPerAsset,
//@ r is Ok ==> (forall|a: u32| #[trigger] (final(w).LiquidityRemoveLimitPerAsset@)(a) == (if a == asset_id { liquidity_limit } else { (old(w).LiquidityRemoveLimitPerAsset@)(a) })),
//@ end
}
// ---------------------------------------------------------------- property lemmas
pub open spec fn inv(m: Vols) -> bool { forall|a: u32| #[trigger] m.contains_key(a) ==> a != hub() && net_ok(m[a].volume_in as int, m[a].volume_out as int, m[a].limit as int) }
proof fn lem_limit(reserve: int, l: (u32, u32))
    requires 0 <= reserve,
    ensures limit_of(reserve, l) matches Some(x) ==> 0 <= x <= m128() && x * l.1 <= reserve * l.0,
{
    assert(reserve * l.0 >= 0) by (nonlinear_arith) requires reserve >= 0;
    if l.1 != 0 { lem_div(reserve * l.0, l.1 as int); lem_div_pos(reserve * l.0, l.1 as int); assert(reserve * l.0 / (l.1 as int) <= reserve * l.0) by (nonlinear_arith) requires (reserve * l.0) / (l.1 as int) * l.1 <= reserve * l.0, l.1 >= 1, (reserve * l.0) / (l.1 as int) >= 0; }
}
/// whatever is traded in a block: no asset's net flow, in or out, exceeds its limit; the hub asset is not tracked; a limit once set for the block stays,
/// and it is at most the configured share of the reserve the asset was first touched with
proof fn c41_trade(m: Vols, f: spec_fn(u32) -> (u32, u32), ai: u32, ri: int, vi: int, ao: u32, ro: int, vo: int)
    requires inv(m), 0 <= ri, 0 <= ro, 0 <= vi, 0 <= vo,
    ensures spec_trade(m, f, ai, ri, vi, ao, ro, vo) matches Some(m2) ==> inv(m2)
        && (forall|a: u32| #[trigger] m.contains_key(a) ==> m2.contains_key(a) && m2[a].limit == m[a].limit)
        && (forall|a: u32| a != ai && a != ao ==> (#[trigger] m2.contains_key(a) == m.contains_key(a)) && m2[a] == m[a])
        && (ai != hub() && ai != ao ==> m2.contains_key(ai) && m2[ai].volume_in == (if m.contains_key(ai) { m[ai].volume_in as int } else { 0 }) + vi && m2[ai].volume_out == (if m.contains_key(ai) { m[ai].volume_out as int } else { 0 }))
        && (ao != hub() && ai != ao ==> m2.contains_key(ao) && m2[ao].volume_out == (if m.contains_key(ao) { m[ao].volume_out as int } else { 0 }) + vo && m2[ao].volume_in == (if m.contains_key(ao) { m[ao].volume_in as int } else { 0 }))
        && (ai != hub() && !m.contains_key(ai) ==> m2[ai].limit * f(ai).1 <= ri * f(ai).0)
        && (ao != hub() && ao != ai && !m.contains_key(ao) ==> m2[ao].limit * f(ao).1 <= ro * f(ao).0),
{ lem_limit(ri, f(ai)); lem_limit(ro, f(ao)); }
/// the start of a block satisfies the invariant
proof fn c41_start() ensures inv(Map::<u32, TradeVolumeLimit>::empty()) { }
pub open spec fn inv_liq(m: Liqs) -> bool { forall|a: u32| #[trigger] m.contains_key(a) ==> m[a].liquidity <= m[a].limit }
/// whatever liquidity is added (removed) in a block by accounts that are not exempt: no asset's total exceeds its limit, and limits set for the block stay
proof fn c41_liquidity(w: World, a: u32, initial: int, v: int, add: bool)
    requires inv_liq(w.AllowedAddLiquidityAmountPerAsset@), inv_liq(w.AllowedRemoveLiquidityAmountPerAsset@), 0 <= initial, 0 <= v,
    ensures spec_liq(w, a, initial, v, add) matches Some((x, y)) ==> inv_liq(x) && inv_liq(y)
        && (forall|b: u32| #[trigger] w.AllowedAddLiquidityAmountPerAsset@.contains_key(b) ==> x.contains_key(b) && x[b].limit == w.AllowedAddLiquidityAmountPerAsset@[b].limit)
        && (forall|b: u32| #[trigger] w.AllowedRemoveLiquidityAmountPerAsset@.contains_key(b) ==> y.contains_key(b) && y[b].limit == w.AllowedRemoveLiquidityAmountPerAsset@[b].limit)
        && (add && a != hub() && (w.LiquidityAddLimitPerAsset@)(a) is Some ==> x.contains_key(a) && x[a].liquidity == (if w.AllowedAddLiquidityAmountPerAsset@.contains_key(a) { w.AllowedAddLiquidityAmountPerAsset@[a].liquidity as int } else { 0 }) + v)
        && (!add && a != hub() && (w.LiquidityRemoveLimitPerAsset@)(a) is Some ==> y.contains_key(a) && y[a].liquidity == (if w.AllowedRemoveLiquidityAmountPerAsset@.contains_key(a) { w.AllowedRemoveLiquidityAmountPerAsset@[a].liquidity as int } else { 0 }) + v),
{
    if (w.LiquidityAddLimitPerAsset@)(a) is Some { lem_limit(initial, (w.LiquidityAddLimitPerAsset@)(a)->0); }
    if (w.LiquidityRemoveLimitPerAsset@)(a) is Some { lem_limit(initial, (w.LiquidityRemoveLimitPerAsset@)(a)->0); }
}
}
fn main(){}
