//@ root pallets/xyk/src
//@ root traits/src
//@ root math/src
//@ subst math.rs|Rounding => PerRounding
//@ include prelude.rs
//@ include fixed.rs
//@ include mathlib.rs
//@ include storage.inc.rs
//@ dropgen T
//@ subst T::AccountId => AccountId
//@ subst OriginFor<T> => Origin
//@ subst sp_runtime::DispatchError => DispatchError
//@ subst lib.rs|Amount => u128
//@ subst dispatch::DispatchResult => DispatchResult
//@ subst Self::Error => DispatchError
//@ storage ShareToken TotalLiquidity PoolAssets
//@ call AMM::sell => Self::amm_sell
//@ call AMM::buy => Self::amm_buy
//@ call T::AssetPairAccountId::from_assets => w.from_assets
//@ call T::CanCreatePool::can_create => w.can_create
//@ call T::AssetRegistry::get_or_register_insufficient_asset => w.reg.get_or_register_insufficient_asset
//@ call T::AMMHandler::on_create_pool => w.on_create_pool
//@ call T::AMMHandler::on_trade => w.on_trade
//@ call T::AMMHandler::on_liquidity_changed => w.on_liquidity_changed
//@ call T::NonDustableWhitelistHandler::add_account => w.add_account
//@ call T::NonDustableWhitelistHandler::remove_account => w.remove_account
//@ call T::MinPoolLiquidity::get => w.min_pool_liquidity
//@ call T::MinTradingLimit::get => w.min_trading_limit
//@ call T::MaxInRatio::get => w.max_in_ratio
//@ call T::MaxOutRatio::get => w.max_out_ratio
//@ call T::NativeAssetId::get => w.native_asset
//@ call T::GetExchangeFee::get => w.exchange_fee
//@ call T::DiscountedFee::get => w.discounted_fee
//@ call T::OracleSource::get => w.oracle_source
//@ call T::Currency::free_balance => w.cur.free_balance
//@ call T::Currency::total_balance => w.cur.total_balance
//@ call T::Currency::transfer => w.cur.transfer
//@ call T::Currency::deposit => w.cur.deposit
//@ call T::Currency::withdraw => w.cur.withdraw
//@ call Self::deposit_event => w.deposit_event
//@ known ensure_signed amm_sell amm_buy
//@ worldfns amm_sell amm_buy
//@ include frame.inc.rs
//@ include currency.inc.rs
pub type Balance = u128;
pub type AssetId = u32;
//@ include fee.inc.rs
//@ include xyk_trade.inc.rs
//@ include xyk_liq.inc.rs
//@ item traits/src/registry.rs::AssetKind derive none
//@ item traits/src/router.rs::PoolType derive Clone, Copy, PartialEq, Eq, Structural
//@ item traits/src/router.rs::ExecutorError derive none
//@ item traits/src/lib.rs::AMMTransfer derive none
//@ item pallets/xyk/src/types.rs::AssetPair derive Clone, Copy
//@ item pallets/xyk/src/lib.rs::Error derive none
impl From<Error> for DispatchError { #[verifier::external_body] fn from(e: Error) -> (r: Self) { DispatchError::E } }
//@ item pallets/xyk/src/lib.rs::Event derive none
//@ item math/src/ratio.rs::Ratio derive Clone, Copy
impl Ratio {
//@ fn math/src/ratio.rs::Ratio::new(n, d)
//@ ensures r.n == n, r.d == (if d == 0 { 1u128 } else { d })
//@ end
}
pub type Pair = AssetPair;
pub type Transfer = AMMTransfer<AccountId, u32, AssetPair, u128>;
/// the bytes of a pool's name: a function of the unordered pair of assets
pub struct PoolName { pub n: (u32, u32) }
impl PoolName { #[verifier::external_body] pub fn try_into(self) -> (r: Result<PoolName, ConvErr>) ensures r matches Ok(x) ==> x == self { unimplemented!() } }
pub open spec fn lo(a: u32, b: u32) -> u32 { if a <= b { a } else { b } }
pub open spec fn hi(a: u32, b: u32) -> u32 { if a <= b { b } else { a } }
pub open spec fn name_of(a: u32, b: u32) -> PoolName { PoolName { n: (lo(a, b), hi(a, b)) } }
impl AssetPair { #[verifier::external_body] pub fn name(&self) -> (r: PoolName) ensures r == name_of(self.asset_in, self.asset_out) { unimplemented!() } }
/// the asset registry: which id has which name
#[verifier::external_body]
pub struct Reg { o: u8 }
impl Reg {
    pub uninterp spec fn view(&self) -> Map<PoolName, u32>;
    /// the ids given out, to pool shares or otherwise
    pub uninterp spec fn ids(&self) -> Set<u32>;
    #[verifier::external_body]
    pub fn get_or_register_insufficient_asset(&mut self, name: PoolName, kind: AssetKind, ed: Option<u128>, symbol: Option<u8>, decimals: Option<u8>, location: Option<u8>, limit: Option<u128>) -> (r: Result<u32, DispatchError>)
        ensures r matches Ok(i) ==> if old(self)@.contains_key(name) { i == old(self)@[name] && *final(self) == *old(self) }
            else { !old(self).ids().contains(i) && final(self)@ == old(self)@.insert(name, i) && final(self).ids() == old(self).ids().insert(i) }
    { unimplemented!() }
}
/// what the oracle was told: the pair of assets, the amounts, the liquidity after, and the price
pub struct Told { pub trade: bool, pub a: u32, pub b: u32, pub amount_a: int, pub amount_b: int, pub liquidity_a: int, pub liquidity_b: int }
pub struct Source { s: u64 }
#[verifier::external_body]
pub struct Oracle { o: u8 }
impl Oracle { pub uninterp spec fn view(&self) -> Seq<Told>; }
pub struct World { pub ShareToken: ValKeys<AccountId, u32>, pub TotalLiquidity: ValKeys<AccountId, u128>, pub PoolAssets: OptMap<AccountId, (u32, u32)>, pub cur: Cur, pub reg: Reg, pub oracle: Oracle }
/// the account of a pool: a hash of the unordered pair of assets, so the same for both orders and different for different pairs
pub uninterp spec fn acc_of(lo: u32, hi: u32) -> AccountId;
pub open spec fn pool(a: u32, b: u32) -> AccountId { acc_of(lo(a, b), hi(a, b)) }
pub uninterp spec fn min_pool() -> u128;
pub uninterp spec fn min_trade() -> u128;
pub uninterp spec fn max_in() -> u128;
pub uninterp spec fn max_out() -> u128;
pub uninterp spec fn native() -> u32;
pub uninterp spec fn fee_rate() -> (u32, u32);
pub uninterp spec fn fee_rate_disc() -> (u32, u32);
pub uninterp spec fn creatable(a: u32, b: u32) -> bool;
impl World {
    #[verifier::external_body]
    pub fn from_assets(&self, a: u32, b: u32, id: &str) -> (r: AccountId) ensures r == pool(a, b) { unimplemented!() }
    #[verifier::external_body]
    pub fn can_create(&self, a: u32, b: u32) -> (r: bool) ensures r == creatable(a, b) { unimplemented!() }
    #[verifier::external_body]
    pub fn min_pool_liquidity(&self) -> (r: u128) ensures r == min_pool() { unimplemented!() }
    #[verifier::external_body]
    pub fn min_trading_limit(&self) -> (r: u128) ensures r == min_trade() { unimplemented!() }
    #[verifier::external_body]
    pub fn max_in_ratio(&self) -> (r: u128) ensures r == max_in() { unimplemented!() }
    #[verifier::external_body]
    pub fn max_out_ratio(&self) -> (r: u128) ensures r == max_out() { unimplemented!() }
    #[verifier::external_body]
    pub fn native_asset(&self) -> (r: u32) ensures r == native() { unimplemented!() }
    #[verifier::external_body]
    pub fn exchange_fee(&self) -> (r: (u32, u32)) ensures r == fee_rate() { unimplemented!() }
    #[verifier::external_body]
    pub fn discounted_fee(&self) -> (r: (u32, u32)) ensures r == fee_rate_disc() { unimplemented!() }
    #[verifier::external_body]
    pub fn oracle_source(&self) -> (r: Source) { unimplemented!() }
    /// the handlers of the chain: the price oracle, which keeps its own books only; an error comes with the weight spent
    #[verifier::external_body]
    pub fn on_create_pool(&mut self, a: u32, b: u32) -> (r: DispatchResult) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn on_trade(&mut self, s: Source, a: u32, b: u32, amount_a: u128, amount_b: u128, liquidity_a: u128, liquidity_b: u128, price: Ratio) -> (r: Result<Weight, (Weight, DispatchError)>)
        ensures same(*final(self), *old(self)), final(self).oracle@ == old(self).oracle@.push(Told { trade: true, a, b, amount_a: amount_a as int, amount_b: amount_b as int, liquidity_a: liquidity_a as int, liquidity_b: liquidity_b as int }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn on_liquidity_changed(&mut self, s: Source, a: u32, b: u32, amount_a: u128, amount_b: u128, liquidity_a: u128, liquidity_b: u128, price: Ratio) -> (r: Result<Weight, (Weight, DispatchError)>)
        ensures same(*final(self), *old(self)), final(self).oracle@ == old(self).oracle@.push(Told { trade: false, a, b, amount_a: amount_a as int, amount_b: amount_b as int, liquidity_a: liquidity_a as int, liquidity_b: liquidity_b as int }),
    { unimplemented!() }
    /// the list of accounts not to be dusted, kept by another pallet
    #[verifier::external_body]
    pub fn add_account(&mut self, a: &AccountId) -> (r: DispatchResult) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_account(&mut self, a: &AccountId) -> (r: DispatchResult) ensures *final(self) == *old(self) { unimplemented!() }
    pub fn deposit_event(&self, e: Event) { }
}
/// everything but the oracle
pub open spec fn same(v: World, w: World) -> bool { same_books(v, w) && v.cur == w.cur }
pub open spec fn same_books(v: World, w: World) -> bool { v.ShareToken == w.ShareToken && v.TotalLiquidity == w.TotalLiquidity && v.PoolAssets == w.PoolAssets && v.reg == w.reg }
pub open spec fn signed(o: Origin) -> Option<AccountId> { match signer(o) { Some(Some(a)) => Some(a), _ => None } }
pub open spec fn free(w: World, a: u32, k: AccountId) -> int { (w.cur@)(a, k, Kind::Free) }
pub open spec fn open_pool(w: World, a: u32, b: u32) -> bool { w.ShareToken@.contains_key(pool(a, b)) }
pub open spec fn share_of(w: World, a: u32, b: u32) -> u32 { w.ShareToken.at(pool(a, b)) }
pub open spec fn shares(w: World, a: u32, b: u32) -> int { w.TotalLiquidity.at(pool(a, b)) as int }
pub open spec fn rate(discount: bool) -> (u32, u32) { if discount { fee_rate_disc() } else { fee_rate() } }
pub open spec fn fee_for(x: int, discount: bool) -> Option<int> { spec_fee(x, rate(discount).0 as int, rate(discount).1 as int) }
/// what a discounted trade of asset a pays for its fee f in the native asset
pub open spec fn spec_discount(w: World, a: u32, f: int, discount: bool) -> Option<int> {
    if !discount { Some(0int) } else if !open_pool(w, a, native()) { None } else { spec_spot(free(w, a, pool(a, native())), free(w, native(), pool(a, native())), f) }
}
pub open spec fn pays_native(w: World, who: AccountId, a: u32, f: int, discount: bool) -> bool {
    discount ==> spec_discount(w, a, f, discount) is Some && free(w, native(), who) >= spec_discount(w, a, f, discount)->0
}
pub open spec fn out_of(w: World, p: Pair, x: int) -> Option<int> { spec_sell(free(w, p.asset_in, pool(p.asset_in, p.asset_out)), free(w, p.asset_out, pool(p.asset_in, p.asset_out)), x) }
pub open spec fn in_of(w: World, p: Pair, y: int) -> Option<int> { spec_buy(free(w, p.asset_in, pool(p.asset_in, p.asset_out)), free(w, p.asset_out, pool(p.asset_in, p.asset_out)), y) }
/// when a sale is accepted: a pool with enough liquidity, amounts above the minimum and within the caps, the seller has it, and gets at least their limit
pub open spec fn sell_ok(w: World, who: AccountId, p: Pair, x: int, min: int, discount: bool) -> bool {
    let q = pool(p.asset_in, p.asset_out); let y = out_of(w, p, x)->0; let f = fee_for(y, discount)->0;
    &&& x >= min_trade() && open_pool(w, p.asset_in, p.asset_out) && free(w, p.asset_in, who) >= x
    &&& max_in() > 0 && max_out() > 0 && x <= free(w, p.asset_in, q) / (max_in() as int)
    &&& out_of(w, p, x) is Some && y <= free(w, p.asset_out, q) / (max_out() as int) && y < free(w, p.asset_out, q)
    &&& fee_for(y, discount) is Some && f <= y && y - f >= min
    &&& pays_native(w, who, p.asset_in, f, discount)
}
pub open spec fn buy_ok(w: World, who: AccountId, p: Pair, y: int, max: int, discount: bool) -> bool {
    let q = pool(p.asset_in, p.asset_out); let x = in_of(w, p, y)->0; let f = fee_for(x, discount)->0;
    &&& y >= min_trade() && open_pool(w, p.asset_in, p.asset_out)
    &&& max_in() > 0 && max_out() > 0 && y <= free(w, p.asset_out, q) / (max_out() as int) && y < free(w, p.asset_out, q)
    &&& in_of(w, p, y) is Some && x <= free(w, p.asset_in, q) / (max_in() as int)
    &&& fee_for(x, discount) is Some && x + f <= max && x + f <= free(w, p.asset_in, who)
    &&& pays_native(w, who, p.asset_out, f, discount)
}
/// what a trade moves: x of asset_in from who to the pool, y of asset_out from the pool to who, and n of the native asset burned
pub open spec fn traded(p: Pair, who: AccountId, x: int, y: int, n: int, b: u32, k: AccountId, d: Kind) -> int {
    at(b == p.asset_in && k == pool(p.asset_in, p.asset_out) && d is Free, x) - at(b == p.asset_in && k == who && d is Free, x)
    - at(b == p.asset_out && k == pool(p.asset_in, p.asset_out) && d is Free, y) + at(b == p.asset_out && k == who && d is Free, y) - at(b == native() && k == who && d is Free, n)
}
pub open spec fn trade_done(w: World, v: World, p: Pair, who: AccountId, x: int, y: int, n: int) -> bool {
    &&& same_books(v, w)
    &&& forall|b: u32, k: AccountId, d: Kind| #[trigger] (v.cur@)(b, k, d) == (w.cur@)(b, k, d) + traded(p, who, x, y, n, b, k, d)
    &&& forall|b: u32| #[trigger] (v.cur.iss())(b) == (w.cur.iss())(b) - at(b == native(), n)
}
/// the oracle is told of the trade once, with the pool's holdings after it
pub open spec fn told_trade(w: World, v: World, p: Pair, x: int, y: int) -> bool {
    let q = pool(p.asset_in, p.asset_out);
    v.oracle@ == w.oracle@.push(Told { trade: true, a: p.asset_in, b: p.asset_out, amount_a: x, amount_b: y, liquidity_a: (v.cur.total())(p.asset_in, q), liquidity_b: (v.cur.total())(p.asset_out, q) })
}
pub open spec fn told_liq(w: World, v: World, a: u32, b: u32, x: int, y: int) -> bool {
    v.oracle@ == w.oracle@.push(Told { trade: false, a, b, amount_a: x, amount_b: y, liquidity_a: (v.cur.total())(a, pool(a, b)), liquidity_b: (v.cur.total())(b, pool(a, b)) })
}
pub open spec fn okx<E>(r: Result<u128, E>) -> Option<int> { match r { Ok(v) => Some(v as int), Err(_) => None } }
pub struct Pallet { }
impl Pallet {
//@ fn pallets/xyk/src/lib.rs::Pallet::pair_account_from_assets(asset_a, asset_b)
//@ world
//@ ensures *final(w) == *old(w), r == pool(asset_a, asset_b),
//@ end
//@ fn pallets/xyk/src/lib.rs::Pallet::get_pair_id(assets)
//@ world
//@ ensures *final(w) == *old(w), r == pool(assets.asset_in, assets.asset_out),
//@ end
//@ fn pallets/xyk/src/lib.rs::Pallet::exists(assets)
//@ world
//@ ensures *final(w) == *old(w), r == open_pool(*old(w), assets.asset_in, assets.asset_out),
//@ end
//@ fn pallets/xyk/src/lib.rs::Pallet::get_share_token(assets)
//@ world
//@ ensures *final(w) == *old(w), r == share_of(*old(w), assets.asset_in, assets.asset_out),
//@ end
//@ fn pallets/xyk/src/lib.rs::Pallet::calculate_fee(amount)
//@ world
//@ ensures *final(w) == *old(w), okx(r) == fee_for(amount as int, false),
//@ end
//@ fn pallets/xyk/src/lib.rs::Pallet::calculate_discounted_fee(amount)
//@ world
//@ ensures *final(w) == *old(w), okx(r) == fee_for(amount as int, true),
//@ end
//@ fn pallets/xyk/src/lib.rs::Pallet::validate_sell(who, assets, amount, min_bought, discount)
//@ world
//@ ensures *final(w) == *old(w), r is Ok <==> sell_ok(*old(w), *who, assets, amount as int, min_bought as int, discount),
//@ r matches Ok(t) ==> t.origin == *who && t.assets == assets && t.amount == amount && t.discount == discount && t.fee.0 == assets.asset_out
//@ && t.amount_b + t.fee.1 == out_of(*old(w), assets, amount as int)->0 && t.fee.1 == fee_for(out_of(*old(w), assets, amount as int)->0, discount)->0
//@ && t.discount_amount == spec_discount(*old(w), assets.asset_in, t.fee.1 as int, discount)->0,
//@ end
//@ fn pallets/xyk/src/lib.rs::Pallet::validate_buy(who, assets, amount, max_limit, discount)
//@ world
//@ ensures *final(w) == *old(w), r is Ok <==> buy_ok(*old(w), *who, assets, amount as int, max_limit as int, discount),
//@ r matches Ok(t) ==> t.origin == *who && t.assets == assets && t.amount == amount && t.discount == discount && t.fee.0 == assets.asset_in
//@ && t.amount_b == in_of(*old(w), assets, amount as int)->0 && t.fee.1 == fee_for(t.amount_b as int, discount)->0
//@ && t.discount_amount == spec_discount(*old(w), assets.asset_out, t.fee.1 as int, discount)->0,
//@ end
//@ fn pallets/xyk/src/lib.rs::Pallet::execute_sell(transfer)
//@ world
//@ ensures r is Ok ==> trade_done(*old(w), *final(w), transfer.assets, transfer.origin, transfer.amount as int, transfer.amount_b as int, if transfer.discount { transfer.discount_amount as int } else { 0 }),
//@ r is Ok ==> told_trade(*old(w), *final(w), transfer.assets, transfer.amount as int, transfer.amount_b as int),
//@ end
//@ fn pallets/xyk/src/lib.rs::Pallet::execute_buy(transfer)
//@ world
//@ requires transfer.amount_b + transfer.fee.1 <= u128::MAX
//@ ensures r is Ok ==> trade_done(*old(w), *final(w), transfer.assets, transfer.origin, transfer.amount_b + transfer.fee.1, transfer.amount as int, if transfer.discount { transfer.discount_amount as int } else { 0 }),
//@ r is Ok ==> told_trade(*old(w), *final(w), transfer.assets, transfer.amount_b as int, transfer.amount as int) || told_trade(*old(w), *final(w), transfer.assets, transfer.amount_b + transfer.fee.1, transfer.amount as int),
//@ end
//@ fn traits/src/lib.rs::AMM::sell(origin, assets, amount, min_bought, discount)
//@ world
//@ rename amm_sell
//@ ensures r is Ok ==> sold(*old(w), *final(w), *origin, assets, amount as int, min_bought as int, discount),
//@ end
//@ fn traits/src/lib.rs::AMM::buy(origin, assets, amount, max_limit, discount)
//@ world
//@ rename amm_buy
//@ ensures r is Ok ==> bought(*old(w), *final(w), *origin, assets, amount as int, max_limit as int, discount),
//@ end
//@ fn pallets/xyk/src/lib.rs::Pallet::sell(origin, asset_in, asset_out, amount, max_limit, discount)
//@ world
//@ ensures r is Ok ==> signed(origin) is Some && sold(*old(w), *final(w), signed(origin)->0, AssetPair { asset_in, asset_out }, amount as int, max_limit as int, discount),
//@ end
//@ fn pallets/xyk/src/lib.rs::Pallet::buy(origin, asset_out, asset_in, amount, max_limit, discount)
//@ world
//@ ensures r is Ok ==> signed(origin) is Some && bought(*old(w), *final(w), signed(origin)->0, AssetPair { asset_in, asset_out }, amount as int, max_limit as int, discount),
//@ end
//@ fn pallets/xyk/src/lib.rs::Pallet::create_pool(origin, asset_a, amount_a, asset_b, amount_b)
//@ world
//@ ensures r is Ok ==> signed(origin) is Some && created(*old(w), *final(w), signed(origin)->0, asset_a, amount_a as int, asset_b, amount_b as int),
//@ end
//@ fn pallets/xyk/src/lib.rs::Pallet::add_liquidity(origin, asset_a, asset_b, amount_a, amount_b_max_limit)
//@ world
//@ ensures r is Ok ==> signed(origin) is Some && added(*old(w), *final(w), signed(origin)->0, asset_a, asset_b, amount_a as int, amount_b_max_limit as int),
//@ end
//@ fn pallets/xyk/src/lib.rs::Pallet::remove_liquidity(origin, asset_a, asset_b, liquidity_amount)
//@ world
//@ ensures r is Ok ==> signed(origin) is Some && removed(*old(w), *final(w), signed(origin)->0, asset_a, asset_b, liquidity_amount as int),
//@ end
//@ fn pallets/xyk/src/lib.rs::Pallet::get_liquidity_behind_shares(asset_a, asset_b, shares_amount)
//@ world
//@ ensures *final(w) == *old(w), ok2d(r) == spec_liq_out(free(*old(w), asset_a, pool(asset_a, asset_b)), free(*old(w), asset_b, pool(asset_a, asset_b)), shares_amount as int, shares(*old(w), asset_a, asset_b)),
//@ end
//@ fn pallets/xyk/src/trade_execution.rs::Pallet::calculate_sell(pool_type, asset_in, asset_out, amount_in)
//@ world
//@ ensures *final(w) == *old(w), okx(r) == quote_sell(*old(w), pool_type, AssetPair { asset_in, asset_out }, amount_in as int),
//@ end
//@ fn pallets/xyk/src/trade_execution.rs::Pallet::calculate_buy(pool_type, asset_in, asset_out, amount_out)
//@ world
//@ ensures *final(w) == *old(w), okx(r) == quote_buy(*old(w), pool_type, AssetPair { asset_in, asset_out }, amount_out as int),
//@ end
}
pub open spec fn ok2d(r: Result<(u128, u128), DispatchError>) -> Option<(int, int)> { match r { Ok(v) => Some((v.0 as int, v.1 as int)), Err(_) => None } }
pub open spec fn quote_sell(w: World, t: PoolType<u32>, p: Pair, x: int) -> Option<int> {
    let y = out_of(w, p, x); let f = fee_for(y->0, false);
    if !(t is XYK) || !open_pool(w, p.asset_in, p.asset_out) || y is None || y->0 >= free(w, p.asset_out, pool(p.asset_in, p.asset_out)) || f is None || f->0 > y->0 { None } else { Some(y->0 - f->0) }
}
pub open spec fn quote_buy(w: World, t: PoolType<u32>, p: Pair, y: int) -> Option<int> {
    let x = in_of(w, p, y); let f = fee_for(x->0, false);
    if !(t is XYK) || !open_pool(w, p.asset_in, p.asset_out) || y >= free(w, p.asset_out, pool(p.asset_in, p.asset_out)) || y < min_trade() || x is None || f is None || x->0 + f->0 > u128::MAX { None } else { Some(x->0 + f->0) }
}
pub open spec fn sold(w: World, v: World, who: AccountId, p: Pair, x: int, min: int, discount: bool) -> bool {
    let y = out_of(w, p, x)->0; let f = fee_for(y, discount)->0;
    sell_ok(w, who, p, x, min, discount) && trade_done(w, v, p, who, x, y - f, spec_discount(w, p.asset_in, f, discount)->0) && told_trade(w, v, p, x, y - f)
}
pub open spec fn bought(w: World, v: World, who: AccountId, p: Pair, y: int, max: int, discount: bool) -> bool {
    let x = in_of(w, p, y)->0; let f = fee_for(x, discount)->0;
    buy_ok(w, who, p, y, max, discount) && trade_done(w, v, p, who, x + f, y, spec_discount(w, p.asset_out, f, discount)->0) && (told_trade(w, v, p, x, y) || told_trade(w, v, p, x + f, y))
}
/// what a change of liquidity moves: x of asset a and y of asset b into the pool, s shares to who (negative amounts: the other way)
pub open spec fn moved(a: u32, b: u32, t: u32, who: AccountId, x: int, y: int, s: int, c: u32, k: AccountId, d: Kind) -> int {
    at(c == a && k == pool(a, b) && d is Free, x) - at(c == a && k == who && d is Free, x) + at(c == b && k == pool(a, b) && d is Free, y) - at(c == b && k == who && d is Free, y) + at(c == t && k == who && d is Free, s)
}
pub open spec fn liq_done(w: World, v: World, a: u32, b: u32, t: u32, who: AccountId, x: int, y: int, s: int) -> bool {
    &&& forall|c: u32, k: AccountId, d: Kind| #[trigger] (v.cur@)(c, k, d) == (w.cur@)(c, k, d) + moved(a, b, t, who, x, y, s, c, k, d)
    &&& forall|c: u32| #[trigger] (v.cur.iss())(c) == (w.cur.iss())(c) + at(c == t, s)
}
pub open spec fn created(w: World, v: World, who: AccountId, a: u32, x: int, b: u32, y: int) -> bool {
    let q = pool(a, b); let t = share_of(v, a, b); let s = if a < b { x } else { y };
    &&& a != b && creatable(a, b) && x >= min_pool() && y >= min_pool() && !open_pool(w, a, b) && x <= free(w, a, who) && y <= free(w, b, who)
    &&& v.ShareToken.with(w.ShareToken, q, t) && v.TotalLiquidity.with(w.TotalLiquidity, q, s as u128) && v.PoolAssets@ == w.PoolAssets@.insert(q, (a, b))
    &&& (if w.reg@.contains_key(name_of(a, b)) { t == w.reg@[name_of(a, b)] && v.reg == w.reg }
        else { !w.reg.ids().contains(t) && v.reg@ == w.reg@.insert(name_of(a, b), t) && v.reg.ids() == w.reg.ids().insert(t) })
    &&& liq_done(w, v, a, b, t, who, x, y, s)
}
pub open spec fn added(w: World, v: World, who: AccountId, a: u32, b: u32, x: int, max: int) -> bool {
    let q = pool(a, b); let t = share_of(w, a, b); let ra = free(w, a, q); let rb = free(w, b, q); let y = spec_liq_in(ra, rb, x); let s = spec_shares(ra, x, shares(w, a, b));
    &&& open_pool(w, a, b) && x >= min_trade() && x <= free(w, a, who) && y is Some && s is Some && y->0 <= max && y->0 <= free(w, b, who) && s->0 > 0 && free(w, t, who) + s->0 >= min_pool()
    &&& v.ShareToken == w.ShareToken && v.PoolAssets == w.PoolAssets && v.reg == w.reg && v.TotalLiquidity.with(w.TotalLiquidity, q, (shares(w, a, b) + s->0) as u128) && shares(w, a, b) + s->0 <= u128::MAX
    &&& liq_done(w, v, a, b, t, who, x, y->0, s->0) && told_liq(w, v, a, b, x, y->0)
}
pub open spec fn removed(w: World, v: World, who: AccountId, a: u32, b: u32, s: int) -> bool {
    let q = pool(a, b); let t = share_of(w, a, b); let o = spec_liq_out(free(w, a, q), free(w, b, q), s, shares(w, a, b)); let (x, y) = o->0;
    &&& open_pool(w, a, b) && 0 < s <= shares(w, a, b) && s <= free(w, t, who) && (free(w, t, who) - s >= min_pool() || free(w, t, who) == s) && o is Some && x <= free(w, a, q) && y <= free(w, b, q)
    &&& v.reg == w.reg
    &&& (if s == shares(w, a, b) { v.ShareToken.without(w.ShareToken, q) && v.TotalLiquidity.without(w.TotalLiquidity, q) && v.PoolAssets@ == w.PoolAssets@.remove(q) }
        else { v.ShareToken == w.ShareToken && v.PoolAssets == w.PoolAssets && v.TotalLiquidity.with(w.TotalLiquidity, q, (shares(w, a, b) - s) as u128) })
    &&& liq_done(w, v, a, b, t, who, -x, -y, -s) && told_liq(w, v, a, b, x, y)
}
// ---------------------------------------------------------------- property lemmas
/// a sale never lowers the product of the pool's reserves, costs exactly the amount and pays at least the seller's limit, as quoted; no other account's holdings change, and only what a discount costs is burned
proof fn c46_sell(w: World, v: World, who: AccountId, p: Pair, x: int, min: int, discount: bool)
    requires sold(w, v, who, p, x, min, discount), p.asset_in != p.asset_out, who != pool(p.asset_in, p.asset_out), 0 <= x,
    ensures ({ let q = pool(p.asset_in, p.asset_out); let y = free(w, p.asset_out, q) - free(v, p.asset_out, q);
        &&& free(v, p.asset_in, q) * free(v, p.asset_out, q) >= free(w, p.asset_in, q) * free(w, p.asset_out, q)
        &&& free(v, p.asset_in, q) == free(w, p.asset_in, q) + x && min <= y && 0 <= y < free(w, p.asset_out, q)
        &&& y * max_out() <= free(w, p.asset_out, q) && x * max_in() <= free(w, p.asset_in, q)
        &&& (!discount ==> free(v, p.asset_in, who) == free(w, p.asset_in, who) - x && free(v, p.asset_out, who) == free(w, p.asset_out, who) + y && quote_sell(w, PoolType::XYK, p, x) == Some(y))
        &&& forall|b: u32, k: AccountId| k != q && k != who ==> #[trigger] (v.cur@)(b, k, Kind::Free) == (w.cur@)(b, k, Kind::Free) }),
{
    let q = pool(p.asset_in, p.asset_out); let a = free(w, p.asset_in, q); let b = free(w, p.asset_out, q);
    ax_free(w.cur, p.asset_in, q); ax_free(w.cur, p.asset_out, q);
    c01_sell(a, b, x);
    let y = out_of(w, p, x)->0; let f = fee_for(y, discount)->0;
    lem_fee_pos(y, discount);
    lem_div(a, max_in() as int); lem_div(b, max_out() as int);
    assert((a + x) * (b - (y - f)) >= (a + x) * (b - y)) by (nonlinear_arith) requires a + x >= 0, f >= 0;
    assert(x * max_in() <= a) by (nonlinear_arith) requires x <= a / (max_in() as int), (a / (max_in() as int)) * (max_in() as int) <= a, max_in() > 0;
    assert((y - f) * max_out() <= b) by (nonlinear_arith) requires y <= b / (max_out() as int), (b / (max_out() as int)) * (max_out() as int) <= b, max_out() > 0, f >= 0;
}
proof fn c46_buy(w: World, v: World, who: AccountId, p: Pair, y: int, max: int, discount: bool)
    requires bought(w, v, who, p, y, max, discount), p.asset_in != p.asset_out, who != pool(p.asset_in, p.asset_out), 0 <= y, max <= u128::MAX,
    ensures ({ let q = pool(p.asset_in, p.asset_out); let x = free(v, p.asset_in, q) - free(w, p.asset_in, q);
        &&& free(v, p.asset_in, q) * free(v, p.asset_out, q) >= free(w, p.asset_in, q) * free(w, p.asset_out, q)
        &&& free(v, p.asset_out, q) == free(w, p.asset_out, q) - y && 0 <= x <= max && y < free(w, p.asset_out, q) && (y > 0 ==> x > 0)
        &&& y * max_out() <= free(w, p.asset_out, q)
        &&& (!discount ==> free(v, p.asset_in, who) == free(w, p.asset_in, who) - x && free(v, p.asset_out, who) == free(w, p.asset_out, who) + y && quote_buy(w, PoolType::XYK, p, y) == Some(x))
        &&& forall|b: u32, k: AccountId| k != q && k != who ==> #[trigger] (v.cur@)(b, k, Kind::Free) == (w.cur@)(b, k, Kind::Free) }),
{
    let q = pool(p.asset_in, p.asset_out); let a = free(w, p.asset_in, q); let b = free(w, p.asset_out, q);
    ax_free(w.cur, p.asset_in, q); ax_free(w.cur, p.asset_out, q);
    c01_buy(a, b, y);
    let x = in_of(w, p, y)->0; let f = fee_for(x, discount)->0;
    lem_fee_pos(x, discount);
    lem_div(b, max_out() as int);
    assert((a + x + f) * (b - y) >= (a + x) * (b - y)) by (nonlinear_arith) requires b - y >= 0, f >= 0;
    assert(y * max_out() <= b) by (nonlinear_arith) requires y <= b / (max_out() as int), (b / (max_out() as int)) * (max_out() as int) <= b, max_out() > 0;
}
/// a free balance is a u128
pub broadcast axiom fn ax_free(c: Cur, a: u32, k: AccountId) ensures #![trigger (c@)(a, k, Kind::Free)] 0 <= (c@)(a, k, Kind::Free) <= u128::MAX as int;
proof fn lem_fee_pos(x: int, discount: bool) requires 0 <= x, fee_for(x, discount) is Some, ensures fee_for(x, discount)->0 >= 0
{
    let n = rate(discount).0 as int; let d = rate(discount).1 as int;
    if d > 0 { c03_bounds(x, n, d); }
}
/// adding liquidity takes exactly the offered amount and at most the limit of the other asset, and one share redeems for no less of either asset than before; removing pays at most the proportional part, and what is left is worth no less per share
proof fn c46_add(w: World, v: World, who: AccountId, a: u32, b: u32, x: int, max: int)
    requires added(w, v, who, a, b, x, max), a != b, who != pool(a, b), 0 <= x, free(w, a, pool(a, b)) > 0, free(w, b, pool(a, b)) > 0, shares(w, a, b) > 0,
    ensures ({ let q = pool(a, b);
        &&& free(v, a, q) * shares(w, a, b) >= free(w, a, q) * shares(v, a, b)
        &&& free(v, b, q) * shares(w, a, b) >= free(w, b, q) * shares(v, a, b)
        &&& free(v, a, q) == free(w, a, q) + x && free(w, b, q) <= free(v, b, q) <= free(w, b, q) + max && shares(v, a, b) > shares(w, a, b)
        &&& share_of(w, a, b) != a && share_of(w, a, b) != b ==> free(v, share_of(w, a, b), who) == free(w, share_of(w, a, b), who) + shares(v, a, b) - shares(w, a, b) }),
{
    let q = pool(a, b);
    c02_no_dilution_add(free(w, a, q), free(w, b, q), shares(w, a, b), x);
    c02_amount_b(free(w, a, q), free(w, b, q), x);
}
proof fn c46_remove(w: World, v: World, who: AccountId, a: u32, b: u32, s: int)
    requires removed(w, v, who, a, b, s), a != b, who != pool(a, b), share_of(w, a, b) != a, share_of(w, a, b) != b,
    ensures ({ let q = pool(a, b); let x = free(w, a, q) - free(v, a, q); let y = free(w, b, q) - free(v, b, q);
        &&& x * shares(w, a, b) <= s * free(w, a, q) && y * shares(w, a, b) <= s * free(w, b, q) && 0 <= x && 0 <= y
        &&& free(v, a, q) * shares(w, a, b) >= free(w, a, q) * (shares(w, a, b) - s)
        &&& free(v, b, q) * shares(w, a, b) >= free(w, b, q) * (shares(w, a, b) - s)
        &&& free(v, a, who) == free(w, a, who) + x && free(v, b, who) == free(w, b, who) + y && free(v, share_of(w, a, b), who) == free(w, share_of(w, a, b), who) - s
        &&& s == shares(w, a, b) ==> free(v, a, q) == 0 && free(v, b, q) == 0 && !open_pool(v, a, b) }),
{
    let q = pool(a, b);
    ax_free(w.cur, a, q); ax_free(w.cur, b, q);
    c02_no_dilution_remove(free(w, a, q), free(w, b, q), s, shares(w, a, b));
}
/// the pools' books: a pool's share token is the one registered under its name, no two pools share one, and the recorded number of shares is the number issued
pub open spec fn pool_ok(w: World, q: AccountId) -> bool {
    let (a, b) = w.PoolAssets@[q];
    w.PoolAssets@.contains_key(q) && pool(a, b) == q && a != b && w.reg@.contains_key(name_of(a, b)) && w.reg@[name_of(a, b)] == w.ShareToken.at(q)
    && w.TotalLiquidity@.contains_key(q) && w.TotalLiquidity.at(q) == (w.cur.iss())(w.ShareToken.at(q))
}
pub open spec fn names_ok(w: World) -> bool {
    &&& forall|n: PoolName, m: PoolName| #[trigger] w.reg@.contains_key(n) && #[trigger] w.reg@.contains_key(m) && w.reg@[n] == w.reg@[m] ==> n == m
    &&& forall|n: PoolName| #[trigger] w.reg@.contains_key(n) ==> w.reg.ids().contains(w.reg@[n]) && w.reg@[n] != native()
    &&& w.reg.ids().contains(native())
    &&& forall|i: u32| !w.reg.ids().contains(i) ==> #[trigger] (w.cur.iss())(i) == 0
    &&& forall|a: u32, b: u32| w.reg@.contains_key(#[trigger] name_of(a, b)) && !open_pool(w, a, b) ==> (w.cur.iss())(w.reg@[name_of(a, b)]) == 0
}
pub open spec fn wf(w: World) -> bool { names_ok(w) && forall|q: AccountId| #[trigger] w.ShareToken@.contains_key(q) ==> pool_ok(w, q) }
/// accounts of different pools differ: a collision of the hash is excluded
pub broadcast axiom fn ax_pool(a: u32, b: u32, c: u32, d: u32) ensures #![trigger pool(a, b), pool(c, d)] pool(a, b) == pool(c, d) ==> name_of(a, b) == name_of(c, d);
proof fn c46_distinct(w: World, a: u32, b: u32, c: u32, d: u32)
    requires wf(w), open_pool(w, a, b), open_pool(w, c, d), name_of(a, b) != name_of(c, d), ensures share_of(w, a, b) != share_of(w, c, d), pool(a, b) != pool(c, d), a != b,
{ broadcast use ax_pool; assert(pool_ok(w, pool(a, b)) && pool_ok(w, pool(c, d))); }
proof fn c46_traded(w: World, v: World, p: Pair, who: AccountId, x: int, y: int, n: int) requires wf(w), trade_done(w, v, p, who, x, y, n), ensures wf(v)
{
    assert forall|q: AccountId| #[trigger] v.ShareToken@.contains_key(q) implies pool_ok(v, q) by { assert(pool_ok(w, q)); }
    assert forall|a: u32, b: u32| v.reg@.contains_key(#[trigger] name_of(a, b)) && !open_pool(v, a, b) implies (v.cur.iss())(v.reg@[name_of(a, b)]) == 0 by { assert(!open_pool(w, a, b)); }
}
proof fn c46_created(w: World, v: World, who: AccountId, a: u32, x: int, b: u32, y: int)
    requires wf(w), created(w, v, who, a, x, b, y), 0 <= x <= u128::MAX, 0 <= y <= u128::MAX, ensures wf(v), open_pool(v, a, b), shares(v, a, b) == (if a < b { x } else { y }),
{
    broadcast use ax_pool;
    let t = share_of(v, a, b); let g = pool(a, b);
    assert(pool(b, a) == g && name_of(b, a) == name_of(a, b));
    assert forall|q: AccountId| #[trigger] v.ShareToken@.contains_key(q) implies pool_ok(v, q) by {
        if q != g { assert(w.ShareToken@.contains_key(q)); assert(pool_ok(w, q)); let (c, d) = w.PoolAssets@[q]; assert(pool(c, d) == q); if w.ShareToken.at(q) == t { assert(name_of(c, d) == name_of(a, b)); assert(pool(c, d) == pool(a, b)); } }
    }
    assert forall|c: u32, d: u32| v.reg@.contains_key(#[trigger] name_of(c, d)) && !open_pool(v, c, d) implies (v.cur.iss())(v.reg@[name_of(c, d)]) == 0 by {
        if name_of(c, d) != name_of(a, b) { assert(w.reg@.contains_key(name_of(c, d))); assert(!open_pool(w, c, d)); } else { assert(pool(c, d) == g); }
    }
}
proof fn c46_added(w: World, v: World, who: AccountId, a: u32, b: u32, x: int, max: int) requires wf(w), added(w, v, who, a, b, x, max), ensures wf(v)
{
    broadcast use ax_pool;
    let t = share_of(w, a, b); let g = pool(a, b);
    assert(pool_ok(w, g));
    assert forall|q: AccountId| #[trigger] v.ShareToken@.contains_key(q) implies pool_ok(v, q) by {
        assert(pool_ok(w, q));
        if q != g { let (c, d) = w.PoolAssets@[q]; let (e, f) = w.PoolAssets@[g]; if w.ShareToken.at(q) == t { assert(name_of(c, d) == name_of(e, f)); assert(pool(c, d) == pool(e, f)); } }
    }
    assert forall|c: u32, d: u32| v.reg@.contains_key(#[trigger] name_of(c, d)) && !open_pool(v, c, d) implies (v.cur.iss())(v.reg@[name_of(c, d)]) == 0 by {
        assert(!open_pool(w, c, d)); let (e, f) = w.PoolAssets@[g]; if w.reg@[name_of(c, d)] == t { assert(name_of(c, d) == name_of(e, f)); assert(pool(c, d) == pool(e, f)); }
    }
}
proof fn c46_removed(w: World, v: World, who: AccountId, a: u32, b: u32, s: int) requires wf(w), removed(w, v, who, a, b, s), ensures wf(v)
{
    broadcast use ax_pool;
    let t = share_of(w, a, b); let g = pool(a, b);
    assert(pool_ok(w, g));
    assert forall|q: AccountId| #[trigger] v.ShareToken@.contains_key(q) implies pool_ok(v, q) by {
        assert(w.ShareToken@.contains_key(q)); assert(pool_ok(w, q));
        if q != g { let (c, d) = w.PoolAssets@[q]; let (e, f) = w.PoolAssets@[g]; if w.ShareToken.at(q) == t { assert(name_of(c, d) == name_of(e, f)); assert(pool(c, d) == pool(e, f)); } }
    }
    assert forall|c: u32, d: u32| v.reg@.contains_key(#[trigger] name_of(c, d)) && !open_pool(v, c, d) implies (v.cur.iss())(v.reg@[name_of(c, d)]) == 0 by {
        let (e, f) = w.PoolAssets@[g];
        if w.reg@[name_of(c, d)] == t { assert(name_of(c, d) == name_of(e, f)); assert(pool(c, d) == pool(e, f)); assert(!v.ShareToken@.contains_key(g)); } else { assert(!open_pool(w, c, d)); }
    }
}
}
fn main(){}
