//@ root pallets/bonds/src
//@ root traits/src
//@ include prelude.rs
//@ include fixed.rs
//@ include storage.inc.rs
//@ dropgen T
//@ subst T::Balance => u128
//@ subst T::AccountId => AccountId
//@ subst OriginFor<T> => Origin
//@ storage BondIds Bonds
//@ call T::IssueOrigin::ensure_origin => w.issuer
//@ call T::AssetTypeWhitelist::contains => w.whitelisted
//@ call T::AssetRegistry::asset_type => w.asset_type
//@ call T::AssetRegistry::register_insufficient_asset => w.reg.register_insufficient_asset
//@ call T::ProtocolFee::get => w.protocol_fee
//@ call T::FeeReceiver::get => w.fee_receiver
//@ call T::TimestampProvider::now => w.now
//@ call T::ExistentialDeposits::get => w.ed
//@ call Self::pallet_account_id => w.pallet_account
//@ call Self::bond_name => w.bond_name
//@ call T::Currency::transfer => w.cur.transfer
//@ call T::Currency::deposit => w.cur.deposit
//@ call T::Currency::withdraw => w.cur.withdraw
//@ call Self::deposit_event => w.deposit_event
//@ known ensure_signed
//@ include frame.inc.rs
//@ include currency.inc.rs
pub type AssetId = u32;
pub type Moment = u64;
//@ item traits/src/registry.rs::AssetKind derive none
//@ item pallets/bonds/src/lib.rs::Error derive none
impl From<Error> for DispatchError { #[verifier::external_body] fn from(e: Error) -> (r: Self) { DispatchError::E } }
//@ item pallets/bonds/src/lib.rs::Event derive none
pub struct BondName { n: u8 }
impl BondName { #[verifier::external_body] pub fn try_into(self) -> (r: Result<BondName, ConvErr>) { unimplemented!() } }
/// the asset registry: which ids it has given out, and under which existential deposit
#[verifier::external_body]
pub struct Reg { o: u8 }
impl Reg {
    pub uninterp spec fn view(&self) -> Set<u32>;
    pub uninterp spec fn kind(&self) -> spec_fn(u32) -> Option<AssetKind>;
    #[verifier::external_body]
    pub fn register_insufficient_asset(&mut self, id: Option<u32>, name: Option<BondName>, kind: AssetKind, ed: Option<u128>, symbol: Option<u8>, decimals: Option<u8>, location: Option<u8>, limit: Option<u128>) -> (r: Result<u32, DispatchError>)
        ensures r matches Ok(i) ==> !old(self)@.contains(i) && final(self)@ == old(self)@.insert(i) && (final(self).kind())(i) == Some(kind) && reg_ed(i) == ed
    { unimplemented!() }
}
pub uninterp spec fn reg_ed(a: u32) -> Option<u128>;
pub struct World { pub BondIds: OptMap<(u32, u64), u32>, pub Bonds: OptMap<u32, (u32, u64)>, pub cur: Cur, pub reg: Reg }
pub uninterp spec fn issuer(o: Origin) -> Option<AccountId>;
pub uninterp spec fn allowed(k: AssetKind) -> bool;
pub uninterp spec fn fee_rate() -> Permill;
pub uninterp spec fn fee_to() -> AccountId;
pub uninterp spec fn pot() -> AccountId;
pub uninterp spec fn time() -> u64;
pub uninterp spec fn ed(a: u32) -> u128;
impl World {
    #[verifier::external_body]
    pub fn issuer(&self, o: Origin) -> (r: Result<AccountId, DispatchError>) ensures okv(r) == issuer(o) { unimplemented!() }
    #[verifier::external_body]
    pub fn whitelisted(&self, k: &AssetKind) -> (r: bool) ensures r == allowed(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn asset_type(&self, a: u32) -> (r: Option<AssetKind>) ensures r == (self.reg.kind())(a) { unimplemented!() }
    #[verifier::external_body]
    pub fn protocol_fee(&self) -> (r: Permill) ensures r == fee_rate() { unimplemented!() }
    #[verifier::external_body]
    pub fn fee_receiver(&self) -> (r: AccountId) ensures r == fee_to() { unimplemented!() }
    #[verifier::external_body]
    pub fn pallet_account(&self) -> (r: AccountId) ensures r == pot() { unimplemented!() }
    #[verifier::external_body]
    pub fn now(&self) -> (r: u64) ensures r == time() { unimplemented!() }
    #[verifier::external_body]
    pub fn ed(&self, a: &u32) -> (r: u128) ensures r == ed(*a) { unimplemented!() }
    #[verifier::external_body]
    pub fn bond_name(&self, a: u32, m: u64) -> (r: BondName) { unimplemented!() }
    pub fn deposit_event(&self, e: Event) { }
}
pub open spec fn fee_of(x: int) -> int { cdiv(fee_rate()@ * x, 1_000_000) }
pub open spec fn kept(x: int) -> int { if x >= fee_of(x) { x - fee_of(x) } else { 0 } }
pub open spec fn signed(o: Origin) -> Option<AccountId> { match signer(o) { Some(Some(a)) => Some(a), _ => None } }
/// the bond of an underlying asset and maturity
pub open spec fn bond_of(w: World, a: u32, m: u64) -> u32 { w.BondIds@[(a, m)] }
pub open spec fn issued(who: AccountId, a: u32, bond: u32, x: int, b: u32, k: AccountId, d: Kind) -> int {
    at(b == a && k == pot() && d is Free, kept(x)) + at(b == a && k == fee_to() && d is Free, fee_of(x)) - at(b == a && k == who && d is Free, kept(x) + fee_of(x)) + at(b == bond && k == who && d is Free, kept(x))
}
pub open spec fn redeemed(who: AccountId, a: u32, bond: u32, x: int, b: u32, k: AccountId, d: Kind) -> int {
    at(b == a && k == who && d is Free, x) - at(b == a && k == pot() && d is Free, x) - at(b == bond && k == who && d is Free, x)
}
/// the books after issuing bonds on asset a with maturity m: as they were if the bond exists, otherwise it has been registered, not before now
pub open spec fn books(w: World, v: World, a: u32, m: u64) -> bool {
    if w.BondIds@.contains_key((a, m)) { v.BondIds == w.BondIds && v.Bonds == w.Bonds && v.reg == w.reg }
    else { let i = bond_of(v, a, m); m >= time() && !w.reg@.contains(i) && v.reg@ == w.reg@.insert(i) && (v.reg.kind())(i) == Some(AssetKind::Bond) && reg_ed(i) == Some(ed(a))
        && v.BondIds@ == w.BondIds@.insert((a, m), i) && v.Bonds@ == w.Bonds@.insert(i, (a, m)) }
}
pub struct Pallet { }
impl Pallet {
//@ fn pallets/bonds/src/lib.rs::Pallet::issue(origin, asset_id, amount, maturity)
//@ world
//@ ensures
//@ r is Ok ==> issuer(origin) is Some && ((old(w).reg.kind())(asset_id) matches Some(k) && allowed(k)),
//@ r is Ok ==> books(*old(w), *final(w), asset_id, maturity),
//@ r is Ok ==> forall|b: u32, k: AccountId, d: Kind| #[trigger] (final(w).cur@)(b, k, d) == (old(w).cur@)(b, k, d) + issued(issuer(origin)->0, asset_id, bond_of(*final(w), asset_id, maturity), amount as int, b, k, d),
//@ r is Ok ==> forall|b: u32| #[trigger] (final(w).cur.iss())(b) == (old(w).cur.iss())(b) + at(b == bond_of(*final(w), asset_id, maturity), kept(amount as int)),
//@ end
//@ fn pallets/bonds/src/lib.rs::Pallet::redeem(origin, bond_id, amount)
//@ world
//@ ensures final(w).BondIds == old(w).BondIds, final(w).Bonds == old(w).Bonds, final(w).reg == old(w).reg,
//@ r is Ok ==> signed(origin) is Some && old(w).Bonds@.contains_key(bond_id) && time() >= old(w).Bonds@[bond_id].1,
//@ r is Ok ==> forall|b: u32, k: AccountId, d: Kind| #[trigger] (final(w).cur@)(b, k, d) == (old(w).cur@)(b, k, d) + redeemed(signed(origin)->0, old(w).Bonds@[bond_id].0, bond_id, amount as int, b, k, d),
//@ r is Ok ==> forall|b: u32| #[trigger] (final(w).cur.iss())(b) == (old(w).cur.iss())(b) - at(b == bond_id, amount as int),
//@ end
}
// ---------------------------------------------------------------- property lemmas
/// the fee is at most the amount, so what the issuer pays is exactly the amount
proof fn c43_fee(x: int) requires 0 <= x, ensures 0 <= fee_of(x) <= x, kept(x) + fee_of(x) == x, fee_of(x) * 1_000_000 >= fee_rate()@ * x, fee_rate()@ > 0 && x > 0 ==> fee_of(x) > 0,
{
    broadcast use vxf;
    let n = fee_rate()@ * x; let c = cdiv(n, 1_000_000);
    assert(0 <= n <= 1_000_000 * x) by (nonlinear_arith) requires n == fee_rate()@ * x, 0 <= fee_rate()@ <= 1_000_000, x >= 0;
    lem_div(n + 999_999, 1_000_000);
    lem_div(n, 1_000_000);
    if fee_rate()@ > 0 && x > 0 { assert(n > 0) by (nonlinear_arith) requires n == fee_rate()@ * x, fee_rate()@ > 0, x > 0; }
}
/// the bonds outstanding on an asset, over all bond ids below n
pub open spec fn owed(w: World, a: u32, n: int) -> int decreases n {
    if n <= 0 { 0 } else { owed(w, a, n - 1) + at(w.Bonds@.contains_key((n - 1) as u32) && w.Bonds@[(n - 1) as u32].0 == a, (w.cur.iss())((n - 1) as u32)) }
}
pub open spec fn owes(w: World, i: u32, a: u32) -> int { at(w.Bonds@.contains_key(i) && w.Bonds@[i].0 == a, (w.cur.iss())(i)) }
proof fn lem_owed(w: World, v: World, i: u32, a: u32, n: int)
    requires 0 <= n <= 0x1_0000_0000, forall|j: u32| j != i ==> #[trigger] owes(w, j, a) == owes(v, j, a),
    ensures owed(v, a, n) == owed(w, a, n) + (if i < n { owes(v, i, a) - owes(w, i, a) } else { 0 }),
    decreases n,
{ if n > 0 { lem_owed(w, v, i, a, n - 1); let j = (n - 1) as u32; if j != i { assert(owes(w, j, a) == owes(v, j, a)); } } }
/// every bond is registered, both directions of the index agree, and an asset not registered has not been issued
pub open spec fn wf(w: World) -> bool {
    &&& forall|i: u32| #[trigger] w.Bonds@.contains_key(i) ==> w.reg@.contains(i) && w.BondIds@.contains_key(w.Bonds@[i]) && w.BondIds@[w.Bonds@[i]] == i
    &&& forall|p: (u32, u64)| #[trigger] w.BondIds@.contains_key(p) ==> w.Bonds@.contains_key(w.BondIds@[p]) && w.Bonds@[w.BondIds@[p]] == p
    &&& forall|i: u32| !w.reg@.contains(i) ==> #[trigger] (w.cur.iss())(i) == 0
}
pub open spec fn covered(w: World) -> bool { forall|a: u32| (#[trigger] (w.cur@)(a, pot(), Kind::Free)) >= owed(w, a, 0x1_0000_0000) }
/// issuing keeps the books consistent (one bond per asset and maturity) and every bond covered one to one; so does redeeming, by anyone but the pallet itself
proof fn c43_issue(w: World, v: World, who: AccountId, a: u32, m: u64, x: int)
    requires wf(w), covered(w), who != pot(), 0 <= x, books(w, v, a, m),
        forall|b: u32, k: AccountId, d: Kind| #[trigger] (v.cur@)(b, k, d) == (w.cur@)(b, k, d) + issued(who, a, bond_of(v, a, m), x, b, k, d),
        forall|b: u32| #[trigger] (v.cur.iss())(b) == (w.cur.iss())(b) + at(b == bond_of(v, a, m), kept(x)),
    ensures wf(v), covered(v), v.Bonds@.contains_key(bond_of(v, a, m)) && v.Bonds@[bond_of(v, a, m)] == (a, m),
        w.BondIds@.contains_key((a, m)) ==> bond_of(v, a, m) == bond_of(w, a, m),
        who != fee_to() ==> (v.cur@)(a, who, Kind::Free) + x == (w.cur@)(a, who, Kind::Free) + at(a == bond_of(v, a, m), kept(x)),
{
    c43_fee(x);
    let i = bond_of(v, a, m);
    assert forall|c: u32| (#[trigger] (v.cur@)(c, pot(), Kind::Free)) >= owed(v, c, 0x1_0000_0000) by {
        lem_owed(w, v, i, c, 0x1_0000_0000);
        assert((w.cur@)(c, pot(), Kind::Free) >= owed(w, c, 0x1_0000_0000));
    }
}
proof fn c43_redeem(w: World, v: World, who: AccountId, i: u32, x: int)
    requires wf(w), covered(w), who != pot(), 0 <= x, w.Bonds@.contains_key(i), v.Bonds == w.Bonds, v.BondIds == w.BondIds, v.reg == w.reg,
        forall|b: u32, k: AccountId, d: Kind| #[trigger] (v.cur@)(b, k, d) == (w.cur@)(b, k, d) + redeemed(who, w.Bonds@[i].0, i, x, b, k, d),
        forall|b: u32| #[trigger] (v.cur.iss())(b) == (w.cur.iss())(b) - at(b == i, x),
    ensures wf(v), covered(v),
{
    assert forall|c: u32| (#[trigger] (v.cur@)(c, pot(), Kind::Free)) >= owed(v, c, 0x1_0000_0000) by {
        lem_owed(w, v, i, c, 0x1_0000_0000);
        assert((w.cur@)(c, pot(), Kind::Free) >= owed(w, c, 0x1_0000_0000));
    }
}
}
fn main(){}
