// the Omnipool pallet's types: states, deltas, imbalance
impl Deref for BalanceUpdate<u128> {
    type Target = u128;
//@ fn math/src/omnipool/types.rs::<Deref for BalanceUpdate>::deref()
//@ meta noreplay=1
//@ ensures *r as int == iabs(sg(*self))
//@ end
}
/// the flags of an asset, as the bitflags crate defines them: each operation has its own bit
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Tradability { pub bits: u8 }
impl Tradability {
    pub const SELL: Tradability = Tradability { bits: 1 };
    pub const BUY: Tradability = Tradability { bits: 2 };
    pub fn contains(&self, o: Tradability) -> (r: bool) ensures r == has(*self, o) { (self.bits & o.bits) == o.bits }
}
pub open spec fn has(t: Tradability, o: Tradability) -> bool { (t.bits & o.bits) == o.bits }
/// derived clones are copies
pub trait VClone: Sized { fn vclone(&self) -> (r: Self) ensures r == *self; }
impl<T> VClone for T { #[verifier::external_body] fn vclone(&self) -> (r: Self) { unimplemented!() } }
//@ item pallets/omnipool/src/types.rs::AssetState derive none
//@ item pallets/omnipool/src/types.rs::AssetReserveState as PoolState derive Clone, Copy
//@ item pallets/omnipool/src/types.rs::SimpleImbalance derive Clone, Copy
//@ item pallets/omnipool/src/traits.rs::AssetInfo derive none
//@ item pallets/omnipool/src/lib.rs::Error derive none
impl From<Error> for DispatchError { #[verifier::external_body] fn from(e: Error) -> (r: Self) { DispatchError::E } }
//@ item pallets/omnipool/src/lib.rs::Event derive none
pub type AssetId = u32;
pub type Price = FixedU128;
pub open spec fn with_reserve(s: AssetState<u128>, x: u128) -> PoolState<u128> { PoolState { reserve: x, hub_reserve: s.hub_reserve, shares: s.shares, protocol_shares: s.protocol_shares, cap: s.cap, tradable: s.tradable } }
pub open spec fn without_reserve(s: PoolState<u128>) -> AssetState<u128> { AssetState { hub_reserve: s.hub_reserve, shares: s.shares, protocol_shares: s.protocol_shares, cap: s.cap, tradable: s.tradable } }
pub open spec fn to_math(s: PoolState<u128>) -> AssetReserveState<u128> { AssetReserveState { reserve: s.reserve, hub_reserve: s.hub_reserve, shares: s.shares, protocol_shares: s.protocol_shares } }
impl vstd::std_specs::convert::FromSpecImpl<(AssetState<u128>, u128)> for PoolState<u128> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: (AssetState<u128>, u128)) -> PoolState<u128> { with_reserve(x.0, x.1) } }
impl From<(AssetState<u128>, u128)> for PoolState<u128> {
//@ fn pallets/omnipool/src/types.rs::<From<(AssetState<Balance>,Balance)> for AssetReserveState>::from(x)
//@ meta noreplay=1
//@ ensures r == with_reserve(x.0, x.1)
//@ end
}
impl vstd::std_specs::convert::FromSpecImpl<PoolState<u128>> for AssetState<u128> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: PoolState<u128>) -> AssetState<u128> { without_reserve(x) } }
impl From<PoolState<u128>> for AssetState<u128> {
//@ fn pallets/omnipool/src/types.rs::<From<AssetReserveState<Balance>> for AssetState>::from(x)
//@ meta noreplay=1
//@ ensures r == without_reserve(x)
//@ end
}
impl vstd::std_specs::convert::FromSpecImpl<&PoolState<u128>> for AssetReserveState<u128> { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(x: &PoolState<u128>) -> AssetReserveState<u128> { to_math(*x) } }
impl From<&PoolState<u128>> for AssetReserveState<u128> {
//@ fn pallets/omnipool/src/types.rs::<From<&AssetReserveState<Balance>> for MathReserveState>::from(x)
//@ meta noreplay=1
//@ ensures r == to_math(*x)
//@ end
}
pub open spec fn pst(s: PoolState<u128>) -> (int, int, int, int) { (s.reserve as int, s.hub_reserve as int, s.shares as int, s.protocol_shares as int) }
/// a state after the changes
pub open spec fn shifted(s: PoolState<u128>, d: (int, int, int, int)) -> PoolState<u128> {
    PoolState { reserve: (s.reserve + d.0) as u128, hub_reserve: (s.hub_reserve + d.1) as u128, shares: (s.shares + d.2) as u128, protocol_shares: (s.protocol_shares + d.3) as u128, cap: s.cap, tradable: s.tradable }
}
impl PoolState<u128> {
//@ fn pallets/omnipool/src/types.rs::AssetReserveState::delta_update(delta)
//@ meta noreplay=1
//@ ensures r is Some <==> spec_delta(pst(self), ac(*delta)) is Some, r matches Some(s) ==> s == shifted(self, ac(*delta)) && pst(s) == spec_delta(pst(self), ac(*delta))->0
//@ end
}
/// the imbalance as a signed amount
pub open spec fn sv(i: SimpleImbalance<u128>) -> int { if i.negative { -(i.value as int) } else { i.value as int } }
impl AddSpecImpl<u128> for SimpleImbalance<u128> {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: u128) -> bool { true }
    open spec fn add_spec(self, o: u128) -> Option<SimpleImbalance<u128>> { None }
}
impl Add<u128> for SimpleImbalance<u128> {
    type Output = Option<SimpleImbalance<u128>>;
//@ fn pallets/omnipool/src/types.rs::<Add<Balance> for SimpleImbalance>::add(amount)
//@ meta noreplay=1
//@ ensures r matches Some(i) ==> sv(i) == sv(self) + amount && (i.negative <==> self.negative && self.value >= amount), self.negative ==> r is Some
//@ end
}
impl SubSpecImpl<u128> for SimpleImbalance<u128> {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: u128) -> bool { true }
    open spec fn sub_spec(self, o: u128) -> Option<SimpleImbalance<u128>> { None }
}
impl Sub<u128> for SimpleImbalance<u128> {
    type Output = Option<SimpleImbalance<u128>>;
//@ fn pallets/omnipool/src/types.rs::<Sub<Balance> for SimpleImbalance>::sub(amount)
//@ meta noreplay=1
//@ ensures r matches Some(i) ==> sv(i) == sv(self) - amount && (i.negative <==> self.negative || self.value <= amount), !self.negative ==> r is Some
//@ end
}
impl AssetInfo<u32, u128> {
//@ fn pallets/omnipool/src/traits.rs::AssetInfo::new(asset_id, before_state, after_state, delta_changes, safe_withdrawal)
//@ meta noreplay=1
//@ subst Balance => u128
//@ ensures r.asset_id == asset_id, r.before == *before_state, r.after == *after_state, r.delta_changes == *delta_changes, r.safe_withdrawal == safe_withdrawal
//@ end
}
pub type Info = AssetInfo<u32, u128>;
