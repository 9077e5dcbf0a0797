/// an amount after a signed change
pub open spec fn moved(v: int, d: int) -> Option<int> { fit128(v + d) }
/// sum of two signed changes, as long as its size stays an amount
pub open spec fn ssum(a: int, b: int) -> Option<int> { if -u128::MAX <= a + b && a + b <= u128::MAX { Some(a + b) } else { None } }
pub open spec fn sgo(r: Option<BalanceUpdate<u128>>) -> Option<int> { match r { None => None, Some(v) => Some(sg(v)) } }
pub open spec fn ast(s: AssetReserveState<u128>) -> (int, int, int, int) { (s.reserve as int, s.hub_reserve as int, s.shares as int, s.protocol_shares as int) }
pub open spec fn aso(r: Option<AssetReserveState<u128>>) -> Option<(int, int, int, int)> { match r { None => None, Some(s) => Some(ast(s)) } }
pub open spec fn spec_delta(s: (int, int, int, int), d: (int, int, int, int)) -> Option<(int, int, int, int)> {
    match (moved(s.0, d.0), moved(s.1, d.1), moved(s.2, d.2), moved(s.3, d.3)) { (Some(a), Some(b), Some(c), Some(e)) => Some((a, b, c, e)), _ => None }
}
/// num_traits' checked operations, which take both operands by reference
pub trait NumChecked { 
    fn num_checked_add(&self, o: &Self) -> Option<Self> where Self: Sized;
    fn num_checked_sub(&self, o: &Self) -> Option<Self> where Self: Sized;
}
impl NumChecked for u128 {
    #[verifier::external_body]
    fn num_checked_add(&self, o: &u128) -> (r: Option<u128>) ensures into_(r) == fit128(*self + *o) { unimplemented!() }
    #[verifier::external_body]
    fn num_checked_sub(&self, o: &u128) -> (r: Option<u128>) ensures into_(r) == fit128(*self - *o) { unimplemented!() }
}
impl NumChecked for BalanceUpdate<u128> {
    #[verifier::external_body]
    fn num_checked_sub(&self, o: &BalanceUpdate<u128>) -> Option<BalanceUpdate<u128>> { unimplemented!() }
//@ fn math/src/omnipool/types.rs::<CheckedAdd for BalanceUpdate>::checked_add(v)
//@ rename ~num_checked_add
//@ meta selfty=BalanceUpdate<u128>
//@ meta call=BalanceUpdate::<u128>::checked_add
//@ ensures sgo(r) == ssum(sg(*self), sg(*v)), (r matches Some(BalanceUpdate::Decrease(x)) && x == 0) ==> *self is Decrease
//@ end
}
impl BalanceUpdate<u128> {
//@ fn math/src/omnipool/types.rs::BalanceUpdate::merge(other)
//@ meta selfty=BalanceUpdate<u128>
//@ meta call=BalanceUpdate::<u128>::merge
//@ ensures sgo(r) == ssum(sg(self), sg(other))
//@ end
}
impl AddSpecImpl<u128> for BalanceUpdate<u128> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: u128) -> bool { true }
    open spec fn add_spec(self, o: u128) -> Option<u128> { if 0 <= o + sg(self) <= u128::MAX { Some((o + sg(self)) as u128) } else { None } }
}
impl Add<u128> for BalanceUpdate<u128> {
    type Output = Option<u128>;
//@ fn math/src/omnipool/types.rs::<Add<Balance> for BalanceUpdate>::add(rhs)
//@ meta selfty=BalanceUpdate<u128>
//@ meta call=<BalanceUpdate<u128> as std::ops::Add<u128>>::add
//@ ensures into_(r) == moved(rhs as int, sg(self))
//@ end
}
impl AddSpecImpl<BalanceUpdate<u128>> for BalanceUpdate<u128> {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: BalanceUpdate<u128>) -> bool { -u128::MAX <= sg(self) + sg(o) && sg(self) + sg(o) <= u128::MAX }
    open spec fn add_spec(self, o: BalanceUpdate<u128>) -> BalanceUpdate<u128> { let t = sg(self) + sg(o); if t > 0 || t == 0 && self is Increase { BalanceUpdate::Increase(t as u128) } else { BalanceUpdate::Decrease((-t) as u128) } }
}
impl Add<BalanceUpdate<u128>> for BalanceUpdate<u128> {
    type Output = BalanceUpdate<u128>;
//@ fn math/src/omnipool/types.rs::<Add<Self> for BalanceUpdate>::add(rhs)
//@ meta skip=1
//@ ensures sg(r) == sg(self) + sg(rhs)
//@ end
}
impl AssetReserveState<u128> {
//@ fn math/src/omnipool/types.rs::AssetReserveState::delta_update(delta)
//@ meta selfty=AssetReserveState<u128>
//@ meta call=AssetReserveState::<u128>::delta_update
//@ ensures aso(r) == spec_delta(ast(self), ac(*delta))
//@ end
}
/// merging two changes is the same as applying them one after the other, in either order
proof fn c25_merge(v: int, a: int, b: int)
    requires 0 <= v <= u128::MAX, -u128::MAX <= a, a <= u128::MAX, -u128::MAX <= b, b <= u128::MAX,
    ensures ssum(a, b) == ssum(b, a),
        moved(v, a) matches Some(u) ==> moved(u, b) matches Some(t) ==> ssum(a, b) is Some && moved(v, ssum(a, b)->0) == Some(t),
        ssum(a, b) matches Some(c) ==> moved(v, a) matches Some(u) ==> moved(u, b) == moved(v, c),
{ }
/// applying a change and then its opposite restores the state; a change is applied to all four balances or to none
proof fn c25_undo(s: (int, int, int, int), d: (int, int, int, int))
    requires 0 <= s.0 <= u128::MAX, 0 <= s.1 <= u128::MAX, 0 <= s.2 <= u128::MAX, 0 <= s.3 <= u128::MAX,
    ensures spec_delta(s, d) matches Some(t) ==> spec_delta(t, (-d.0, -d.1, -d.2, -d.3)) == Some(s) && t == (s.0 + d.0, s.1 + d.1, s.2 + d.2, s.3 + d.3),
        spec_delta(s, (0, 0, 0, 0)) == Some(s),
{ }
