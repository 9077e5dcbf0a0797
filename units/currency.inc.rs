// ---- the multi currency pallet: balances per asset, account and kind (free, or reserved under the pallet's own name); an operation that fails leaves
// the chain's state unspecified (the dispatch it is part of fails and is rolled back), one that succeeds has exactly the documented effect
pub enum Kind { Free, Reserved }
pub type Bal = spec_fn(u32, AccountId, Kind) -> int;
#[verifier::external_body]
pub struct Cur { o: u8 }
impl Cur {
    pub uninterp spec fn view(&self) -> Bal;
    /// the total issuance of an asset
    pub uninterp spec fn iss(&self) -> spec_fn(u32) -> int;
    #[verifier::external_body]
    pub fn free_balance(&self, a: u32, who: &AccountId) -> (r: u128) ensures r as int == (self@)(a, *who, Kind::Free) { unimplemented!() }
    /// what an account holds of an asset in every way, not only as free and as this pallet's reserves
    pub uninterp spec fn total(&self) -> spec_fn(u32, AccountId) -> int;
    #[verifier::external_body]
    pub fn total_balance(&self, a: u32, who: &AccountId) -> (r: u128) ensures r as int == (self.total())(a, *who) { unimplemented!() }
    /// whether a withdrawal would be accepted
    #[verifier::external_body]
    pub fn ensure_can_withdraw(&self, a: u32, who: &AccountId, x: u128) -> (r: DispatchResult) ensures r is Ok ==> x as int <= (self@)(a, *who, Kind::Free) { unimplemented!() }
    #[verifier::external_body]
    pub fn transfer(&mut self, a: u32, from: &AccountId, to: &AccountId, x: u128) -> (r: DispatchResult)
        ensures r is Ok ==> forall|b: u32, k: AccountId, d: Kind| #[trigger] (final(self)@)(b, k, d) == (old(self)@)(b, k, d) + at(b == a && k == *to && d is Free, x as int) - at(b == a && k == *from && d is Free, x as int),
            r is Ok ==> final(self).iss() == old(self).iss(), r is Err ==> *final(self) == *old(self),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn deposit(&mut self, a: u32, to: &AccountId, x: u128) -> (r: DispatchResult)
        ensures r is Ok ==> forall|b: u32, k: AccountId, d: Kind| #[trigger] (final(self)@)(b, k, d) == (old(self)@)(b, k, d) + at(b == a && k == *to && d is Free, x as int),
            r is Ok ==> forall|b: u32| #[trigger] (final(self).iss())(b) == (old(self).iss())(b) + at(b == a, x as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn withdraw(&mut self, a: u32, from: &AccountId, x: u128) -> (r: DispatchResult)
        ensures r is Ok ==> forall|b: u32, k: AccountId, d: Kind| #[trigger] (final(self)@)(b, k, d) == (old(self)@)(b, k, d) - at(b == a && k == *from && d is Free, x as int),
            r is Ok ==> forall|b: u32| #[trigger] (final(self).iss())(b) == (old(self).iss())(b) - at(b == a, x as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reserve_named(&mut self, id: &[u8; 8], a: u32, who: &AccountId, x: u128) -> (r: DispatchResult)
        ensures r is Ok ==> forall|b: u32, k: AccountId, d: Kind| #[trigger] (final(self)@)(b, k, d) == (old(self)@)(b, k, d) + at(b == a && k == *who && d is Reserved, x as int) - at(b == a && k == *who && d is Free, x as int),
            r is Ok ==> final(self).iss() == old(self).iss(),
    { unimplemented!() }
    /// returns what could not be unreserved
    #[verifier::external_body]
    pub fn unreserve_named(&mut self, id: &[u8; 8], a: u32, who: &AccountId, x: u128) -> (r: u128)
        ensures r <= x, forall|b: u32, k: AccountId, d: Kind| #[trigger] (final(self)@)(b, k, d) == (old(self)@)(b, k, d) - at(b == a && k == *who && d is Reserved, x - r) + at(b == a && k == *who && d is Free, x - r),
            final(self).iss() == old(self).iss(),
    { unimplemented!() }
}
pub open spec fn at(c: bool, x: int) -> int { if c { x } else { 0 } }
