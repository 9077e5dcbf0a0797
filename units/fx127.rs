// fixed::types::U1F127: an unsigned fixed point number, 127 fractional bits; the view is its bits
pub open spec fn one127() -> int { 0x8000_0000_0000_0000_0000_0000_0000_0000 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Fraction { i: u128 }
impl Fraction { pub uninterp spec fn view(&self) -> int; }
pub uninterp spec fn fr_of(i: int) -> Fraction;
pub broadcast axiom fn ax_fr_range(x: Fraction) ensures #![trigger x.view()] 0 <= x@ <= u128::MAX as int;
pub broadcast axiom fn ax_fr_of(i: int) requires 0 <= i <= u128::MAX as int ensures #![trigger fr_of(i)] fr_of(i)@ == i;
pub broadcast axiom fn ax_fr_ext(x: Fraction) ensures #![trigger x.view()] fr_of(x@) == x;
pub broadcast group vxr { ax_fr_range, ax_fr_of, ax_fr_ext }
impl PartialEqSpecImpl for Fraction {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Fraction) -> bool { self@ == o@ }
}
impl PartialEq for Fraction {
    #[verifier::external_body]
    fn eq(&self, o: &Fraction) -> bool { unimplemented!() } }
impl Eq for Fraction {}
impl PartialOrdSpecImpl for Fraction {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Fraction) -> Option<Ordering> { if self@ < o@ { Some(Ordering::Less) } else if self@ == o@ { Some(Ordering::Equal) } else { Some(Ordering::Greater) } }
}
impl PartialOrd for Fraction {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Fraction) -> Option<Ordering> { unimplemented!() } }
pub open spec fn fro(r: Option<Fraction>) -> Option<int> { match r { Some(v) => Some(v@), None => None } }
pub open spec fn mul127(a: int, b: int) -> int { (a * b) / one127() }
impl Fraction {
    #[verifier::external_body]
    pub fn from_bits(b: u128) -> (r: Fraction) ensures r@ == b as int { unimplemented!() }
    #[verifier::external_body]
    pub fn to_bits(self) -> (r: u128) ensures r as int == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn zero() -> (r: Fraction) ensures r@ == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn one() -> (r: Fraction) ensures r@ == one127() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_one(&self) -> (r: bool) ensures r == (self@ == one127()) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_add(self, o: Fraction) -> (r: Option<Fraction>) ensures fro(r) == fit(self@ + o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub(self, o: Fraction) -> (r: Option<Fraction>) ensures fro(r) == fit(self@ - o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_mul(self, o: Fraction) -> (r: Option<Fraction>) ensures fro(r) == fit(mul127(self@, o@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_div(self, o: Fraction) -> (r: Option<Fraction>) ensures fro(r) == (if o@ == 0 { None } else { fit((self@ * one127()) / o@) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_mul_int(self, o: u128) -> (r: Option<Fraction>) ensures fro(r) == fit(self@ * o) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_div_int(self, o: u128) -> (r: Option<Fraction>) ensures fro(r) == (if o == 0 { None } else { Some(self@ / (o as int)) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_add(self, o: Fraction) -> (r: Fraction) ensures r@ == imin(self@ + o@, u128::MAX as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_sub(self, o: Fraction) -> (r: Fraction) ensures r@ == imax(self@ - o@, 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_mul(self, o: Fraction) -> (r: Fraction) ensures r@ == imin(mul127(self@, o@), u128::MAX as int) { unimplemented!() }
}
impl AddSpecImpl<Fraction> for Fraction {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Fraction) -> bool { self@ + o@ <= u128::MAX as int }
    open spec fn add_spec(self, o: Fraction) -> Fraction { fr_of(self@ + o@) }
}
impl Add<Fraction> for Fraction { type Output = Fraction;
    #[verifier::external_body]
    fn add(self, o: Fraction) -> Fraction { unimplemented!() } }
impl SubSpecImpl<Fraction> for Fraction {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Fraction) -> bool { self@ >= o@ }
    open spec fn sub_spec(self, o: Fraction) -> Fraction { fr_of(self@ - o@) }
}
impl Sub<Fraction> for Fraction { type Output = Fraction;
    #[verifier::external_body]
    fn sub(self, o: Fraction) -> Fraction { unimplemented!() } }
impl MulSpecImpl<Fraction> for Fraction {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Fraction) -> bool { mul127(self@, o@) <= u128::MAX as int }
    open spec fn mul_spec(self, o: Fraction) -> Fraction { fr_of(mul127(self@, o@)) }
}
impl Mul<Fraction> for Fraction { type Output = Fraction;
    #[verifier::external_body]
    fn mul(self, o: Fraction) -> Fraction { unimplemented!() } }
