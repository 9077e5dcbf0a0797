// fixed::types::U32F96: an unsigned fixed point number, 96 fractional bits; the view is its bits
pub open spec fn one96() -> int { 0x1_0000_0000_0000_0000_0000_0000 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct U32F96 { i: u128 }
impl U32F96 { pub uninterp spec fn view(&self) -> int; }
pub uninterp spec fn fq_of(i: int) -> U32F96;
pub broadcast axiom fn ax_fq_range(x: U32F96) ensures #![trigger x.view()] 0 <= x@ <= u128::MAX as int;
pub broadcast axiom fn ax_fq_of(i: int) requires 0 <= i <= u128::MAX as int ensures #![trigger fq_of(i)] fq_of(i)@ == i;
pub broadcast axiom fn ax_fq_ext(x: U32F96) ensures #![trigger x.view()] fq_of(x@) == x;
pub broadcast group vxq { ax_fq_range, ax_fq_of, ax_fq_ext }
impl PartialEqSpecImpl for U32F96 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &U32F96) -> bool { self@ == o@ }
}
impl PartialEq for U32F96 {
    #[verifier::external_body]
    fn eq(&self, o: &U32F96) -> bool { unimplemented!() } }
impl Eq for U32F96 {}
impl PartialOrdSpecImpl for U32F96 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &U32F96) -> Option<Ordering> { if self@ < o@ { Some(Ordering::Less) } else if self@ == o@ { Some(Ordering::Equal) } else { Some(Ordering::Greater) } }
}
impl PartialOrd for U32F96 {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &U32F96) -> Option<Ordering> { unimplemented!() } }
pub open spec fn fqo(r: Option<U32F96>) -> Option<int> { match r { Some(v) => Some(v@), None => None } }
pub open spec fn mul96(a: int, b: int) -> int { (a * b) / one96() }
impl U32F96 {
    #[verifier::external_body]
    pub fn from_bits(b: u128) -> (r: U32F96) ensures r@ == b as int { unimplemented!() }
    #[verifier::external_body]
    pub fn to_bits(self) -> (r: u128) ensures r as int == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn zero() -> (r: U32F96) ensures r@ == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn one() -> (r: U32F96) ensures r@ == one96() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_one(&self) -> (r: bool) ensures r == (self@ == one96()) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_add(self, o: U32F96) -> (r: Option<U32F96>) ensures fqo(r) == fit(self@ + o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub(self, o: U32F96) -> (r: Option<U32F96>) ensures fqo(r) == fit(self@ - o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_mul(self, o: U32F96) -> (r: Option<U32F96>) ensures fqo(r) == fit(mul96(self@, o@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_div(self, o: U32F96) -> (r: Option<U32F96>) ensures fqo(r) == (if o@ == 0 { None } else { fit((self@ * one96()) / o@) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_mul_int(self, o: u128) -> (r: Option<U32F96>) ensures fqo(r) == fit(self@ * o) { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_div_int(self, o: u128) -> (r: Option<U32F96>) ensures fqo(r) == (if o == 0 { None } else { Some(self@ / (o as int)) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_add(self, o: U32F96) -> (r: U32F96) ensures r@ == imin(self@ + o@, u128::MAX as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_sub(self, o: U32F96) -> (r: U32F96) ensures r@ == imax(self@ - o@, 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_mul(self, o: U32F96) -> (r: U32F96) ensures r@ == imin(mul96(self@, o@), u128::MAX as int) { unimplemented!() }
}
impl AddSpecImpl<U32F96> for U32F96 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: U32F96) -> bool { self@ + o@ <= u128::MAX as int }
    open spec fn add_spec(self, o: U32F96) -> U32F96 { fq_of(self@ + o@) }
}
impl Add<U32F96> for U32F96 { type Output = U32F96;
    #[verifier::external_body]
    fn add(self, o: U32F96) -> U32F96 { unimplemented!() } }
impl SubSpecImpl<U32F96> for U32F96 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: U32F96) -> bool { self@ >= o@ }
    open spec fn sub_spec(self, o: U32F96) -> U32F96 { fq_of(self@ - o@) }
}
impl Sub<U32F96> for U32F96 { type Output = U32F96;
    #[verifier::external_body]
    fn sub(self, o: U32F96) -> U32F96 { unimplemented!() } }
impl MulSpecImpl<U32F96> for U32F96 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: U32F96) -> bool { mul96(self@, o@) <= u128::MAX as int }
    open spec fn mul_spec(self, o: U32F96) -> U32F96 { fq_of(mul96(self@, o@)) }
}
impl Mul<U32F96> for U32F96 { type Output = U32F96;
    #[verifier::external_body]
    fn mul(self, o: U32F96) -> U32F96 { unimplemented!() } }
impl ShrSpecImpl<u32> for U32F96 {
    open spec fn obeys_shr_spec() -> bool { true }
    open spec fn shr_req(self, k: u32) -> bool { k < 128 }
    open spec fn shr_spec(self, k: u32) -> U32F96 { fq_of(self@ / pow2s(k as int)) }
}
impl Shr<u32> for U32F96 { type Output = U32F96;
    #[verifier::external_body]
    fn shr(self, k: u32) -> U32F96 { unimplemented!() } }
/// x & y, for y a single unit
impl BitAndSpecImpl<U32F96> for U32F96 {
    open spec fn obeys_bitand_spec() -> bool { true }
    open spec fn bitand_req(self, o: U32F96) -> bool { o@ == 1 }
    open spec fn bitand_spec(self, o: U32F96) -> U32F96 { fq_of(self@ % 2) }
}
impl BitAnd<U32F96> for U32F96 { type Output = U32F96;
    #[verifier::external_body]
    fn bitand(self, o: U32F96) -> U32F96 { unimplemented!() } }
impl DivSpecImpl<U32F96> for U32F96 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: U32F96) -> bool { o@ > 0 && (self@ * one96()) / o@ <= u128::MAX }
    open spec fn div_spec(self, o: U32F96) -> U32F96 { fq_of((self@ * one96()) / o@) }
}
impl Div<U32F96> for U32F96 { type Output = U32F96;
    #[verifier::external_body]
    fn div(self, o: U32F96) -> U32F96 { unimplemented!() } }
/// what `from_num` accepts
pub trait ToFixed { spec fn bits96(self) -> int; }
impl ToFixed for u128 { open spec fn bits96(self) -> int { self * one96() } }
impl ToFixed for u32 { open spec fn bits96(self) -> int { self * one96() } }
impl ToFixed for i32 { open spec fn bits96(self) -> int { self * one96() } }
pub open spec fn log2_e() -> int { 0x171547652b82fe1777d0ffda0 }
pub open spec fn exp_1() -> int { 0x2b7e151628aed2a6abf715880 }
/// the constants of `fixed::consts`
pub mod fixed { pub mod consts { pub struct LOG2_E; pub struct E; } }
impl ToFixed for fixed::consts::LOG2_E { open spec fn bits96(self) -> int { log2_e() } }
impl ToFixed for fixed::consts::E { open spec fn bits96(self) -> int { exp_1() } }
impl U32F96 {
    pub const FRAC_NBITS: u32 = 96;
    #[verifier::external_body]
    pub fn from_num<T: ToFixed>(x: T) -> (r: U32F96) requires 0 <= x.bits96() <= u128::MAX, ensures r@ == x.bits96() { unimplemented!() }
    #[verifier::external_body]
    pub fn overflowing_to_num<T>(self) -> (r: (U32F96, bool)) ensures r.0 == self, r.1 == false { unimplemented!() }
}
