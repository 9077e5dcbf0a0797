#[derive(Clone, Copy)]
pub struct ConvErr;
pub open spec fn pow2s(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * pow2s(n - 1) } }
pub open spec fn nbits(n: int) -> int decreases n { if n <= 0 { 0 } else { 1 + nbits(n / 2) } }
impl U256 {
    #[verifier::external_body]
    pub fn checked_add(self, o: U256) -> (r: Option<U256>)
        ensures (self@ + o@ < p256()) ==> (r matches Some(v) && v@ == self@ + o@), !(self@ + o@ < p256()) ==> r.is_none(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub(self, o: U256) -> (r: Option<U256>)
        ensures (self@ >= o@) ==> (r matches Some(v) && v@ == self@ - o@), !(self@ >= o@) ==> r.is_none(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_mul(self, o: U256) -> (r: Option<U256>)
        ensures (self@ * o@ < p256()) ==> (r matches Some(v) && v@ == self@ * o@), !(self@ * o@ < p256()) ==> r.is_none(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_div(self, o: U256) -> (r: Option<U256>)
        ensures (o@ != 0) ==> (r matches Some(v) && v@ == self@ / o@), !(o@ != 0) ==> r.is_none(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_rem(self, o: U256) -> (r: Option<U256>)
        ensures (o@ != 0) ==> (r matches Some(v) && v@ == self@ % o@), !(o@ != 0) ==> r.is_none(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_add(self, o: U256) -> (r: U256)
        ensures r@ == imin(self@ + o@, p256() - 1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_sub(self, o: U256) -> (r: U256)
        ensures r@ == imax(self@ - o@, 0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_mul(self, o: U256) -> (r: U256)
        ensures r@ == imin(self@ * o@, p256() - 1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool)
        ensures r == (self@ == 0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn zero() -> (r: U256)
        ensures r@ == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn one() -> (r: U256)
        ensures r@ == 1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn max_value() -> (r: U256)
        ensures r@ == p256() - 1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn abs_diff(self, o: U256) -> (r: U256)
        ensures r@ == iabs(self@ - o@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, o: U256) -> (r: U256)
        ensures r@ == imin(self@, o@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self, o: U256) -> (r: U256)
        ensures r@ == imax(self@, o@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn div_mod(self, o: U256) -> (r: (U256, U256))
        requires o@ != 0,
        ensures r.0@ == self@ / o@, r.1@ == self@ % o@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn bits(&self) -> (r: usize)
        ensures 0 <= r <= 512, r == nbits(self@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn integer_sqrt(&self) -> (r: U256)
        ensures r@ * r@ <= self@, (r@ + 1) * (r@ + 1) > self@, r@ >= 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn low_u128(&self) -> (r: u128)
        ensures r as int == self@ % p128(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_u128(&self) -> (r: u128)
        requires self@ < p128(),
        ensures r as int == self@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn full_mul(self, o: U256) -> (r: U512)
        ensures r@ == self@ * o@,
    { unimplemented!() }
}
impl AddSpecImpl<U256> for U256 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: U256) -> bool { self@ + o@ < p256() }
    open spec fn add_spec(self, o: U256) -> U256 { u256_of(self@ + o@) }
}
impl Add<U256> for U256 { type Output = U256;
    #[verifier::external_body]
    fn add(self, o: U256) -> U256 { unimplemented!() } }
impl SubSpecImpl<U256> for U256 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: U256) -> bool { self@ >= o@ }
    open spec fn sub_spec(self, o: U256) -> U256 { u256_of(self@ - o@) }
}
impl Sub<U256> for U256 { type Output = U256;
    #[verifier::external_body]
    fn sub(self, o: U256) -> U256 { unimplemented!() } }
impl MulSpecImpl<U256> for U256 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: U256) -> bool { self@ * o@ < p256() }
    open spec fn mul_spec(self, o: U256) -> U256 { u256_of(self@ * o@) }
}
impl Mul<U256> for U256 { type Output = U256;
    #[verifier::external_body]
    fn mul(self, o: U256) -> U256 { unimplemented!() } }
impl DivSpecImpl<U256> for U256 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: U256) -> bool { o@ != 0 }
    open spec fn div_spec(self, o: U256) -> U256 { u256_of(self@ / o@) }
}
impl Div<U256> for U256 { type Output = U256;
    #[verifier::external_body]
    fn div(self, o: U256) -> U256 { unimplemented!() } }
impl RemSpecImpl<U256> for U256 {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, o: U256) -> bool { o@ != 0 }
    open spec fn rem_spec(self, o: U256) -> U256 { u256_of(self@ % o@) }
}
impl Rem<U256> for U256 { type Output = U256;
    #[verifier::external_body]
    fn rem(self, o: U256) -> U256 { unimplemented!() } }
impl ShrSpecImpl<usize> for U256 {
    open spec fn obeys_shr_spec() -> bool { true }
    open spec fn shr_req(self, o: usize) -> bool { true }
    open spec fn shr_spec(self, o: usize) -> U256 { u256_of(self@ / pow2s(o as int)) }
}
impl Shr<usize> for U256 { type Output = U256;
    #[verifier::external_body]
    fn shr(self, o: usize) -> U256 { unimplemented!() } }
impl ShrSpecImpl<u32> for U256 {
    open spec fn obeys_shr_spec() -> bool { true }
    open spec fn shr_req(self, o: u32) -> bool { true }
    open spec fn shr_spec(self, o: u32) -> U256 { u256_of(self@ / pow2s(o as int)) }
}
impl Shr<u32> for U256 { type Output = U256;
    #[verifier::external_body]
    fn shr(self, o: u32) -> U256 { unimplemented!() } }
impl ShrSpecImpl<u8> for U256 {
    open spec fn obeys_shr_spec() -> bool { true }
    open spec fn shr_req(self, o: u8) -> bool { true }
    open spec fn shr_spec(self, o: u8) -> U256 { u256_of(self@ / pow2s(o as int)) }
}
impl Shr<u8> for U256 { type Output = U256;
    #[verifier::external_body]
    fn shr(self, o: u8) -> U256 { unimplemented!() } }
impl ShlSpecImpl<usize> for U256 {
    open spec fn obeys_shl_spec() -> bool { true }
    open spec fn shl_req(self, o: usize) -> bool { true }
    open spec fn shl_spec(self, o: usize) -> U256 { u256_of((self@ * pow2s(o as int)) % p256()) }
}
impl Shl<usize> for U256 { type Output = U256;
    #[verifier::external_body]
    fn shl(self, o: usize) -> U256 { unimplemented!() } }
impl ShlSpecImpl<u32> for U256 {
    open spec fn obeys_shl_spec() -> bool { true }
    open spec fn shl_req(self, o: u32) -> bool { true }
    open spec fn shl_spec(self, o: u32) -> U256 { u256_of((self@ * pow2s(o as int)) % p256()) }
}
impl Shl<u32> for U256 { type Output = U256;
    #[verifier::external_body]
    fn shl(self, o: u32) -> U256 { unimplemented!() } }
impl PartialEqSpecImpl for U256 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &U256) -> bool { self@ == o@ }
}
impl PartialEq for U256 {
    #[verifier::external_body]
    fn eq(&self, o: &U256) -> bool { unimplemented!() } }
impl Eq for U256 {}
impl PartialOrdSpecImpl for U256 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &U256) -> Option<Ordering> { if self@ < o@ { Some(Ordering::Less) } else if self@ == o@ { Some(Ordering::Equal) } else { Some(Ordering::Greater) } }
}
impl PartialOrd for U256 {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &U256) -> Option<Ordering> { unimplemented!() } }
impl OrdSpecImpl for U256 {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &U256) -> Ordering { if self@ < o@ { Ordering::Less } else if self@ == o@ { Ordering::Equal } else { Ordering::Greater } }
}
impl Ord for U256 {
    #[verifier::external_body]
    fn cmp(&self, o: &U256) -> Ordering { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<u128> for U256 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u128) -> Self { u256_of(v as int) }
}
impl From<u128> for U256 {
    #[verifier::external_body]
    fn from(v: u128) -> (r: U256) ensures r@ == v as int { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<u64> for U256 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u64) -> Self { u256_of(v as int) }
}
impl From<u64> for U256 {
    #[verifier::external_body]
    fn from(v: u64) -> (r: U256) ensures r@ == v as int { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<u32> for U256 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u32) -> Self { u256_of(v as int) }
}
impl From<u32> for U256 {
    #[verifier::external_body]
    fn from(v: u32) -> (r: U256) ensures r@ == v as int { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<u16> for U256 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u16) -> Self { u256_of(v as int) }
}
impl From<u16> for U256 {
    #[verifier::external_body]
    fn from(v: u16) -> (r: U256) ensures r@ == v as int { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<u8> for U256 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u8) -> Self { u256_of(v as int) }
}
impl From<u8> for U256 {
    #[verifier::external_body]
    fn from(v: u8) -> (r: U256) ensures r@ == v as int { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<usize> for U256 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: usize) -> Self { u256_of(v as int) }
}
impl From<usize> for U256 {
    #[verifier::external_body]
    fn from(v: usize) -> (r: U256) ensures r@ == v as int { unimplemented!() } }
impl TryFrom<U256> for u128 { type Error = ConvErr;
    #[verifier::external_body]
    fn try_from(v: U256) -> (r: Result<u128, ConvErr>)
        ensures v@ <= u128::MAX as int ==> (r matches Ok(x) && x as int == v@), v@ > u128::MAX as int ==> r.is_err()
    { unimplemented!() } }
impl TryFrom<U256> for u64 { type Error = ConvErr;
    #[verifier::external_body]
    fn try_from(v: U256) -> (r: Result<u64, ConvErr>)
        ensures v@ <= u64::MAX as int ==> (r matches Ok(x) && x as int == v@), v@ > u64::MAX as int ==> r.is_err()
    { unimplemented!() } }
impl TryFrom<U256> for u32 { type Error = ConvErr;
    #[verifier::external_body]
    fn try_from(v: U256) -> (r: Result<u32, ConvErr>)
        ensures v@ <= u32::MAX as int ==> (r matches Ok(x) && x as int == v@), v@ > u32::MAX as int ==> r.is_err()
    { unimplemented!() } }
impl TryFrom<U256> for u16 { type Error = ConvErr;
    #[verifier::external_body]
    fn try_from(v: U256) -> (r: Result<u16, ConvErr>)
        ensures v@ <= u16::MAX as int ==> (r matches Ok(x) && x as int == v@), v@ > u16::MAX as int ==> r.is_err()
    { unimplemented!() } }
impl TryFrom<U256> for u8 { type Error = ConvErr;
    #[verifier::external_body]
    fn try_from(v: U256) -> (r: Result<u8, ConvErr>)
        ensures v@ <= u8::MAX as int ==> (r matches Ok(x) && x as int == v@), v@ > u8::MAX as int ==> r.is_err()
    { unimplemented!() } }
impl TryFrom<U256> for usize { type Error = ConvErr;
    #[verifier::external_body]
    fn try_from(v: U256) -> (r: Result<usize, ConvErr>)
        ensures v@ <= usize::MAX as int ==> (r matches Ok(x) && x as int == v@), v@ > usize::MAX as int ==> r.is_err()
    { unimplemented!() } }
impl U512 {
    #[verifier::external_body]
    pub fn checked_add(self, o: U512) -> (r: Option<U512>)
        ensures (self@ + o@ < p512()) ==> (r matches Some(v) && v@ == self@ + o@), !(self@ + o@ < p512()) ==> r.is_none(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub(self, o: U512) -> (r: Option<U512>)
        ensures (self@ >= o@) ==> (r matches Some(v) && v@ == self@ - o@), !(self@ >= o@) ==> r.is_none(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_mul(self, o: U512) -> (r: Option<U512>)
        ensures (self@ * o@ < p512()) ==> (r matches Some(v) && v@ == self@ * o@), !(self@ * o@ < p512()) ==> r.is_none(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_div(self, o: U512) -> (r: Option<U512>)
        ensures (o@ != 0) ==> (r matches Some(v) && v@ == self@ / o@), !(o@ != 0) ==> r.is_none(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_rem(self, o: U512) -> (r: Option<U512>)
        ensures (o@ != 0) ==> (r matches Some(v) && v@ == self@ % o@), !(o@ != 0) ==> r.is_none(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_add(self, o: U512) -> (r: U512)
        ensures r@ == imin(self@ + o@, p512() - 1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_sub(self, o: U512) -> (r: U512)
        ensures r@ == imax(self@ - o@, 0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_mul(self, o: U512) -> (r: U512)
        ensures r@ == imin(self@ * o@, p512() - 1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool)
        ensures r == (self@ == 0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn zero() -> (r: U512)
        ensures r@ == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn one() -> (r: U512)
        ensures r@ == 1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn max_value() -> (r: U512)
        ensures r@ == p512() - 1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn abs_diff(self, o: U512) -> (r: U512)
        ensures r@ == iabs(self@ - o@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, o: U512) -> (r: U512)
        ensures r@ == imin(self@, o@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self, o: U512) -> (r: U512)
        ensures r@ == imax(self@, o@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn div_mod(self, o: U512) -> (r: (U512, U512))
        requires o@ != 0,
        ensures r.0@ == self@ / o@, r.1@ == self@ % o@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn bits(&self) -> (r: usize)
        ensures 0 <= r <= 512, r == nbits(self@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn integer_sqrt(&self) -> (r: U512)
        ensures r@ * r@ <= self@, (r@ + 1) * (r@ + 1) > self@, r@ >= 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn low_u128(&self) -> (r: u128)
        ensures r as int == self@ % p128(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_u128(&self) -> (r: u128)
        requires self@ < p128(),
        ensures r as int == self@,
    { unimplemented!() }
}
impl AddSpecImpl<U512> for U512 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: U512) -> bool { self@ + o@ < p512() }
    open spec fn add_spec(self, o: U512) -> U512 { u512_of(self@ + o@) }
}
impl Add<U512> for U512 { type Output = U512;
    #[verifier::external_body]
    fn add(self, o: U512) -> U512 { unimplemented!() } }
impl SubSpecImpl<U512> for U512 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: U512) -> bool { self@ >= o@ }
    open spec fn sub_spec(self, o: U512) -> U512 { u512_of(self@ - o@) }
}
impl Sub<U512> for U512 { type Output = U512;
    #[verifier::external_body]
    fn sub(self, o: U512) -> U512 { unimplemented!() } }
impl MulSpecImpl<U512> for U512 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: U512) -> bool { self@ * o@ < p512() }
    open spec fn mul_spec(self, o: U512) -> U512 { u512_of(self@ * o@) }
}
impl Mul<U512> for U512 { type Output = U512;
    #[verifier::external_body]
    fn mul(self, o: U512) -> U512 { unimplemented!() } }
impl DivSpecImpl<U512> for U512 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: U512) -> bool { o@ != 0 }
    open spec fn div_spec(self, o: U512) -> U512 { u512_of(self@ / o@) }
}
impl Div<U512> for U512 { type Output = U512;
    #[verifier::external_body]
    fn div(self, o: U512) -> U512 { unimplemented!() } }
impl RemSpecImpl<U512> for U512 {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, o: U512) -> bool { o@ != 0 }
    open spec fn rem_spec(self, o: U512) -> U512 { u512_of(self@ % o@) }
}
impl Rem<U512> for U512 { type Output = U512;
    #[verifier::external_body]
    fn rem(self, o: U512) -> U512 { unimplemented!() } }
impl ShrSpecImpl<usize> for U512 {
    open spec fn obeys_shr_spec() -> bool { true }
    open spec fn shr_req(self, o: usize) -> bool { true }
    open spec fn shr_spec(self, o: usize) -> U512 { u512_of(self@ / pow2s(o as int)) }
}
impl Shr<usize> for U512 { type Output = U512;
    #[verifier::external_body]
    fn shr(self, o: usize) -> U512 { unimplemented!() } }
impl ShrSpecImpl<u32> for U512 {
    open spec fn obeys_shr_spec() -> bool { true }
    open spec fn shr_req(self, o: u32) -> bool { true }
    open spec fn shr_spec(self, o: u32) -> U512 { u512_of(self@ / pow2s(o as int)) }
}
impl Shr<u32> for U512 { type Output = U512;
    #[verifier::external_body]
    fn shr(self, o: u32) -> U512 { unimplemented!() } }
impl ShrSpecImpl<u8> for U512 {
    open spec fn obeys_shr_spec() -> bool { true }
    open spec fn shr_req(self, o: u8) -> bool { true }
    open spec fn shr_spec(self, o: u8) -> U512 { u512_of(self@ / pow2s(o as int)) }
}
impl Shr<u8> for U512 { type Output = U512;
    #[verifier::external_body]
    fn shr(self, o: u8) -> U512 { unimplemented!() } }
impl ShlSpecImpl<usize> for U512 {
    open spec fn obeys_shl_spec() -> bool { true }
    open spec fn shl_req(self, o: usize) -> bool { true }
    open spec fn shl_spec(self, o: usize) -> U512 { u512_of((self@ * pow2s(o as int)) % p512()) }
}
impl Shl<usize> for U512 { type Output = U512;
    #[verifier::external_body]
    fn shl(self, o: usize) -> U512 { unimplemented!() } }
impl ShlSpecImpl<u32> for U512 {
    open spec fn obeys_shl_spec() -> bool { true }
    open spec fn shl_req(self, o: u32) -> bool { true }
    open spec fn shl_spec(self, o: u32) -> U512 { u512_of((self@ * pow2s(o as int)) % p512()) }
}
impl Shl<u32> for U512 { type Output = U512;
    #[verifier::external_body]
    fn shl(self, o: u32) -> U512 { unimplemented!() } }
impl PartialEqSpecImpl for U512 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &U512) -> bool { self@ == o@ }
}
impl PartialEq for U512 {
    #[verifier::external_body]
    fn eq(&self, o: &U512) -> bool { unimplemented!() } }
impl Eq for U512 {}
impl PartialOrdSpecImpl for U512 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &U512) -> Option<Ordering> { if self@ < o@ { Some(Ordering::Less) } else if self@ == o@ { Some(Ordering::Equal) } else { Some(Ordering::Greater) } }
}
impl PartialOrd for U512 {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &U512) -> Option<Ordering> { unimplemented!() } }
impl OrdSpecImpl for U512 {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &U512) -> Ordering { if self@ < o@ { Ordering::Less } else if self@ == o@ { Ordering::Equal } else { Ordering::Greater } }
}
impl Ord for U512 {
    #[verifier::external_body]
    fn cmp(&self, o: &U512) -> Ordering { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<u128> for U512 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u128) -> Self { u512_of(v as int) }
}
impl From<u128> for U512 {
    #[verifier::external_body]
    fn from(v: u128) -> (r: U512) ensures r@ == v as int { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<u64> for U512 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u64) -> Self { u512_of(v as int) }
}
impl From<u64> for U512 {
    #[verifier::external_body]
    fn from(v: u64) -> (r: U512) ensures r@ == v as int { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<u32> for U512 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u32) -> Self { u512_of(v as int) }
}
impl From<u32> for U512 {
    #[verifier::external_body]
    fn from(v: u32) -> (r: U512) ensures r@ == v as int { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<u16> for U512 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u16) -> Self { u512_of(v as int) }
}
impl From<u16> for U512 {
    #[verifier::external_body]
    fn from(v: u16) -> (r: U512) ensures r@ == v as int { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<u8> for U512 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u8) -> Self { u512_of(v as int) }
}
impl From<u8> for U512 {
    #[verifier::external_body]
    fn from(v: u8) -> (r: U512) ensures r@ == v as int { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<usize> for U512 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: usize) -> Self { u512_of(v as int) }
}
impl From<usize> for U512 {
    #[verifier::external_body]
    fn from(v: usize) -> (r: U512) ensures r@ == v as int { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<U256> for U512 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: U256) -> Self { u512_of(v@) }
}
impl From<U256> for U512 {
    #[verifier::external_body]
    fn from(v: U256) -> (r: U512) ensures r@ == v@ { unimplemented!() } }
impl TryFrom<U512> for u128 { type Error = ConvErr;
    #[verifier::external_body]
    fn try_from(v: U512) -> (r: Result<u128, ConvErr>)
        ensures v@ <= u128::MAX as int ==> (r matches Ok(x) && x as int == v@), v@ > u128::MAX as int ==> r.is_err()
    { unimplemented!() } }
impl TryFrom<U512> for u64 { type Error = ConvErr;
    #[verifier::external_body]
    fn try_from(v: U512) -> (r: Result<u64, ConvErr>)
        ensures v@ <= u64::MAX as int ==> (r matches Ok(x) && x as int == v@), v@ > u64::MAX as int ==> r.is_err()
    { unimplemented!() } }
impl TryFrom<U512> for u32 { type Error = ConvErr;
    #[verifier::external_body]
    fn try_from(v: U512) -> (r: Result<u32, ConvErr>)
        ensures v@ <= u32::MAX as int ==> (r matches Ok(x) && x as int == v@), v@ > u32::MAX as int ==> r.is_err()
    { unimplemented!() } }
impl TryFrom<U512> for u16 { type Error = ConvErr;
    #[verifier::external_body]
    fn try_from(v: U512) -> (r: Result<u16, ConvErr>)
        ensures v@ <= u16::MAX as int ==> (r matches Ok(x) && x as int == v@), v@ > u16::MAX as int ==> r.is_err()
    { unimplemented!() } }
impl TryFrom<U512> for u8 { type Error = ConvErr;
    #[verifier::external_body]
    fn try_from(v: U512) -> (r: Result<u8, ConvErr>)
        ensures v@ <= u8::MAX as int ==> (r matches Ok(x) && x as int == v@), v@ > u8::MAX as int ==> r.is_err()
    { unimplemented!() } }
impl TryFrom<U512> for usize { type Error = ConvErr;
    #[verifier::external_body]
    fn try_from(v: U512) -> (r: Result<usize, ConvErr>)
        ensures v@ <= usize::MAX as int ==> (r matches Ok(x) && x as int == v@), v@ > usize::MAX as int ==> r.is_err()
    { unimplemented!() } }
impl TryFrom<U512> for U256 { type Error = ConvErr;
    #[verifier::external_body]
    fn try_from(v: U512) -> (r: Result<U256, ConvErr>)
        ensures v@ <= p256() - 1 ==> (r matches Ok(x) && x@ == v@), v@ > p256() - 1 ==> r.is_err()
    { unimplemented!() } }
impl U128 {
    #[verifier::external_body]
    pub fn full_mul(self, o: U128) -> (r: U256) ensures r@ == self@ * o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_add(self, o: U128) -> (r: Option<U128>)
        ensures (self@ + o@ < p128()) ==> (r matches Some(v) && v@ == self@ + o@), !(self@ + o@ < p128()) ==> r.is_none(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub(self, o: U128) -> (r: Option<U128>)
        ensures (self@ >= o@) ==> (r matches Some(v) && v@ == self@ - o@), !(self@ >= o@) ==> r.is_none(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_mul(self, o: U128) -> (r: Option<U128>)
        ensures (self@ * o@ < p128()) ==> (r matches Some(v) && v@ == self@ * o@), !(self@ * o@ < p128()) ==> r.is_none(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_div(self, o: U128) -> (r: Option<U128>)
        ensures (o@ != 0) ==> (r matches Some(v) && v@ == self@ / o@), !(o@ != 0) ==> r.is_none(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_rem(self, o: U128) -> (r: Option<U128>)
        ensures (o@ != 0) ==> (r matches Some(v) && v@ == self@ % o@), !(o@ != 0) ==> r.is_none(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_add(self, o: U128) -> (r: U128)
        ensures r@ == imin(self@ + o@, p128() - 1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_sub(self, o: U128) -> (r: U128)
        ensures r@ == imax(self@ - o@, 0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_mul(self, o: U128) -> (r: U128)
        ensures r@ == imin(self@ * o@, p128() - 1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool)
        ensures r == (self@ == 0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn zero() -> (r: U128)
        ensures r@ == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn one() -> (r: U128)
        ensures r@ == 1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn max_value() -> (r: U128)
        ensures r@ == p128() - 1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn abs_diff(self, o: U128) -> (r: U128)
        ensures r@ == iabs(self@ - o@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, o: U128) -> (r: U128)
        ensures r@ == imin(self@, o@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn max(self, o: U128) -> (r: U128)
        ensures r@ == imax(self@, o@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn div_mod(self, o: U128) -> (r: (U128, U128))
        requires o@ != 0,
        ensures r.0@ == self@ / o@, r.1@ == self@ % o@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn bits(&self) -> (r: usize)
        ensures 0 <= r <= 512, r == nbits(self@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn integer_sqrt(&self) -> (r: U128)
        ensures r@ * r@ <= self@, (r@ + 1) * (r@ + 1) > self@, r@ >= 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn low_u128(&self) -> (r: u128)
        ensures r as int == self@ % p128(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_u128(&self) -> (r: u128)
        requires self@ < p128(),
        ensures r as int == self@,
    { unimplemented!() }
}
impl AddSpecImpl<U128> for U128 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: U128) -> bool { self@ + o@ < p128() }
    open spec fn add_spec(self, o: U128) -> U128 { uu128_of(self@ + o@) }
}
impl Add<U128> for U128 { type Output = U128;
    #[verifier::external_body]
    fn add(self, o: U128) -> U128 { unimplemented!() } }
impl SubSpecImpl<U128> for U128 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: U128) -> bool { self@ >= o@ }
    open spec fn sub_spec(self, o: U128) -> U128 { uu128_of(self@ - o@) }
}
impl Sub<U128> for U128 { type Output = U128;
    #[verifier::external_body]
    fn sub(self, o: U128) -> U128 { unimplemented!() } }
impl MulSpecImpl<U128> for U128 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: U128) -> bool { self@ * o@ < p128() }
    open spec fn mul_spec(self, o: U128) -> U128 { uu128_of(self@ * o@) }
}
impl Mul<U128> for U128 { type Output = U128;
    #[verifier::external_body]
    fn mul(self, o: U128) -> U128 { unimplemented!() } }
impl DivSpecImpl<U128> for U128 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: U128) -> bool { o@ != 0 }
    open spec fn div_spec(self, o: U128) -> U128 { uu128_of(self@ / o@) }
}
impl Div<U128> for U128 { type Output = U128;
    #[verifier::external_body]
    fn div(self, o: U128) -> U128 { unimplemented!() } }
impl RemSpecImpl<U128> for U128 {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, o: U128) -> bool { o@ != 0 }
    open spec fn rem_spec(self, o: U128) -> U128 { uu128_of(self@ % o@) }
}
impl Rem<U128> for U128 { type Output = U128;
    #[verifier::external_body]
    fn rem(self, o: U128) -> U128 { unimplemented!() } }
impl ShrSpecImpl<usize> for U128 {
    open spec fn obeys_shr_spec() -> bool { true }
    open spec fn shr_req(self, o: usize) -> bool { true }
    open spec fn shr_spec(self, o: usize) -> U128 { uu128_of(self@ / pow2s(o as int)) }
}
impl Shr<usize> for U128 { type Output = U128;
    #[verifier::external_body]
    fn shr(self, o: usize) -> U128 { unimplemented!() } }
impl ShrSpecImpl<u32> for U128 {
    open spec fn obeys_shr_spec() -> bool { true }
    open spec fn shr_req(self, o: u32) -> bool { true }
    open spec fn shr_spec(self, o: u32) -> U128 { uu128_of(self@ / pow2s(o as int)) }
}
impl Shr<u32> for U128 { type Output = U128;
    #[verifier::external_body]
    fn shr(self, o: u32) -> U128 { unimplemented!() } }
impl ShrSpecImpl<u8> for U128 {
    open spec fn obeys_shr_spec() -> bool { true }
    open spec fn shr_req(self, o: u8) -> bool { true }
    open spec fn shr_spec(self, o: u8) -> U128 { uu128_of(self@ / pow2s(o as int)) }
}
impl Shr<u8> for U128 { type Output = U128;
    #[verifier::external_body]
    fn shr(self, o: u8) -> U128 { unimplemented!() } }
impl ShlSpecImpl<usize> for U128 {
    open spec fn obeys_shl_spec() -> bool { true }
    open spec fn shl_req(self, o: usize) -> bool { true }
    open spec fn shl_spec(self, o: usize) -> U128 { uu128_of((self@ * pow2s(o as int)) % p128()) }
}
impl Shl<usize> for U128 { type Output = U128;
    #[verifier::external_body]
    fn shl(self, o: usize) -> U128 { unimplemented!() } }
impl ShlSpecImpl<u32> for U128 {
    open spec fn obeys_shl_spec() -> bool { true }
    open spec fn shl_req(self, o: u32) -> bool { true }
    open spec fn shl_spec(self, o: u32) -> U128 { uu128_of((self@ * pow2s(o as int)) % p128()) }
}
impl Shl<u32> for U128 { type Output = U128;
    #[verifier::external_body]
    fn shl(self, o: u32) -> U128 { unimplemented!() } }
impl PartialEqSpecImpl for U128 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &U128) -> bool { self@ == o@ }
}
impl PartialEq for U128 {
    #[verifier::external_body]
    fn eq(&self, o: &U128) -> bool { unimplemented!() } }
impl Eq for U128 {}
impl PartialOrdSpecImpl for U128 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &U128) -> Option<Ordering> { if self@ < o@ { Some(Ordering::Less) } else if self@ == o@ { Some(Ordering::Equal) } else { Some(Ordering::Greater) } }
}
impl PartialOrd for U128 {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &U128) -> Option<Ordering> { unimplemented!() } }
impl OrdSpecImpl for U128 {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &U128) -> Ordering { if self@ < o@ { Ordering::Less } else if self@ == o@ { Ordering::Equal } else { Ordering::Greater } }
}
impl Ord for U128 {
    #[verifier::external_body]
    fn cmp(&self, o: &U128) -> Ordering { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<u128> for U128 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u128) -> Self { uu128_of(v as int) }
}
impl From<u128> for U128 {
    #[verifier::external_body]
    fn from(v: u128) -> (r: U128) ensures r@ == v as int { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<u64> for U128 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u64) -> Self { uu128_of(v as int) }
}
impl From<u64> for U128 {
    #[verifier::external_body]
    fn from(v: u64) -> (r: U128) ensures r@ == v as int { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<u32> for U128 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u32) -> Self { uu128_of(v as int) }
}
impl From<u32> for U128 {
    #[verifier::external_body]
    fn from(v: u32) -> (r: U128) ensures r@ == v as int { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<u16> for U128 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u16) -> Self { uu128_of(v as int) }
}
impl From<u16> for U128 {
    #[verifier::external_body]
    fn from(v: u16) -> (r: U128) ensures r@ == v as int { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<u8> for U128 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u8) -> Self { uu128_of(v as int) }
}
impl From<u8> for U128 {
    #[verifier::external_body]
    fn from(v: u8) -> (r: U128) ensures r@ == v as int { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<usize> for U128 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: usize) -> Self { uu128_of(v as int) }
}
impl From<usize> for U128 {
    #[verifier::external_body]
    fn from(v: usize) -> (r: U128) ensures r@ == v as int { unimplemented!() } }
impl TryFrom<U128> for u128 { type Error = ConvErr;
    #[verifier::external_body]
    fn try_from(v: U128) -> (r: Result<u128, ConvErr>)
        ensures v@ <= u128::MAX as int ==> (r matches Ok(x) && x as int == v@), v@ > u128::MAX as int ==> r.is_err()
    { unimplemented!() } }
impl TryFrom<U128> for u64 { type Error = ConvErr;
    #[verifier::external_body]
    fn try_from(v: U128) -> (r: Result<u64, ConvErr>)
        ensures v@ <= u64::MAX as int ==> (r matches Ok(x) && x as int == v@), v@ > u64::MAX as int ==> r.is_err()
    { unimplemented!() } }
impl TryFrom<U128> for u32 { type Error = ConvErr;
    #[verifier::external_body]
    fn try_from(v: U128) -> (r: Result<u32, ConvErr>)
        ensures v@ <= u32::MAX as int ==> (r matches Ok(x) && x as int == v@), v@ > u32::MAX as int ==> r.is_err()
    { unimplemented!() } }
impl TryFrom<U128> for u16 { type Error = ConvErr;
    #[verifier::external_body]
    fn try_from(v: U128) -> (r: Result<u16, ConvErr>)
        ensures v@ <= u16::MAX as int ==> (r matches Ok(x) && x as int == v@), v@ > u16::MAX as int ==> r.is_err()
    { unimplemented!() } }
impl TryFrom<U128> for u8 { type Error = ConvErr;
    #[verifier::external_body]
    fn try_from(v: U128) -> (r: Result<u8, ConvErr>)
        ensures v@ <= u8::MAX as int ==> (r matches Ok(x) && x as int == v@), v@ > u8::MAX as int ==> r.is_err()
    { unimplemented!() } }
impl TryFrom<U128> for usize { type Error = ConvErr;
    #[verifier::external_body]
    fn try_from(v: U128) -> (r: Result<usize, ConvErr>)
        ensures v@ <= usize::MAX as int ==> (r matches Ok(x) && x as int == v@), v@ > usize::MAX as int ==> r.is_err()
    { unimplemented!() } }
