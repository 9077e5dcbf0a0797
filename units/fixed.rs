pub open spec fn d18() -> int { 1_000_000_000_000_000_000 }
/// round-half-down division
pub open spec fn ndiv(a: int, b: int) -> int { if 2 * (a % b) > b { a / b + 1 } else { a / b } }
pub open spec fn fit(v: int) -> Option<int> { if 0 <= v <= u128::MAX { Some(v) } else { None } }
pub open spec fn fxo(r: Option<FixedU128>) -> Option<int> { match r { Some(v) => Some(v@), None => None } }
pub open spec fn into_(r: Option<u128>) -> Option<int> { match r { Some(v) => Some(v as int), None => None } }
/// sp-arithmetic's rounding mode
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum PerRounding { Up, Down, NearestPrefUp, NearestPrefDown }
pub open spec fn rdiv(a: int, b: int, r: PerRounding) -> int {
    match r { PerRounding::Down => a / b, PerRounding::Up => cdiv(a, b), PerRounding::NearestPrefUp => if 2 * (a % b) >= b { a / b + 1 } else { a / b }, PerRounding::NearestPrefDown => ndiv(a, b) }
}
#[verifier::external_body]
pub fn multiply_by_rational_with_rounding(a: u128, b: u128, c: u128, r: PerRounding) -> (x: Option<u128>)
    ensures into_(x) == (if c == 0 { None } else { fit(rdiv(a as int * b as int, c as int, r)) })
{ unimplemented!() }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct FixedU128 { i: u128 }
impl FixedU128 { pub uninterp spec fn view(&self) -> int; }
pub uninterp spec fn fxu_of(i: int) -> FixedU128;
pub broadcast axiom fn ax_fxu_of_range(x: FixedU128) ensures #![trigger x.view()] 0 <= x@ <= u128::MAX as int;
pub broadcast axiom fn ax_fxu_of_of(i: int) requires 0 <= i <= u128::MAX as int ensures #![trigger fxu_of(i)] fxu_of(i)@ == i;
pub broadcast axiom fn ax_fxu_of_ext(x: FixedU128) ensures #![trigger x.view()] fxu_of(x@) == x;
impl PartialEqSpecImpl for FixedU128 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &FixedU128) -> bool { self@ == o@ }
}
impl PartialEq for FixedU128 {
    #[verifier::external_body]
    fn eq(&self, o: &FixedU128) -> bool { unimplemented!() } }
impl Eq for FixedU128 {}
impl PartialOrdSpecImpl for FixedU128 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &FixedU128) -> Option<Ordering> { if self@ < o@ { Some(Ordering::Less) } else if self@ == o@ { Some(Ordering::Equal) } else { Some(Ordering::Greater) } }
}
impl PartialOrd for FixedU128 {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &FixedU128) -> Option<Ordering> { unimplemented!() } }
impl OrdSpecImpl for FixedU128 {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &FixedU128) -> Ordering { if self@ < o@ { Ordering::Less } else if self@ == o@ { Ordering::Equal } else { Ordering::Greater } }
}
impl Ord for FixedU128 {
    #[verifier::external_body]
    fn cmp(&self, o: &FixedU128) -> Ordering { unimplemented!() } }
impl FixedU128 {
    #[verifier::external_body]
    pub fn max(self, o: FixedU128) -> (r: FixedU128) ensures r@ == imax(self@, o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, o: FixedU128) -> (r: FixedU128) ensures r@ == imin(self@, o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clamp(self, lo: FixedU128, hi: FixedU128) -> (r: FixedU128) requires lo@ <= hi@, ensures r@ == imax(lo@, imin(self@, hi@)) { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Permill { i: u128 }
impl Permill { pub uninterp spec fn view(&self) -> int; }
pub uninterp spec fn pm_of(i: int) -> Permill;
pub broadcast axiom fn ax_pm_of_range(x: Permill) ensures #![trigger x.view()] 0 <= x@ <= 1_000_000;
pub broadcast axiom fn ax_pm_of_of(i: int) requires 0 <= i <= 1_000_000 ensures #![trigger pm_of(i)] pm_of(i)@ == i;
pub broadcast axiom fn ax_pm_of_ext(x: Permill) ensures #![trigger x.view()] pm_of(x@) == x;
impl PartialEqSpecImpl for Permill {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Permill) -> bool { self@ == o@ }
}
impl PartialEq for Permill {
    #[verifier::external_body]
    fn eq(&self, o: &Permill) -> bool { unimplemented!() } }
impl Eq for Permill {}
impl PartialOrdSpecImpl for Permill {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Permill) -> Option<Ordering> { if self@ < o@ { Some(Ordering::Less) } else if self@ == o@ { Some(Ordering::Equal) } else { Some(Ordering::Greater) } }
}
impl PartialOrd for Permill {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Permill) -> Option<Ordering> { unimplemented!() } }
impl OrdSpecImpl for Permill {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Permill) -> Ordering { if self@ < o@ { Ordering::Less } else if self@ == o@ { Ordering::Equal } else { Ordering::Greater } }
}
impl Ord for Permill {
    #[verifier::external_body]
    fn cmp(&self, o: &Permill) -> Ordering { unimplemented!() } }
impl Permill {
    #[verifier::external_body]
    pub fn max(self, o: Permill) -> (r: Permill) ensures r@ == imax(self@, o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, o: Permill) -> (r: Permill) ensures r@ == imin(self@, o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clamp(self, lo: Permill, hi: Permill) -> (r: Permill) requires lo@ <= hi@, ensures r@ == imax(lo@, imin(self@, hi@)) { unimplemented!() }
}
impl Permill {
    #[verifier::external_body]
    pub fn from_parts(p: u32) -> (r: Permill) ensures r@ == imin(p as int, 1_000_000) { unimplemented!() }
    #[verifier::external_body]
    pub fn deconstruct(self) -> (r: u32) ensures r as int == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_percent(p: u32) -> (r: Permill) ensures r@ == imin(p as int, 100) * 1_000_000 / 100 { unimplemented!() }
    #[verifier::external_body]
    pub fn zero() -> (r: Permill) ensures r@ == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn one() -> (r: Permill) ensures r@ == 1_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_one(&self) -> (r: bool) ensures r == (self@ == 1_000_000) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_rational<N: VxInt>(p: N, q: N) -> (r: Permill) ensures r@ == (if q.vx_int() == 0 || p.vx_int() > q.vx_int() { 1_000_000 } else { (p.vx_int() * 1_000_000) / q.vx_int() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn mul_floor(self, b: u128) -> (r: u128) ensures r as int == (self@ * b) / 1_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn mul_ceil(self, b: u128) -> (r: u128) ensures r as int == cdiv(self@ * b, 1_000_000) { unimplemented!() }
    #[verifier::external_body]
    pub fn left_from_one(self) -> (r: Permill) ensures r@ == 1_000_000 - self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_add(self, o: Permill) -> (r: Permill) ensures r@ == imin(self@ + o@, 1_000_000) { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_sub(self, o: Permill) -> (r: Permill) ensures r@ == imax(self@ - o@, 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_mul(self, o: Permill) -> (r: Permill) ensures r@ == (self@ * o@) / 1_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_add(&self, o: &Permill) -> (r: Option<Permill>) ensures (self@ + o@ <= 1_000_000) ==> (r matches Some(v) && v@ == self@ + o@), self@ + o@ > 1_000_000 ==> r.is_none() { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub(&self, o: &Permill) -> (r: Option<Permill>) ensures (self@ >= o@) ==> (r matches Some(v) && v@ == self@ - o@), self@ < o@ ==> r.is_none() { unimplemented!() }
}
impl AddSpecImpl<Permill> for Permill {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Permill) -> bool { self@ + o@ <= u32::MAX }
    open spec fn add_spec(self, o: Permill) -> Permill { pm_of(imin(self@ + o@, 1_000_000)) }
}
impl Add<Permill> for Permill { type Output = Permill;
    #[verifier::external_body]
    fn add(self, o: Permill) -> Permill { unimplemented!() } }
impl SubSpecImpl<Permill> for Permill {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Permill) -> bool { self@ >= o@ }
    open spec fn sub_spec(self, o: Permill) -> Permill { pm_of(self@ - o@) }
}
impl Sub<Permill> for Permill { type Output = Permill;
    #[verifier::external_body]
    fn sub(self, o: Permill) -> Permill { unimplemented!() } }
impl MulSpecImpl<Permill> for Permill {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Permill) -> bool { true }
    open spec fn mul_spec(self, o: Permill) -> Permill { pm_of((self@ * o@) / 1_000_000) }
}
impl Mul<Permill> for Permill { type Output = Permill;
    #[verifier::external_body]
    fn mul(self, o: Permill) -> Permill { unimplemented!() } }
impl MulSpecImpl<u128> for Permill {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: u128) -> bool { true }
    open spec fn mul_spec(self, o: u128) -> u128 { (ndiv(self@ * o, 1_000_000)) as u128 }
}
impl Mul<u128> for Permill { type Output = u128;
    #[verifier::external_body]
    fn mul(self, o: u128) -> u128 { unimplemented!() } }
impl MulSpecImpl<u64> for Permill {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: u64) -> bool { true }
    open spec fn mul_spec(self, o: u64) -> u64 { (ndiv(self@ * o, 1_000_000)) as u64 }
}
impl Mul<u64> for Permill { type Output = u64;
    #[verifier::external_body]
    fn mul(self, o: u64) -> u64 { unimplemented!() } }
impl MulSpecImpl<u32> for Permill {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: u32) -> bool { true }
    open spec fn mul_spec(self, o: u32) -> u32 { (ndiv(self@ * o, 1_000_000)) as u32 }
}
impl Mul<u32> for Permill { type Output = u32;
    #[verifier::external_body]
    fn mul(self, o: u32) -> u32 { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<Permill> for FixedU128 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Permill) -> Self { fxu_of((v@ * d18()) / 1_000_000) }
}
impl From<Permill> for FixedU128 {
    #[verifier::external_body]
    fn from(v: Permill) -> (r: FixedU128) ensures r@ == (v@ * d18()) / 1_000_000 { unimplemented!() } }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Perbill { i: u128 }
impl Perbill { pub uninterp spec fn view(&self) -> int; }
pub uninterp spec fn pb_of(i: int) -> Perbill;
pub broadcast axiom fn ax_pb_of_range(x: Perbill) ensures #![trigger x.view()] 0 <= x@ <= 1_000_000_000;
pub broadcast axiom fn ax_pb_of_of(i: int) requires 0 <= i <= 1_000_000_000 ensures #![trigger pb_of(i)] pb_of(i)@ == i;
pub broadcast axiom fn ax_pb_of_ext(x: Perbill) ensures #![trigger x.view()] pb_of(x@) == x;
impl PartialEqSpecImpl for Perbill {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Perbill) -> bool { self@ == o@ }
}
impl PartialEq for Perbill {
    #[verifier::external_body]
    fn eq(&self, o: &Perbill) -> bool { unimplemented!() } }
impl Eq for Perbill {}
impl PartialOrdSpecImpl for Perbill {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Perbill) -> Option<Ordering> { if self@ < o@ { Some(Ordering::Less) } else if self@ == o@ { Some(Ordering::Equal) } else { Some(Ordering::Greater) } }
}
impl PartialOrd for Perbill {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Perbill) -> Option<Ordering> { unimplemented!() } }
impl OrdSpecImpl for Perbill {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Perbill) -> Ordering { if self@ < o@ { Ordering::Less } else if self@ == o@ { Ordering::Equal } else { Ordering::Greater } }
}
impl Ord for Perbill {
    #[verifier::external_body]
    fn cmp(&self, o: &Perbill) -> Ordering { unimplemented!() } }
impl Perbill {
    #[verifier::external_body]
    pub fn max(self, o: Perbill) -> (r: Perbill) ensures r@ == imax(self@, o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, o: Perbill) -> (r: Perbill) ensures r@ == imin(self@, o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clamp(self, lo: Perbill, hi: Perbill) -> (r: Perbill) requires lo@ <= hi@, ensures r@ == imax(lo@, imin(self@, hi@)) { unimplemented!() }
}
impl Perbill {
    #[verifier::external_body]
    pub fn from_parts(p: u32) -> (r: Perbill) ensures r@ == imin(p as int, 1_000_000_000) { unimplemented!() }
    #[verifier::external_body]
    pub fn deconstruct(self) -> (r: u32) ensures r as int == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_percent(p: u32) -> (r: Perbill) ensures r@ == imin(p as int, 100) * 1_000_000_000 / 100 { unimplemented!() }
    #[verifier::external_body]
    pub fn zero() -> (r: Perbill) ensures r@ == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn one() -> (r: Perbill) ensures r@ == 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_one(&self) -> (r: bool) ensures r == (self@ == 1_000_000_000) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_rational<N: VxInt>(p: N, q: N) -> (r: Perbill) ensures r@ == (if q.vx_int() == 0 || p.vx_int() > q.vx_int() { 1_000_000_000 } else { (p.vx_int() * 1_000_000_000) / q.vx_int() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn mul_floor(self, b: u128) -> (r: u128) ensures r as int == (self@ * b) / 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn mul_ceil(self, b: u128) -> (r: u128) ensures r as int == cdiv(self@ * b, 1_000_000_000) { unimplemented!() }
    #[verifier::external_body]
    pub fn left_from_one(self) -> (r: Perbill) ensures r@ == 1_000_000_000 - self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_add(self, o: Perbill) -> (r: Perbill) ensures r@ == imin(self@ + o@, 1_000_000_000) { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_sub(self, o: Perbill) -> (r: Perbill) ensures r@ == imax(self@ - o@, 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_mul(self, o: Perbill) -> (r: Perbill) ensures r@ == (self@ * o@) / 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_add(&self, o: &Perbill) -> (r: Option<Perbill>) ensures (self@ + o@ <= 1_000_000_000) ==> (r matches Some(v) && v@ == self@ + o@), self@ + o@ > 1_000_000_000 ==> r.is_none() { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub(&self, o: &Perbill) -> (r: Option<Perbill>) ensures (self@ >= o@) ==> (r matches Some(v) && v@ == self@ - o@), self@ < o@ ==> r.is_none() { unimplemented!() }
}
impl AddSpecImpl<Perbill> for Perbill {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Perbill) -> bool { self@ + o@ <= u32::MAX }
    open spec fn add_spec(self, o: Perbill) -> Perbill { pb_of(imin(self@ + o@, 1_000_000_000)) }
}
impl Add<Perbill> for Perbill { type Output = Perbill;
    #[verifier::external_body]
    fn add(self, o: Perbill) -> Perbill { unimplemented!() } }
impl SubSpecImpl<Perbill> for Perbill {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Perbill) -> bool { self@ >= o@ }
    open spec fn sub_spec(self, o: Perbill) -> Perbill { pb_of(self@ - o@) }
}
impl Sub<Perbill> for Perbill { type Output = Perbill;
    #[verifier::external_body]
    fn sub(self, o: Perbill) -> Perbill { unimplemented!() } }
impl MulSpecImpl<Perbill> for Perbill {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Perbill) -> bool { true }
    open spec fn mul_spec(self, o: Perbill) -> Perbill { pb_of((self@ * o@) / 1_000_000_000) }
}
impl Mul<Perbill> for Perbill { type Output = Perbill;
    #[verifier::external_body]
    fn mul(self, o: Perbill) -> Perbill { unimplemented!() } }
impl MulSpecImpl<u128> for Perbill {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: u128) -> bool { true }
    open spec fn mul_spec(self, o: u128) -> u128 { (ndiv(self@ * o, 1_000_000_000)) as u128 }
}
impl Mul<u128> for Perbill { type Output = u128;
    #[verifier::external_body]
    fn mul(self, o: u128) -> u128 { unimplemented!() } }
impl MulSpecImpl<u64> for Perbill {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: u64) -> bool { true }
    open spec fn mul_spec(self, o: u64) -> u64 { (ndiv(self@ * o, 1_000_000_000)) as u64 }
}
impl Mul<u64> for Perbill { type Output = u64;
    #[verifier::external_body]
    fn mul(self, o: u64) -> u64 { unimplemented!() } }
impl MulSpecImpl<u32> for Perbill {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: u32) -> bool { true }
    open spec fn mul_spec(self, o: u32) -> u32 { (ndiv(self@ * o, 1_000_000_000)) as u32 }
}
impl Mul<u32> for Perbill { type Output = u32;
    #[verifier::external_body]
    fn mul(self, o: u32) -> u32 { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<Perbill> for FixedU128 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Perbill) -> Self { fxu_of((v@ * d18()) / 1_000_000_000) }
}
impl From<Perbill> for FixedU128 {
    #[verifier::external_body]
    fn from(v: Perbill) -> (r: FixedU128) ensures r@ == (v@ * d18()) / 1_000_000_000 { unimplemented!() } }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Percent { i: u128 }
impl Percent { pub uninterp spec fn view(&self) -> int; }
pub uninterp spec fn pc_of(i: int) -> Percent;
pub broadcast axiom fn ax_pc_of_range(x: Percent) ensures #![trigger x.view()] 0 <= x@ <= 100;
pub broadcast axiom fn ax_pc_of_of(i: int) requires 0 <= i <= 100 ensures #![trigger pc_of(i)] pc_of(i)@ == i;
pub broadcast axiom fn ax_pc_of_ext(x: Percent) ensures #![trigger x.view()] pc_of(x@) == x;
impl PartialEqSpecImpl for Percent {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Percent) -> bool { self@ == o@ }
}
impl PartialEq for Percent {
    #[verifier::external_body]
    fn eq(&self, o: &Percent) -> bool { unimplemented!() } }
impl Eq for Percent {}
impl PartialOrdSpecImpl for Percent {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Percent) -> Option<Ordering> { if self@ < o@ { Some(Ordering::Less) } else if self@ == o@ { Some(Ordering::Equal) } else { Some(Ordering::Greater) } }
}
impl PartialOrd for Percent {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Percent) -> Option<Ordering> { unimplemented!() } }
impl OrdSpecImpl for Percent {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Percent) -> Ordering { if self@ < o@ { Ordering::Less } else if self@ == o@ { Ordering::Equal } else { Ordering::Greater } }
}
impl Ord for Percent {
    #[verifier::external_body]
    fn cmp(&self, o: &Percent) -> Ordering { unimplemented!() } }
impl Percent {
    #[verifier::external_body]
    pub fn max(self, o: Percent) -> (r: Percent) ensures r@ == imax(self@, o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, o: Percent) -> (r: Percent) ensures r@ == imin(self@, o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clamp(self, lo: Percent, hi: Percent) -> (r: Percent) requires lo@ <= hi@, ensures r@ == imax(lo@, imin(self@, hi@)) { unimplemented!() }
}
impl Percent {
    #[verifier::external_body]
    pub fn from_parts(p: u8) -> (r: Percent) ensures r@ == imin(p as int, 100) { unimplemented!() }
    #[verifier::external_body]
    pub fn deconstruct(self) -> (r: u8) ensures r as int == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_percent(p: u8) -> (r: Percent) ensures r@ == imin(p as int, 100) * 100 / 100 { unimplemented!() }
    #[verifier::external_body]
    pub fn zero() -> (r: Percent) ensures r@ == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn one() -> (r: Percent) ensures r@ == 100 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_one(&self) -> (r: bool) ensures r == (self@ == 100) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_rational<N: VxInt>(p: N, q: N) -> (r: Percent) ensures r@ == (if q.vx_int() == 0 || p.vx_int() > q.vx_int() { 100 } else { (p.vx_int() * 100) / q.vx_int() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn mul_floor(self, b: u128) -> (r: u128) ensures r as int == (self@ * b) / 100 { unimplemented!() }
    #[verifier::external_body]
    pub fn mul_ceil(self, b: u128) -> (r: u128) ensures r as int == cdiv(self@ * b, 100) { unimplemented!() }
    #[verifier::external_body]
    pub fn left_from_one(self) -> (r: Percent) ensures r@ == 100 - self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_add(self, o: Percent) -> (r: Percent) ensures r@ == imin(self@ + o@, 100) { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_sub(self, o: Percent) -> (r: Percent) ensures r@ == imax(self@ - o@, 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_mul(self, o: Percent) -> (r: Percent) ensures r@ == (self@ * o@) / 100 { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_add(&self, o: &Percent) -> (r: Option<Percent>) ensures (self@ + o@ <= 100) ==> (r matches Some(v) && v@ == self@ + o@), self@ + o@ > 100 ==> r.is_none() { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub(&self, o: &Percent) -> (r: Option<Percent>) ensures (self@ >= o@) ==> (r matches Some(v) && v@ == self@ - o@), self@ < o@ ==> r.is_none() { unimplemented!() }
}
impl AddSpecImpl<Percent> for Percent {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Percent) -> bool { self@ + o@ <= u8::MAX }
    open spec fn add_spec(self, o: Percent) -> Percent { pc_of(imin(self@ + o@, 100)) }
}
impl Add<Percent> for Percent { type Output = Percent;
    #[verifier::external_body]
    fn add(self, o: Percent) -> Percent { unimplemented!() } }
impl SubSpecImpl<Percent> for Percent {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Percent) -> bool { self@ >= o@ }
    open spec fn sub_spec(self, o: Percent) -> Percent { pc_of(self@ - o@) }
}
impl Sub<Percent> for Percent { type Output = Percent;
    #[verifier::external_body]
    fn sub(self, o: Percent) -> Percent { unimplemented!() } }
impl MulSpecImpl<Percent> for Percent {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Percent) -> bool { true }
    open spec fn mul_spec(self, o: Percent) -> Percent { pc_of((self@ * o@) / 100) }
}
impl Mul<Percent> for Percent { type Output = Percent;
    #[verifier::external_body]
    fn mul(self, o: Percent) -> Percent { unimplemented!() } }
impl MulSpecImpl<u128> for Percent {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: u128) -> bool { true }
    open spec fn mul_spec(self, o: u128) -> u128 { (ndiv(self@ * o, 100)) as u128 }
}
impl Mul<u128> for Percent { type Output = u128;
    #[verifier::external_body]
    fn mul(self, o: u128) -> u128 { unimplemented!() } }
impl MulSpecImpl<u64> for Percent {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: u64) -> bool { true }
    open spec fn mul_spec(self, o: u64) -> u64 { (ndiv(self@ * o, 100)) as u64 }
}
impl Mul<u64> for Percent { type Output = u64;
    #[verifier::external_body]
    fn mul(self, o: u64) -> u64 { unimplemented!() } }
impl MulSpecImpl<u32> for Percent {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: u32) -> bool { true }
    open spec fn mul_spec(self, o: u32) -> u32 { (ndiv(self@ * o, 100)) as u32 }
}
impl Mul<u32> for Percent { type Output = u32;
    #[verifier::external_body]
    fn mul(self, o: u32) -> u32 { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<Percent> for FixedU128 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Percent) -> Self { fxu_of((v@ * d18()) / 100) }
}
impl From<Percent> for FixedU128 {
    #[verifier::external_body]
    fn from(v: Percent) -> (r: FixedU128) ensures r@ == (v@ * d18()) / 100 { unimplemented!() } }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Perquintill { i: u128 }
impl Perquintill { pub uninterp spec fn view(&self) -> int; }
pub uninterp spec fn pq_of(i: int) -> Perquintill;
pub broadcast axiom fn ax_pq_of_range(x: Perquintill) ensures #![trigger x.view()] 0 <= x@ <= 1_000_000_000_000_000_000;
pub broadcast axiom fn ax_pq_of_of(i: int) requires 0 <= i <= 1_000_000_000_000_000_000 ensures #![trigger pq_of(i)] pq_of(i)@ == i;
pub broadcast axiom fn ax_pq_of_ext(x: Perquintill) ensures #![trigger x.view()] pq_of(x@) == x;
impl PartialEqSpecImpl for Perquintill {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Perquintill) -> bool { self@ == o@ }
}
impl PartialEq for Perquintill {
    #[verifier::external_body]
    fn eq(&self, o: &Perquintill) -> bool { unimplemented!() } }
impl Eq for Perquintill {}
impl PartialOrdSpecImpl for Perquintill {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Perquintill) -> Option<Ordering> { if self@ < o@ { Some(Ordering::Less) } else if self@ == o@ { Some(Ordering::Equal) } else { Some(Ordering::Greater) } }
}
impl PartialOrd for Perquintill {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Perquintill) -> Option<Ordering> { unimplemented!() } }
impl OrdSpecImpl for Perquintill {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Perquintill) -> Ordering { if self@ < o@ { Ordering::Less } else if self@ == o@ { Ordering::Equal } else { Ordering::Greater } }
}
impl Ord for Perquintill {
    #[verifier::external_body]
    fn cmp(&self, o: &Perquintill) -> Ordering { unimplemented!() } }
impl Perquintill {
    #[verifier::external_body]
    pub fn max(self, o: Perquintill) -> (r: Perquintill) ensures r@ == imax(self@, o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self, o: Perquintill) -> (r: Perquintill) ensures r@ == imin(self@, o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn clamp(self, lo: Perquintill, hi: Perquintill) -> (r: Perquintill) requires lo@ <= hi@, ensures r@ == imax(lo@, imin(self@, hi@)) { unimplemented!() }
}
impl Perquintill {
    #[verifier::external_body]
    pub fn from_parts(p: u64) -> (r: Perquintill) ensures r@ == imin(p as int, 1_000_000_000_000_000_000) { unimplemented!() }
    #[verifier::external_body]
    pub fn deconstruct(self) -> (r: u64) ensures r as int == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from_percent(p: u64) -> (r: Perquintill) ensures r@ == imin(p as int, 100) * 1_000_000_000_000_000_000 / 100 { unimplemented!() }
    #[verifier::external_body]
    pub fn zero() -> (r: Perquintill) ensures r@ == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn one() -> (r: Perquintill) ensures r@ == 1_000_000_000_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_one(&self) -> (r: bool) ensures r == (self@ == 1_000_000_000_000_000_000) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_rational<N: VxInt>(p: N, q: N) -> (r: Perquintill) ensures r@ == (if q.vx_int() == 0 || p.vx_int() > q.vx_int() { 1_000_000_000_000_000_000 } else { (p.vx_int() * 1_000_000_000_000_000_000) / q.vx_int() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn mul_floor(self, b: u128) -> (r: u128) ensures r as int == (self@ * b) / 1_000_000_000_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn mul_ceil(self, b: u128) -> (r: u128) ensures r as int == cdiv(self@ * b, 1_000_000_000_000_000_000) { unimplemented!() }
    #[verifier::external_body]
    pub fn left_from_one(self) -> (r: Perquintill) ensures r@ == 1_000_000_000_000_000_000 - self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_add(self, o: Perquintill) -> (r: Perquintill) ensures r@ == imin(self@ + o@, 1_000_000_000_000_000_000) { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_sub(self, o: Perquintill) -> (r: Perquintill) ensures r@ == imax(self@ - o@, 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_mul(self, o: Perquintill) -> (r: Perquintill) ensures r@ == (self@ * o@) / 1_000_000_000_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_add(&self, o: &Perquintill) -> (r: Option<Perquintill>) ensures (self@ + o@ <= 1_000_000_000_000_000_000) ==> (r matches Some(v) && v@ == self@ + o@), self@ + o@ > 1_000_000_000_000_000_000 ==> r.is_none() { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub(&self, o: &Perquintill) -> (r: Option<Perquintill>) ensures (self@ >= o@) ==> (r matches Some(v) && v@ == self@ - o@), self@ < o@ ==> r.is_none() { unimplemented!() }
}
impl AddSpecImpl<Perquintill> for Perquintill {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Perquintill) -> bool { self@ + o@ <= u64::MAX }
    open spec fn add_spec(self, o: Perquintill) -> Perquintill { pq_of(imin(self@ + o@, 1_000_000_000_000_000_000)) }
}
impl Add<Perquintill> for Perquintill { type Output = Perquintill;
    #[verifier::external_body]
    fn add(self, o: Perquintill) -> Perquintill { unimplemented!() } }
impl SubSpecImpl<Perquintill> for Perquintill {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Perquintill) -> bool { self@ >= o@ }
    open spec fn sub_spec(self, o: Perquintill) -> Perquintill { pq_of(self@ - o@) }
}
impl Sub<Perquintill> for Perquintill { type Output = Perquintill;
    #[verifier::external_body]
    fn sub(self, o: Perquintill) -> Perquintill { unimplemented!() } }
impl MulSpecImpl<Perquintill> for Perquintill {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Perquintill) -> bool { true }
    open spec fn mul_spec(self, o: Perquintill) -> Perquintill { pq_of((self@ * o@) / 1_000_000_000_000_000_000) }
}
impl Mul<Perquintill> for Perquintill { type Output = Perquintill;
    #[verifier::external_body]
    fn mul(self, o: Perquintill) -> Perquintill { unimplemented!() } }
impl MulSpecImpl<u128> for Perquintill {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: u128) -> bool { true }
    open spec fn mul_spec(self, o: u128) -> u128 { (ndiv(self@ * o, 1_000_000_000_000_000_000)) as u128 }
}
impl Mul<u128> for Perquintill { type Output = u128;
    #[verifier::external_body]
    fn mul(self, o: u128) -> u128 { unimplemented!() } }
impl MulSpecImpl<u64> for Perquintill {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: u64) -> bool { true }
    open spec fn mul_spec(self, o: u64) -> u64 { (ndiv(self@ * o, 1_000_000_000_000_000_000)) as u64 }
}
impl Mul<u64> for Perquintill { type Output = u64;
    #[verifier::external_body]
    fn mul(self, o: u64) -> u64 { unimplemented!() } }
impl MulSpecImpl<u32> for Perquintill {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: u32) -> bool { true }
    open spec fn mul_spec(self, o: u32) -> u32 { (ndiv(self@ * o, 1_000_000_000_000_000_000)) as u32 }
}
impl Mul<u32> for Perquintill { type Output = u32;
    #[verifier::external_body]
    fn mul(self, o: u32) -> u32 { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<Perquintill> for FixedU128 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Perquintill) -> Self { fxu_of((v@ * d18()) / 1_000_000_000_000_000_000) }
}
impl From<Perquintill> for FixedU128 {
    #[verifier::external_body]
    fn from(v: Perquintill) -> (r: FixedU128) ensures r@ == (v@ * d18()) / 1_000_000_000_000_000_000 { unimplemented!() } }
impl FixedU128 {
    pub const DIV: u128 = 1_000_000_000_000_000_000;
    #[verifier::external_body]
    pub fn from_inner(i: u128) -> (r: FixedU128)
         ensures r@ == i as int,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: u128)
         ensures r as int == self@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn zero() -> (r: FixedU128)
         ensures r@ == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn one() -> (r: FixedU128)
         ensures r@ == d18(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_zero(&self) -> (r: bool)
         ensures r == (self@ == 0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_one(&self) -> (r: bool)
         ensures r == (self@ == d18()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn min_value() -> (r: FixedU128)
         ensures r@ == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn max_value() -> (r: FixedU128)
         ensures r@ == u128::MAX as int,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_u32(n: u32) -> (r: FixedU128)
         ensures r@ == n * d18(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_rational(a: u128, b: u128) -> (r: FixedU128)
        requires b != 0, ndiv(d18() * a, b as int) <= u128::MAX as int, ensures r@ == ndiv(d18() * a, b as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_rational_with_rounding(a: u128, b: u128, m: PerRounding) -> (r: FixedU128)
        requires b != 0, rdiv(d18() * a, b as int, m) <= u128::MAX as int, ensures r@ == rdiv(d18() * a, b as int, m),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_from_rational<N: VxInt, D: VxInt>(n: N, d: D) -> (r: Option<FixedU128>)
         ensures fxo(r) == (if d.vx_int() == 0 { None } else { fit((n.vx_int() * d18()) / d.vx_int()) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_from_rational<N: VxInt, D: VxInt>(n: N, d: D) -> (r: FixedU128)
        requires d.vx_int() != 0, ensures r@ == imin((n.vx_int() * d18()) / d.vx_int(), u128::MAX as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_from_integer<N: VxInt>(n: N) -> (r: Option<FixedU128>)
         ensures fxo(r) == fit(n.vx_int() * d18()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_from_integer<N: VxInt>(n: N) -> (r: FixedU128)
         ensures r@ == imin(n.vx_int() * d18(), u128::MAX as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_mul_int(self, n: u128) -> (r: Option<u128>)
         ensures into_(r) == fit((self@ * n) / d18()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_mul_int(self, n: u128) -> (r: u128)
         ensures r as int == imin((self@ * n) / d18(), u128::MAX as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_div_int(self, n: u128) -> (r: Option<u128>)
         ensures into_(r) == (if n == 0 { None } else { Some((self@ / n as int) / d18()) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_div_int(self, n: u128) -> (r: u128)
        requires n != 0, ensures r as int == (self@ / n as int) / d18(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reciprocal(self) -> (r: Option<FixedU128>)
         ensures fxo(r) == (if self@ == 0 { None } else { fit((d18() * d18()) / self@) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_add(&self, o: &FixedU128) -> (r: Option<FixedU128>)
         ensures fxo(r) == fit(self@ + o@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_sub(&self, o: &FixedU128) -> (r: Option<FixedU128>)
         ensures fxo(r) == fit(self@ - o@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_mul(&self, o: &FixedU128) -> (r: Option<FixedU128>)
         ensures fxo(r) == fit((self@ * o@) / d18()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_div(&self, o: &FixedU128) -> (r: Option<FixedU128>)
         ensures fxo(r) == (if o@ == 0 { None } else { fit((self@ * d18()) / o@) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_add(self, o: FixedU128) -> (r: FixedU128)
         ensures r@ == imin(self@ + o@, u128::MAX as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_sub(self, o: FixedU128) -> (r: FixedU128)
         ensures r@ == imax(self@ - o@, 0),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_mul(self, o: FixedU128) -> (r: FixedU128)
         ensures r@ == imin((self@ * o@) / d18(), u128::MAX as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn saturating_pow(self, e: usize) -> (r: FixedU128)
         ensures r@ == fx_satpow(self@, e as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn trunc(self) -> (r: FixedU128)
         ensures r@ == (self@ / d18()) * d18(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_clamped_permill(self) -> (r: Permill)
         ensures r@ == fx_clamp(self@, 1_000_000),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn div(self, o: FixedU128) -> (r: FixedU128)
        requires o@ != 0, ndiv(self@ * d18(), o@) <= u128::MAX as int, ensures r@ == ndiv(self@ * d18(), o@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn mul(self, o: FixedU128) -> (r: FixedU128)
        requires ndiv(self@ * o@, d18()) <= u128::MAX as int, ensures r@ == ndiv(self@ * o@, d18()),
    { unimplemented!() }
}
pub open spec fn fx_clamp(v: int, acc: int) -> int { if v > d18() { acc } else { (v * acc) / d18() } }
/// square-and-multiply with truncation at every step, as sp-arithmetic computes it
pub open spec fn fx_satpow(b: int, e: int) -> int { fx_powgo(d18(), b, e) }
pub open spec fn fx_powgo(acc: int, b: int, e: int) -> int decreases e {
    if e <= 0 { acc } else { fx_powgo(if e % 2 == 1 { imin((acc * b) / d18(), u128::MAX as int) } else { acc }, imin((b * b) / d18(), u128::MAX as int), e / 2) }
}
impl AddSpecImpl<FixedU128> for FixedU128 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: FixedU128) -> bool { self@ + o@ <= u128::MAX as int }
    open spec fn add_spec(self, o: FixedU128) -> FixedU128 { fxu_of(self@ + o@) }
}
impl Add<FixedU128> for FixedU128 { type Output = FixedU128;
    #[verifier::external_body]
    fn add(self, o: FixedU128) -> FixedU128 { unimplemented!() } }
impl SubSpecImpl<FixedU128> for FixedU128 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: FixedU128) -> bool { self@ >= o@ }
    open spec fn sub_spec(self, o: FixedU128) -> FixedU128 { fxu_of(self@ - o@) }
}
impl Sub<FixedU128> for FixedU128 { type Output = FixedU128;
    #[verifier::external_body]
    fn sub(self, o: FixedU128) -> FixedU128 { unimplemented!() } }
impl MulSpecImpl<FixedU128> for FixedU128 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: FixedU128) -> bool { (self@ * o@) / d18() <= u128::MAX as int }
    open spec fn mul_spec(self, o: FixedU128) -> FixedU128 { fxu_of((self@ * o@) / d18()) }
}
impl Mul<FixedU128> for FixedU128 { type Output = FixedU128;
    #[verifier::external_body]
    fn mul(self, o: FixedU128) -> FixedU128 { unimplemented!() } }
impl DivSpecImpl<FixedU128> for FixedU128 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: FixedU128) -> bool { o@ != 0 && (self@ * d18()) / o@ <= u128::MAX as int }
    open spec fn div_spec(self, o: FixedU128) -> FixedU128 { fxu_of((self@ * d18()) / o@) }
}
impl Div<FixedU128> for FixedU128 { type Output = FixedU128;
    #[verifier::external_body]
    fn div(self, o: FixedU128) -> FixedU128 { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<u128> for FixedU128 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u128) -> Self { fxu_of(imin(v * d18(), u128::MAX as int)) }
}
impl From<u128> for FixedU128 {
    #[verifier::external_body]
    fn from(v: u128) -> (r: FixedU128) ensures r@ == imin(v * d18(), u128::MAX as int) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<(u128, u128)> for FixedU128 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: (u128, u128)) -> Self { fxu_of(imin((v.0 * d18()) / (v.1 as int), u128::MAX as int)) }
}
impl From<(u128, u128)> for FixedU128 {
    #[verifier::external_body]
    fn from(v: (u128, u128)) -> (r: FixedU128) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<(u64, u64)> for FixedU128 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: (u64, u64)) -> Self { fxu_of(imin((v.0 * d18()) / (v.1 as int), u128::MAX as int)) }
}
impl From<(u64, u64)> for FixedU128 {
    #[verifier::external_body]
    fn from(v: (u64, u64)) -> (r: FixedU128) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<(u32, u32)> for FixedU128 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: (u32, u32)) -> Self { fxu_of(imin((v.0 * d18()) / (v.1 as int), u128::MAX as int)) }
}
impl From<(u32, u32)> for FixedU128 {
    #[verifier::external_body]
    fn from(v: (u32, u32)) -> (r: FixedU128) { unimplemented!() } }
pub broadcast group vxf { vx, ax_fxu_of_range, ax_fxu_of_of, ax_fxu_of_ext, ax_pm_of_range, ax_pm_of_of, ax_pm_of_ext, ax_pb_of_range, ax_pb_of_of, ax_pb_of_ext, ax_pc_of_range, ax_pc_of_of, ax_pc_of_ext, ax_pq_of_range, ax_pq_of_of, ax_pq_of_ext }
