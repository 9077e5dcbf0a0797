//@ item math/src/ratio.rs::Ratio
pub struct BigUint { i: u128 }
impl BigUint { pub uninterp spec fn view(&self) -> int; }
pub uninterp spec fn big_of(i: int) -> BigUint;
pub broadcast axiom fn ax_big_of(i: int) requires 0 <= i ensures #![trigger big_of(i)] big_of(i)@ == i;
pub broadcast axiom fn ax_big_range(x: BigUint) ensures #![trigger x.view()] 0 <= x@;
/// sp_arithmetic's arbitrary precision integers
#[verifier::external_body]
pub fn to_big_uint(x: u128) -> (r: BigUint) ensures r@ == x as int { unimplemented!() }
impl MulSpecImpl<BigUint> for BigUint {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: BigUint) -> bool { true }
    open spec fn mul_spec(self, o: BigUint) -> BigUint { big_of(self@ * o@) }
}
impl Mul<BigUint> for BigUint { type Output = BigUint;
    #[verifier::external_body]
    fn mul(self, o: BigUint) -> BigUint { unimplemented!() } }
pub open spec fn icmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
impl BigUint {
    #[verifier::external_body]
    pub fn cmp(&self, o: &BigUint) -> (r: Ordering) ensures r == icmp(self@, o@) { unimplemented!() }
}
/// exact comparison of the two fractions; an empty denominator stands for infinity
pub open spec fn rcmp(a: Ratio, b: Ratio) -> Ordering {
    if a.d == b.d { icmp(a.n as int, b.n as int) } else if a.d == 0 { Ordering::Greater } else if b.d == 0 { Ordering::Less } else { icmp(a.n * b.d, b.n * a.d) }
}
impl Ratio {
//@ fn math/src/ratio.rs::Ratio::new(n, d)
//@ ensures r.n == n, r.d == (if d == 0 { 1u128 } else { d })
//@ end
//@ fn math/src/ratio.rs::Ratio::new_unchecked(n, d)
//@ ensures r.n == n, r.d == d
//@ end
//@ fn math/src/ratio.rs::Ratio::one()
//@ ensures r.n == 1, r.d == 1
//@ end
//@ fn math/src/ratio.rs::Ratio::zero()
//@ ensures r.n == 0, r.d == 1
//@ end
//@ fn math/src/ratio.rs::Ratio::is_one()
//@ ensures r == (self.d > 0 && self.n == self.d)
//@ end
//@ fn math/src/ratio.rs::Ratio::is_zero()
//@ ensures r == (self.n == 0)
//@ end
//@ fn math/src/ratio.rs::Ratio::inverted()
//@ ensures r.n == (if self.n == 0 { 0 } else { self.d }), r.d == (if self.n == 0 { self.d } else { self.n })
//@ end
}
impl OrdSpecImpl for Ratio {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, o: &Ratio) -> Ordering { rcmp(*self, *o) }
}
impl Ord for Ratio {
//@ fn math/src/ratio.rs::<Ord for Ratio>::cmp(other)
//@ meta call=<Ratio as core::cmp::Ord>::cmp
//@ ensures r == rcmp(*self, *other)
//@ pre broadcast use ax_big_of, ax_big_range; proof { lem_mul_pos(self.n as int, other.d as int); lem_mul_pos(other.n as int, self.d as int); }
//@ end
}
impl PartialOrdSpecImpl for Ratio {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Ratio) -> Option<Ordering> { Some(rcmp(*self, *o)) }
}
impl PartialOrd for Ratio {
//@ fn math/src/ratio.rs::<PartialOrd for Ratio>::partial_cmp(other)
//@ meta call=<Ratio as core::cmp::PartialOrd>::partial_cmp
//@ ensures r == Some(rcmp(*self, *other))
//@ end
}
proof fn lem_mul_pos(a: int, b: int) requires a >= 0, b >= 0 ensures a * b >= 0 { assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0; }
