/// support/traits.rs, with what every implementation promises
pub trait CheckedAddInto { type Output; fn checked_add_into(&self, other: &Self) -> Option<Self::Output>; }
pub trait CheckedMulInto { type Output; fn checked_mul_into(&self, other: &Self) -> Option<Self::Output>; }
pub trait CheckedMulInner: Sized { type Inner; fn checked_mul_inner(&self, other: &Self::Inner) -> Option<Self>; }
pub trait CheckedDivInner: Sized { type Inner; fn checked_div_inner(&self, other: &Self::Inner) -> Option<Self>; }
impl CheckedAddInto for u128 {
    type Output = U256;
//@ fn math/src/support/u128.rs::<CheckedAddInto for u128>::checked_add_into(b)
//@ meta call=<u128 as CheckedAddInto>::checked_add_into
//@ ensures u256o(r) == Some(*self + *b)
//@ pre broadcast use vx; proof { assert(2 * u128::MAX < p256()) by (compute); }
//@ end
}
impl CheckedMulInto for u128 {
    type Output = U256;
//@ fn math/src/support/u128.rs::<CheckedMulInto for u128>::checked_mul_into(b)
//@ meta call=<u128 as CheckedMulInto>::checked_mul_into
//@ ensures u256o(r) == Some(*self * *b)
//@ pre broadcast use vx; proof { lem_prod_u128(*self, *b); }
//@ end
}
impl CheckedDivInner for U256 {
    type Inner = u128;
//@ fn math/src/support/u128.rs::<CheckedDivInner for U256>::checked_div_inner(b)
//@ meta call=<U256 as CheckedDivInner>::checked_div_inner
//@ ensures u256o(r) == (if *b == 0 { None } else { Some(self@ / (*b as int)) })
//@ pre broadcast use vx;
//@ end
}
impl CheckedMulInner for U256 {
    type Inner = u128;
//@ fn math/src/support/u128.rs::<CheckedMulInner for U256>::checked_mul_inner(b)
//@ meta call=<U256 as CheckedMulInner>::checked_mul_inner
//@ ensures u256o(r) == (if self@ * *b < p256() { Some(self@ * *b) } else { None })
//@ pre broadcast use vx;
//@ end
}
