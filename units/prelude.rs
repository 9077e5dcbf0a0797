#![allow(unused_imports, unused_variables, dead_code, non_snake_case, unused_parens, unused_mut, unused_braces, non_upper_case_globals, unreachable_code, unused_macros)]
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::FromSpec;
use core::ops::*;
use core::cmp::*;
verus! {
//#CONSTS
// ======================================================================================================
// Trusted base (assumed contracts on dependencies). `view` is the mathematical value.
// ======================================================================================================
pub open spec fn p128() -> int { u128::MAX as int + 1 }
pub open spec fn p256() -> int { p128() * p128() }
pub open spec fn p512() -> int { p256() * p256() }

/// floor(a*b/c)
pub open spec fn muldiv(a: int, b: int, c: int) -> int { (a * b) / c }
/// ceil(a/b) for a >= 0, b > 0
pub open spec fn cdiv(a: int, b: int) -> int { if a % b == 0 { a / b } else { a / b + 1 } }
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn iabs(a: int) -> int { if a >= 0 { a } else { -a } }

#[verifier::external_body]
pub fn vx_panic() -> !
    requires false,
{ unimplemented!() }
pub fn vx_assert(b: bool)
    requires b,
{ }

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct U256 { l: [u64; 4] }
impl U256 { pub uninterp spec fn view(&self) -> int; }
pub uninterp spec fn u256_of(i: int) -> U256;
pub broadcast axiom fn ax_u256_range(x: U256) ensures #![trigger x.view()] 0 <= x@ < p256();
pub broadcast axiom fn ax_u256_of(i: int) requires 0 <= i < p256() ensures #![trigger u256_of(i)] u256_of(i)@ == i;
pub broadcast axiom fn ax_u256_ext(x: U256) ensures #![trigger x.view()] u256_of(x@) == x;

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct U512 { l: [u64; 8] }
impl U512 { pub uninterp spec fn view(&self) -> int; }
pub uninterp spec fn u512_of(i: int) -> U512;
pub broadcast axiom fn ax_u512_range(x: U512) ensures #![trigger x.view()] 0 <= x@ < p512();
pub broadcast axiom fn ax_u512_of(i: int) requires 0 <= i < p512() ensures #![trigger u512_of(i)] u512_of(i)@ == i;
pub broadcast axiom fn ax_u512_ext(x: U512) ensures #![trigger x.view()] u512_of(x@) == x;

/// U128 of primitive-types
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct U128 { l: [u64; 2] }
impl U128 { pub uninterp spec fn view(&self) -> int; }
pub uninterp spec fn uu128_of(i: int) -> U128;
pub broadcast axiom fn ax_uu128_range(x: U128) ensures #![trigger x.view()] 0 <= x@ < p128();
pub broadcast axiom fn ax_uu128_of(i: int) requires 0 <= i < p128() ensures #![trigger uu128_of(i)] uu128_of(i)@ == i;
pub broadcast axiom fn ax_uu128_ext(x: U128) ensures #![trigger x.view()] uu128_of(x@) == x;

//@ include ints.rs
//@ include bigint.rs

#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: core::cmp::Ord + core::marker::Destruct>[ core::cmp::min::<T> ](a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == Ordering::Less { b } else { a });
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T: core::cmp::Ord + core::marker::Destruct>[ core::cmp::max::<T> ](a: T, b: T) -> (r: T)
    ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == Ordering::Less { a } else { b });

/// b^k
pub open spec fn ipow(b: int, k: int) -> int decreases k { if k <= 0 { 1 } else { b * ipow(b, k - 1) } }
pub assume_specification[ u8::abs_diff ](a: u8, b: u8) -> (r: u8) ensures r as int == iabs(a - b);
pub assume_specification[ u16::abs_diff ](a: u16, b: u16) -> (r: u16) ensures r as int == iabs(a - b);
pub assume_specification[ u32::abs_diff ](a: u32, b: u32) -> (r: u32) ensures r as int == iabs(a - b);
pub assume_specification[ u64::abs_diff ](a: u64, b: u64) -> (r: u64) ensures r as int == iabs(a - b);
pub assume_specification[ u128::abs_diff ](a: u128, b: u128) -> (r: u128) ensures r as int == iabs(a - b);
pub assume_specification[ usize::abs_diff ](a: usize, b: usize) -> (r: usize) ensures r as int == iabs(a - b);
pub assume_specification<T>[ <Option<T> as From<T>>::from ](x: T) -> (r: Option<T>) ensures r == Some(x);
pub assume_specification[ u32::saturating_pow ](a: u32, k: u32) -> (r: u32) ensures r as int == imin(ipow(a as int, k as int), u32::MAX as int);
pub assume_specification[ u32::checked_pow ](a: u32, k: u32) -> (r: Option<u32>) ensures r == (if ipow(a as int, k as int) <= u32::MAX { Some(ipow(a as int, k as int) as u32) } else { None });
pub assume_specification[ u32::pow ](a: u32, k: u32) -> (r: u32) requires ipow(a as int, k as int) <= u32::MAX, ensures r as int == ipow(a as int, k as int);
pub assume_specification[ u64::saturating_pow ](a: u64, k: u32) -> (r: u64) ensures r as int == imin(ipow(a as int, k as int), u64::MAX as int);
pub assume_specification[ u64::checked_pow ](a: u64, k: u32) -> (r: Option<u64>) ensures r == (if ipow(a as int, k as int) <= u64::MAX { Some(ipow(a as int, k as int) as u64) } else { None });
pub assume_specification[ u64::pow ](a: u64, k: u32) -> (r: u64) requires ipow(a as int, k as int) <= u64::MAX, ensures r as int == ipow(a as int, k as int);
pub assume_specification[ u128::saturating_pow ](a: u128, k: u32) -> (r: u128) ensures r as int == imin(ipow(a as int, k as int), u128::MAX as int);
pub assume_specification[ u128::checked_pow ](a: u128, k: u32) -> (r: Option<u128>) ensures r == (if ipow(a as int, k as int) <= u128::MAX { Some(ipow(a as int, k as int) as u128) } else { None });
pub assume_specification[ u128::pow ](a: u128, k: u32) -> (r: u128) requires ipow(a as int, k as int) <= u128::MAX, ensures r as int == ipow(a as int, k as int);

/// `From` is the identity on one type (core: `impl<T> From<T> for T`)
pub axiom fn ax_refl<T>() ensures <T as FromSpec<T>>::obeys_from_spec(), forall|x: T| #[trigger] <T as FromSpec<T>>::from_spec(x) == x;

// ------------------------------------------------------------------------------------------------------
// Proved arithmetic facts, available to every function.
// ------------------------------------------------------------------------------------------------------
pub broadcast proof fn lem_prod_u128(a: u128, b: u128)
    ensures #![trigger (a as int) * (b as int)] 0 <= (a as int) * (b as int) < p256(), (a as int) * (b as int) <= u128::MAX * u128::MAX
{
    assert(0 <= (a as int) * (b as int) <= u128::MAX * u128::MAX) by (nonlinear_arith)
        requires 0 <= a <= u128::MAX, 0 <= b <= u128::MAX;
    assert(u128::MAX * u128::MAX < p256()) by (compute);
}
pub broadcast proof fn lem_div_pos(a: int, b: int)
    requires a >= 0, b > 0,
    ensures #![trigger a / b] 0 <= a / b <= a,
{
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(a, b);
    vstd::arithmetic::div_mod::lemma_div_is_ordered_by_denominator(a, 1, b);
}
/// the defining inequalities of integer division
/// products are uninterpreted to the solver: swapping the factors has to be said (used on retries only)
pub broadcast proof fn lem_comm_b(a: int, b: int) ensures #![trigger a * b] a * b == b * a { assert(a * b == b * a) by (nonlinear_arith); }
pub proof fn lem_div(a: int, b: int)
    requires b > 0,
    ensures (a / b) * b <= a, a < (a / b) * b + b, b * (a / b) == (a / b) * b, a == (a / b) * b + a % b, 0 <= a % b < b,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b);
    assert(b * (a / b) == (a / b) * b) by (nonlinear_arith);
}
/// q is the quotient as soon as it satisfies the defining inequalities
pub proof fn lem_div_is(a: int, b: int, q: int)
    requires b > 0, q * b <= a, a < q * b + b,
    ensures a / b == q,
{
    lem_div(a, b);
    let p = a / b;
    assert(p == q) by (nonlinear_arith) requires b > 0, q * b <= a, a < q * b + b, p * b <= a, a < p * b + b;
}
pub proof fn lem_div_mono(a: int, b: int, c: int)
    requires a <= b, c > 0,
    ensures a / c <= b / c,
{
    vstd::arithmetic::div_mod::lemma_div_is_ordered(a, b, c);
}
pub open spec fn okint(r: Option<u128>) -> Option<int> { match r { Some(v) => Some(v as int), None => None } }
pub open spec fn fit128(v: int) -> Option<int> { if 0 <= v <= u128::MAX { Some(v) } else { None } }
pub broadcast group vx {
    ax_u256_range, ax_u256_of, ax_u256_ext, ax_u512_range, ax_u512_of, ax_u512_ext, ax_uu128_range, ax_uu128_of, ax_uu128_ext,
    lem_prod_u128, lem_div_pos,
}
