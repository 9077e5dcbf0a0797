//! Replay-harness stand-in for the parts of sp-arithmetic the repository uses. The real crate is a git
//! dependency that is not present in this sandbox; this file restates its documented behaviour and is
//! part of the trusted base of *replay* only (the deductive step uses the contracts in /verif/units).
use num_traits::{Bounded, CheckedAdd, CheckedDiv, CheckedMul, CheckedSub, One, Zero};
use primitive_types::{U256, U512};

pub use per_things::Rounding;

pub mod per_things {
    #[derive(Copy, Clone, PartialEq, Eq, Debug)]
    pub enum Rounding { Up, Down, NearestPrefUp, NearestPrefDown }
    #[derive(Copy, Clone, PartialEq, Eq, Debug)]
    pub enum SignedRounding { High, Low, NearestPrefHigh, NearestPrefLow, Major, Minor, NearestPrefMajor, NearestPrefMinor }
}

pub mod helpers_128bit {
    use super::*;
    pub fn to_big_uint(x: u128) -> U512 { U512::from(x) }
    pub fn multiply_by_rational_with_rounding(a: u128, b: u128, c: u128, r: Rounding) -> Option<u128> {
        if c == 0 { return None; }
        let p = U256::from(a).full_mul(U256::from(b));
        let (q, rem) = p.div_mod(U512::from(c));
        if q > U512::from(u128::MAX) { return None; }
        let mut q = q.low_u128();
        let rem = rem.low_u128();
        let up = match r {
            Rounding::Up => rem > 0,
            Rounding::Down => false,
            Rounding::NearestPrefUp => rem >= c / 2 + c % 2,
            Rounding::NearestPrefDown => rem > c / 2,
        };
        if up { q = q.checked_add(1)?; }
        Some(q)
    }
}
use helpers_128bit::multiply_by_rational_with_rounding as mbr;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum ArithmeticError { Underflow, Overflow, DivisionByZero }

pub mod traits {
    pub use super::{FixedPointNumber, FixedPointOperand, PerThing};
    pub use num_traits::{Bounded, CheckedAdd, CheckedDiv, CheckedMul, CheckedNeg, CheckedRem, CheckedShl, CheckedShr, CheckedSub, One, Signed, Unsigned, Zero};
    pub use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Rem, Sub, SubAssign};
    pub trait Saturating: Sized {
        fn saturating_add(self, rhs: Self) -> Self;
        fn saturating_sub(self, rhs: Self) -> Self;
        fn saturating_mul(self, rhs: Self) -> Self;
        fn saturating_pow(self, exp: usize) -> Self;
        fn saturating_inc(&mut self) where Self: One + Copy { let mut o = Self::one(); std::mem::swap(&mut o, self); *self = o.saturating_add(One::one()); }
        fn saturating_accrue(&mut self, amount: Self) where Self: One + Copy { *self = (*self).saturating_add(amount); }
        fn saturating_reduce(&mut self, amount: Self) where Self: One + Copy { *self = (*self).saturating_sub(amount); }
    }
    pub trait UniqueSaturatedFrom<T: Sized>: Sized { fn unique_saturated_from(t: T) -> Self; }
    pub trait UniqueSaturatedInto<T: Sized>: Sized { fn unique_saturated_into(self) -> T; }
    impl<T, S: TryFrom<T> + Bounded + Sized> UniqueSaturatedFrom<T> for S { fn unique_saturated_from(t: T) -> Self { S::try_from(t).unwrap_or_else(|_| Bounded::max_value()) } }
    impl<T: Bounded + Sized, S: TryInto<T> + Sized> UniqueSaturatedInto<T> for S { fn unique_saturated_into(self) -> T { self.try_into().unwrap_or_else(|_| Bounded::max_value()) } }
    pub trait SaturatedConversion {
        fn saturated_from<T>(t: T) -> Self where Self: UniqueSaturatedFrom<T> { <Self as UniqueSaturatedFrom<T>>::unique_saturated_from(t) }
        fn saturated_into<T>(self) -> T where Self: UniqueSaturatedInto<T> { <Self as UniqueSaturatedInto<T>>::unique_saturated_into(self) }
    }
    impl<T: Sized> SaturatedConversion for T {}
    macro_rules! sat { ($($t:ty),*) => { $(impl Saturating for $t {
        fn saturating_add(self, rhs: Self) -> Self { <$t>::saturating_add(self, rhs) }
        fn saturating_sub(self, rhs: Self) -> Self { <$t>::saturating_sub(self, rhs) }
        fn saturating_mul(self, rhs: Self) -> Self { <$t>::saturating_mul(self, rhs) }
        fn saturating_pow(self, exp: usize) -> Self { <$t>::saturating_pow(self, exp as u32) }
    })* } }
    sat!(u8, u16, u32, u64, u128, usize);
    impl Saturating for i32 { fn saturating_add(self, r: i32) -> i32 { i32::saturating_add(self, r) } fn saturating_sub(self, r: i32) -> i32 { i32::saturating_sub(self, r) } fn saturating_mul(self, r: i32) -> i32 { i32::saturating_mul(self, r) } fn saturating_pow(self, e: usize) -> i32 { i32::saturating_pow(self, e as u32) } }
    pub trait BaseArithmetic {}
    pub trait AtLeast32BitUnsigned {}
    impl AtLeast32BitUnsigned for u32 {}
    impl AtLeast32BitUnsigned for u64 {}
    impl AtLeast32BitUnsigned for u128 {}
    pub trait IntegerSquareRoot: Sized { fn integer_sqrt(&self) -> Self; fn integer_sqrt_checked(&self) -> Option<Self> { Some(self.integer_sqrt()) } }
    impl IntegerSquareRoot for u128 { fn integer_sqrt(&self) -> u128 { primitive_types::U256::from(*self).integer_sqrt().low_u128() } }
}
use traits::{Saturating, UniqueSaturatedInto};

pub trait FixedPointOperand: Copy + Clone + Bounded + Zero + Saturating + PartialOrd<Self> + UniqueSaturatedInto<u128> + TryFrom<u128> + CheckedAdd + CheckedSub + CheckedMul + CheckedDiv { fn u(self) -> u128; }
impl FixedPointOperand for u128 { fn u(self) -> u128 { self as u128 } }
impl FixedPointOperand for u64 { fn u(self) -> u128 { self as u128 } }
impl FixedPointOperand for u32 { fn u(self) -> u128 { self as u128 } }
impl FixedPointOperand for u16 { fn u(self) -> u128 { self as u128 } }
impl FixedPointOperand for i32 { fn u(self) -> u128 { self as u128 } }
impl FixedPointOperand for u8 { fn u(self) -> u128 { self as u128 } }

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Default, Hash, codec::Encode, codec::Decode, codec::CompactAs, codec::MaxEncodedLen, scale_info::TypeInfo)]
pub struct FixedU128(u128);
impl std::fmt::Debug for FixedU128 { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "FixedU128({}.{:018})", self.0 / Self::DIV, self.0 % Self::DIV) } }
impl std::fmt::Display for FixedU128 { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl FixedU128 {
    pub const DIV: u128 = 1_000_000_000_000_000_000;
    pub const fn from_inner(i: u128) -> Self { Self(i) }
    pub const fn into_inner(self) -> u128 { self.0 }
    pub const fn from_u32(n: u32) -> Self { Self((n as u128) * Self::DIV) }
    pub const fn zero() -> Self { Self(0) }
    pub const fn one() -> Self { Self(Self::DIV) }
    pub const fn is_zero(&self) -> bool { self.0 == 0 }
    pub fn from_float(x: f64) -> Self { Self((x * (Self::DIV as f64)) as u128) }
    pub fn to_float(self) -> f64 { self.0 as f64 / Self::DIV as f64 }
    pub fn from_rational(a: u128, b: u128) -> Self { Self::from_rational_with_rounding(a, b, Rounding::NearestPrefDown) }
    // inherent const arithmetic: takes precedence over the operator traits in method-call position and rounds to nearest
    pub fn div(self, r: Self) -> Self { mbr(self.0, Self::DIV, r.0, Rounding::NearestPrefDown).map(Self).unwrap_or_else(|| panic!("attempt to divide with overflow or NaN")) }
    pub fn mul(self, r: Self) -> Self { mbr(self.0, r.0, Self::DIV, Rounding::NearestPrefDown).map(Self).unwrap_or_else(|| panic!("attempt to multiply with overflow")) }
    pub fn add(self, r: Self) -> Self { Self(self.0.checked_add(r.0).unwrap_or_else(|| panic!("attempt to add with overflow"))) }
    pub fn sub(self, r: Self) -> Self { Self(self.0.checked_sub(r.0).unwrap_or_else(|| panic!("attempt to subtract with overflow"))) }
    pub fn from_rational_with_rounding(a: u128, b: u128, r: Rounding) -> Self {
        if b == 0 { panic!("attempt to divide by zero in from_rational") }
        mbr(Self::DIV, a, b, r).map(Self).unwrap_or_else(|| panic!("overflow in from_rational"))
    }
    pub const fn from_perbill(n: Perbill) -> Self { Self((n.0 as u128) * 1_000_000_000) }
    pub fn sqrt(self) -> Self { self.try_sqrt().expect("sqrt") }
    pub fn try_sqrt(self) -> Option<Self> { Some(Self(U256::from(self.0).checked_mul(U256::from(Self::DIV))?.integer_sqrt().low_u128())) }
}
pub trait FixedPointNumber: Sized + Copy + Saturating + PartialOrd {
    type Inner: Copy;
    const DIV: Self::Inner;
    fn from_inner_(i: u128) -> Self;
    fn inner_(self) -> u128;
    fn from_inner(i: Self::Inner) -> Self;
    fn into_inner(self) -> Self::Inner;
    fn accuracy() -> Self::Inner { Self::DIV }
    fn saturating_from_integer<N: FixedPointOperand>(n: N) -> Self { Self::checked_from_integer(n.u()).unwrap_or(Self::from_inner_(u128::MAX)) }
    fn checked_from_integer<N: Into<u128>>(n: N) -> Option<Self> { n.into().checked_mul(FixedU128::DIV).map(Self::from_inner_) }
    fn saturating_from_rational<N: FixedPointOperand, D: FixedPointOperand>(n: N, d: D) -> Self {
        if d.is_zero() { panic!("attempt to divide by zero") }
        Self::checked_from_rational(n, d).unwrap_or(Self::from_inner_(u128::MAX))
    }
    fn checked_from_rational<N: FixedPointOperand, D: FixedPointOperand>(n: N, d: D) -> Option<Self> {
        if d.is_zero() { return None; }
        mbr(n.u(), FixedU128::DIV, d.u(), Rounding::Down).map(Self::from_inner_)
    }
    fn checked_mul_int<N: FixedPointOperand>(self, n: N) -> Option<N> { mbr(self.inner_(), n.u(), FixedU128::DIV, Rounding::Down).and_then(|v| N::try_from(v).ok()) }
    fn saturating_mul_int<N: FixedPointOperand>(self, n: N) -> N { self.checked_mul_int(n).unwrap_or_else(Bounded::max_value) }
    fn checked_div_int<N: FixedPointOperand>(self, d: N) -> Option<N> { self.inner_().checked_div(d.u()).map(|x| x / FixedU128::DIV).and_then(|v| N::try_from(v).ok()) }
    fn saturating_div_int<N: FixedPointOperand>(self, d: N) -> N { if d.is_zero() { panic!("attempt to divide by zero") } self.checked_div_int(d).unwrap_or_else(Bounded::max_value) }
    fn saturating_mul_acc_int<N: FixedPointOperand>(self, n: N) -> N { self.saturating_mul_int(n).saturating_add(n) }
    fn saturating_abs(self) -> Self { self }
    fn reciprocal(self) -> Option<Self> { if self.inner_() == 0 { None } else { mbr(FixedU128::DIV, FixedU128::DIV, self.inner_(), Rounding::Down).map(Self::from_inner_) } }
    fn is_one(&self) -> bool { self.inner_() == FixedU128::DIV }
    fn is_positive(self) -> bool { true }
    fn is_negative(self) -> bool { false }
    fn trunc(self) -> Self { Self::from_inner_(self.inner_() / FixedU128::DIV * FixedU128::DIV) }
    fn frac(self) -> Self { Self::from_inner_(self.inner_() % FixedU128::DIV) }
    fn ceil(self) -> Self { if self.inner_() % FixedU128::DIV == 0 { self } else { self.trunc().saturating_add(Self::from_inner_(FixedU128::DIV)) } }
    fn floor(self) -> Self { self.trunc() }
    fn round(self) -> Self { let n = self.frac().inner_() * 10 / FixedU128::DIV; if n < 5 { self.trunc() } else { self.trunc().saturating_add(Self::from_inner_(FixedU128::DIV)) } }
}
impl FixedPointNumber for FixedU128 {
    type Inner = u128;
    const DIV: u128 = 1_000_000_000_000_000_000;
    fn from_inner_(i: u128) -> Self { Self(i) }
    fn inner_(self) -> u128 { self.0 }
    fn from_inner(i: u128) -> Self { Self(i) }
    fn into_inner(self) -> u128 { self.0 }
}
impl Saturating for FixedU128 {
    fn saturating_add(self, r: Self) -> Self { Self(self.0.saturating_add(r.0)) }
    fn saturating_sub(self, r: Self) -> Self { Self(self.0.saturating_sub(r.0)) }
    fn saturating_mul(self, r: Self) -> Self { self.checked_mul(&r).unwrap_or(Self(u128::MAX)) }
    fn saturating_pow(self, exp: usize) -> Self {
        if exp == 0 { return Self::one(); }
        let exp = exp as u32;
        let msb = 32 - exp.leading_zeros();
        let mut result = Self::one();
        let mut pow_val = self;
        for i in 0..msb {
            if ((1 << i) & exp) > 0 { result = result.saturating_mul(pow_val); }
            pow_val = pow_val.saturating_mul(pow_val);
        }
        result
    }
}
impl CheckedAdd for FixedU128 { fn checked_add(&self, r: &Self) -> Option<Self> { self.0.checked_add(r.0).map(Self) } }
impl CheckedSub for FixedU128 { fn checked_sub(&self, r: &Self) -> Option<Self> { self.0.checked_sub(r.0).map(Self) } }
impl CheckedMul for FixedU128 { fn checked_mul(&self, r: &Self) -> Option<Self> { mbr(self.0, r.0, Self::DIV, Rounding::Down).map(Self) } }
impl CheckedDiv for FixedU128 { fn checked_div(&self, r: &Self) -> Option<Self> { if r.0 == 0 { None } else { mbr(self.0, Self::DIV, r.0, Rounding::Down).map(Self) } } }
impl std::ops::Add for FixedU128 { type Output = Self; fn add(self, r: Self) -> Self { Self(self.0 + r.0) } }
impl std::ops::Sub for FixedU128 { type Output = Self; fn sub(self, r: Self) -> Self { Self(self.0 - r.0) } }
impl std::ops::Mul for FixedU128 { type Output = Self; fn mul(self, r: Self) -> Self { self.checked_mul(&r).unwrap_or_else(|| panic!("attempt to multiply with overflow")) } }
impl std::ops::Div for FixedU128 { type Output = Self; fn div(self, r: Self) -> Self { if r.0 == 0 { panic!("attempt to divide by zero") } self.checked_div(&r).unwrap_or_else(|| panic!("attempt to divide with overflow")) } }
impl Zero for FixedU128 { fn zero() -> Self { Self(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
impl One for FixedU128 { fn one() -> Self { Self(Self::DIV) } }
impl Bounded for FixedU128 { fn min_value() -> Self { Self(0) } fn max_value() -> Self { Self(u128::MAX) } }
impl From<u128> for FixedU128 { fn from(i: u128) -> Self { Self::saturating_from_integer(i) } }
impl<N: FixedPointOperand, D: FixedPointOperand> From<(N, D)> for FixedU128 { fn from(r: (N, D)) -> Self { Self::saturating_from_rational(r.0, r.1) } }
impl<P: PerThing> From<P> for FixedU128 where P::Inner: FixedPointOperand { fn from(p: P) -> Self { Self::saturating_from_rational(p.deconstruct(), P::ACCURACY) } }
impl FixedU128 {
    pub fn try_into_perthing<P: PerThing>(self) -> Result<P, P> { if self > Self::one() { Err(P::one()) } else { Ok(P::from_rational_u128(self.0, Self::DIV)) } }
    pub fn into_clamped_perthing<P: PerThing>(self) -> P { match self.try_into_perthing() { Ok(p) => p, Err(p) => p } }
}
impl std::str::FromStr for FixedU128 { type Err = &'static str; fn from_str(s: &str) -> Result<Self, Self::Err> { s.parse().map(Self).map_err(|_| "invalid string input for fixed point number") } }

pub trait PerThing: Sized + Copy + Ord + Bounded + Zero + One + Saturating {
    fn from_rational_u128(p: u128, q: u128) -> Self;
    type Inner;
    const ACCURACY: Self::Inner;
    fn deconstruct(self) -> Self::Inner;
    fn from_parts(p: Self::Inner) -> Self;
}
fn prune_mul(x: u128, part: u128, max: u128, r: Rounding) -> u128 { mbr(x, part, max, r).unwrap_or(u128::MAX) }
macro_rules! per {
    ($($n:ident, $t:ty, $acc:expr, $up:ty);*) => { $(
        #[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Default, Hash, Debug, codec::Encode, codec::Decode, codec::CompactAs, codec::MaxEncodedLen, scale_info::TypeInfo)]
        pub struct $n($t);
        impl PerThing for $n { fn from_rational_u128(p: u128, q: u128) -> Self { $n::from_rational(p, q) } type Inner = $t; const ACCURACY: $t = $acc; fn deconstruct(self) -> $t { self.0 } fn from_parts(p: $t) -> Self { $n::from_parts(p) } }
        impl $n {
            pub const fn from_parts(p: $t) -> Self { Self(if p > $acc { $acc } else { p }) }
            pub const fn deconstruct(self) -> $t { self.0 }
            pub const fn from_percent(x: $t) -> Self { Self(((if x > 100 { 100 } else { x }) as u128 * (<$n as PerThing>::ACCURACY as u128) / 100) as $t) }
            pub const fn from_perthousand(x: $t) -> Self { Self(((if x as u128 > 1000 { 1000 } else { x as u128 }) * (<$n as PerThing>::ACCURACY as u128) / 1000) as $t) }
            pub const fn one() -> Self { Self($acc) }
            pub const fn zero() -> Self { Self(0) }
            pub const fn is_zero(&self) -> bool { self.0 == 0 }
            pub const fn is_one(&self) -> bool { self.0 == $acc }
            pub fn from_float(x: f64) -> Self { Self((x.max(0.0).min(1.0) * (<$n as PerThing>::ACCURACY as f64)) as $t) }
            pub fn from_rational<N: Into<u128>>(p: N, q: N) -> Self { let (p, q) = (p.into(), q.into()); if q == 0 || p > q { return Self::one(); } Self(mbr(<$n as PerThing>::ACCURACY as u128, p, q, Rounding::Down).unwrap() as $t) }
            pub fn mul_floor<N: Into<u128> + TryFrom<u128> + Bounded>(self, b: N) -> N { N::try_from(prune_mul(b.into(), self.0 as u128, <$n as PerThing>::ACCURACY as u128, Rounding::Down)).unwrap_or_else(|_| N::max_value()) }
            pub fn mul_ceil<N: Into<u128> + TryFrom<u128> + Bounded>(self, b: N) -> N { N::try_from(prune_mul(b.into(), self.0 as u128, <$n as PerThing>::ACCURACY as u128, Rounding::Up)).unwrap_or_else(|_| N::max_value()) }
            pub fn left_from_one(self) -> Self { Self($acc - self.0) }
            pub fn saturating_add(self, r: Self) -> Self { Self::from_parts(self.0.saturating_add(r.0)) }
            pub fn saturating_sub(self, r: Self) -> Self { Self(self.0.saturating_sub(r.0)) }
            pub fn saturating_mul(self, r: Self) -> Self { self * r }
            pub fn saturating_div(self, r: Self, ro: Rounding) -> Self { if r.0 == 0 || self.0 >= r.0 { return Self::one(); } Self(mbr(self.0 as u128, <$n as PerThing>::ACCURACY as u128, r.0 as u128, ro).unwrap_or(u128::MAX).min(<$n as PerThing>::ACCURACY as u128) as $t) }
            pub fn square(self) -> Self { self * self }
        }
        impl Saturating for $n {
            fn saturating_add(self, r: Self) -> Self { $n::saturating_add(self, r) }
            fn saturating_sub(self, r: Self) -> Self { $n::saturating_sub(self, r) }
            fn saturating_mul(self, r: Self) -> Self { self * r }
            fn saturating_pow(self, e: usize) -> Self { let mut x = Self::one(); for _ in 0..e { x = x * self; } x }
        }
        impl CheckedAdd for $n { fn checked_add(&self, r: &Self) -> Option<Self> { self.0.checked_add(r.0).filter(|x| *x <= $acc).map(Self) } }
        impl CheckedSub for $n { fn checked_sub(&self, r: &Self) -> Option<Self> { self.0.checked_sub(r.0).map(Self) } }
        impl CheckedMul for $n { fn checked_mul(&self, r: &Self) -> Option<Self> { Some(*self * *r) } }
        impl std::ops::Mul for $n { type Output = Self; fn mul(self, r: Self) -> Self { Self((self.0 as u128 * r.0 as u128 / <$n as PerThing>::ACCURACY as u128) as $t) } }
        impl std::ops::Add for $n { type Output = Self; fn add(self, r: Self) -> Self { Self::from_parts(self.0.checked_add(r.0).unwrap()) } }
        impl std::ops::Sub for $n { type Output = Self; fn sub(self, r: Self) -> Self { Self(self.0 - r.0) } }
        impl std::ops::Div for $n { type Output = Self; fn div(self, r: Self) -> Self { Self::from_rational(self.0 as u128, r.0 as u128) } }
        impl std::ops::Mul<u128> for $n { type Output = u128; fn mul(self, b: u128) -> u128 { prune_mul(b, self.0 as u128, <$n as PerThing>::ACCURACY as u128, Rounding::NearestPrefDown) } }
        impl std::ops::Mul<u64> for $n { type Output = u64; fn mul(self, b: u64) -> u64 { prune_mul(b as u128, self.0 as u128, <$n as PerThing>::ACCURACY as u128, Rounding::NearestPrefDown) as u64 } }
        impl std::ops::Mul<u32> for $n { type Output = u32; fn mul(self, b: u32) -> u32 { prune_mul(b as u128, self.0 as u128, <$n as PerThing>::ACCURACY as u128, Rounding::NearestPrefDown) as u32 } }
        impl Zero for $n { fn zero() -> Self { Self(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
        impl One for $n { fn one() -> Self { Self($acc) } }
        impl Bounded for $n { fn min_value() -> Self { Self(0) } fn max_value() -> Self { Self($acc) } }
    )* }
}
per!(Permill, u32, 1_000_000, u64; Perbill, u32, 1_000_000_000, u64; Percent, u8, 100, u32; Perquintill, u64, 1_000_000_000_000_000_000, u128);

#[derive(Clone, Copy, Default, Eq, Debug)]
pub struct Rational128(u128, u128);
impl Rational128 {
    pub const fn zero() -> Self { Self(0, 1) }
    pub const fn one() -> Self { Self(1, 1) }
    pub fn from(n: u128, d: u128) -> Self { Self(n, d.max(1)) }
    pub fn from_unchecked(n: u128, d: u128) -> Self { Self(n, d) }
    pub fn n(&self) -> u128 { self.0 }
    pub fn d(&self) -> u128 { self.1 }
}
impl PartialOrd for Rational128 { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Rational128 { fn cmp(&self, o: &Self) -> std::cmp::Ordering { (U256::from(self.0) * U256::from(o.1)).cmp(&(U256::from(o.0) * U256::from(self.1))) } }
impl PartialEq for Rational128 { fn eq(&self, o: &Self) -> bool { self.cmp(o).is_eq() } }
