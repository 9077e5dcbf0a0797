//@ root math/src
//@ subst lbp.rs|Rounding => PerRounding
//@ include prelude.rs
//@ include fixed.rs
//@ include mathlib.rs
//@ include fx96.rs
//@ include pow2.inc.rs
pub type Balance = u128;
pub type LBPWeight = u32;
//@ include lbp_pow.inc.rs
//@ include lbp_trade.inc.rs
}
fn main(){}
