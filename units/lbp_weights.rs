//@ root math/src
//@ include prelude.rs
//@ include mathlib.rs
//@ subst BlockNumber => u32
//@ dropgen BlockNumber
pub type LBPWeight = u32;
//@ include lbp_weights.inc.rs
}
fn main(){}
