//@ root math/src
//@ include prelude.rs
//@ include fixed.rs
//@ include mathlib.rs
//@ include omni.inc.rs
//@ include omni_buy.inc.rs
//@ include omni_buy_fn.inc.rs
}
fn main(){}
