//@ root math/src
//@ include prelude.rs
//@ include fixed.rs
//@ include mathlib.rs
//@ include omni.inc.rs
//@ include omni_sell_fn.inc.rs
}
fn main(){}
