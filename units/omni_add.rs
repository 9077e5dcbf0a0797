//@ root math/src
//@ include prelude.rs
//@ include fixed.rs
//@ include mathlib.rs
//@ include omni.inc.rs
//@ include omni_state.inc.rs
//@ include omni_add.inc.rs
}
fn main(){}
