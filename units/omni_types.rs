//@ root math/src
//@ include prelude.rs
//@ include fixed.rs
//@ include mathlib.rs
//@ include omni_items.inc.rs
//@ call .checked_add => num_checked_add
//@ call .checked_sub => num_checked_sub
//@ include omni_types.inc.rs
}
fn main(){}
