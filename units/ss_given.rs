//@ root math/src
//@ include prelude.rs
//@ include seqlib.rs
//@ include ss_solve.inc.rs
//@ include ss_loops.inc.rs
//@ include ss_base.inc.rs
//@ include ss_core_d.inc.rs
//@ include ss_core_y.inc.rs
//@ include ss_given.inc.rs
}
fn main(){}
