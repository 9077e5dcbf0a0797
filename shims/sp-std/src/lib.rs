//! Replay-harness stand-in for sp-std: the standard library under sp-std's names.
pub use std::{any, borrow, boxed, cell, clone, cmp, convert, default, fmt, hash, iter, marker, mem, num, ops, rc, result, slice, str, sync, vec};
pub mod collections { pub use std::collections::{btree_map, btree_set, vec_deque, BTreeMap, BTreeSet, VecDeque}; }
pub mod prelude {
    pub use std::borrow::ToOwned;
    pub use std::boxed::Box;
    pub use std::clone::Clone;
    pub use std::cmp::{Eq, PartialEq, Reverse};
    pub use std::iter::IntoIterator;
    pub use std::vec;
    pub use std::vec::Vec;
}
