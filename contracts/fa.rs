use vstd::prelude::*;
use core::marker::PhantomData;
use core::hash::Hash;
verus! {
//@ include coll.inc.rs
//@ include vecs.inc.rs
//@ include fa.inc.rs
}
fn main() {}
