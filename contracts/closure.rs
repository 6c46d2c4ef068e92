use vstd::prelude::*;
use core::marker::PhantomData;
use core::hash::Hash;
verus! {
//@ include coll.inc.rs
//@ include btreeset.inc.rs
//@ include vecs.inc.rs
//@ include fa.inc.rs proved=fa
//@ include closure.inc.rs
}
fn main() {}
