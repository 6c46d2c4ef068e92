use vstd::prelude::*;
use core::marker::PhantomData;
use core::hash::Hash;
verus! {
//@ include coll.inc.rs
//@ include vecs.inc.rs
//@ include fa.inc.rs proved=fa
pub type Key<S> = Vec<(S, S)>;
//@ item laps_regex/src/nfa.rs struct NFA attr=reject_recursive_types(S)
//@ end
//@ include mirspec.inc.rs
//@ include traces.inc.rs
//@ include nfa.inc.rs
}
fn main() {}
