use vstd::prelude::*;
use core::marker::PhantomData;
use core::hash::Hash;
verus! {
//@ include coll.inc.rs
//@ include btreeset.inc.rs
pub uninterp spec fn ord<S>(s: S) -> int;
pub broadcast axiom fn ord_one<S>(a: S, b: S)
  requires #[trigger] ord(a) == #[trigger] ord(b),
  ensures a == b;
//@ include ranges.inc.rs
//@ include vecs.inc.rs
//@ include fa.inc.rs proved=fa
//@ item laps_regex/src/dfa.rs struct DFA attr=reject_recursive_types(S)
//@ end
//@ include dfaspec.inc.rs
//@ include minimize.inc.rs
}
fn main() {}
