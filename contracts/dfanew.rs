use vstd::prelude::*;
use core::marker::PhantomData;
use core::hash::Hash;
verus! {
//@ include coll.inc.rs
//@ include btreeset.inc.rs
pub uninterp spec fn ord<S>(s: S) -> int;
pub broadcast axiom fn ord_one<S>(a: S, b: S)
  requires #[trigger] ord(a) == #[trigger] ord(b),
  ensures a == b;
//@ include ranges.inc.rs
//@ include vecs.inc.rs
//@ include fa.inc.rs proved=fa
//@ include closure.inc.rs proved=closure
//@ include fatypes.inc.rs
//@ include powerset.inc.rs proved=powerset
//@ include minimize.inc.rs proved=minimize
//@ include rebuild.inc.rs proved=rebuild
//@ include traces.inc.rs
//@ include dfanew.inc.rs
}
fn main() {}
