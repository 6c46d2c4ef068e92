use vstd::prelude::*;
use core::marker::PhantomData;
use core::hash::Hash;
verus! {
//@ include coll.inc.rs
//@ include vecs.inc.rs
//@ include steps.inc.rs
pub uninterp spec fn ord<S>(s: S) -> int;
pub broadcast axiom fn ord_one<S>(a: S, b: S)
  requires #[trigger] ord(a) == #[trigger] ord(b),
  ensures a == b;
//@ include ranges.inc.rs
//@ item laps_regex/src/mir.rs enum Error
//@ end
//@ include mirspec.inc.rs
//@ include mirlists.inc.rs proved=miropt
//@ include mirfits.inc.rs proved=mirsym
//@ include mirvalid.inc.rs
//@ include hir.inc.rs
//@ include mirhir.inc.rs
}
fn main() {}
