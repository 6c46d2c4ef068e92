use vstd::prelude::*;
use core::marker::PhantomData;
use core::hash::Hash;
verus! {
//@ include coll.inc.rs
//@ include btreeset.inc.rs
pub uninterp spec fn ord<S>(s: S) -> int;
pub broadcast axiom fn ord_one<S>(a: S, b: S)
  requires #[trigger] ord(a) == #[trigger] ord(b),
  ensures a == b;
//@ include ranges.inc.rs
//@ include vecs.inc.rs
//@ include steps.inc.rs
//@ include fa.inc.rs proved=fa
//@ include fatypes.inc.rs
//@ include traces.inc.rs
//@ item laps_regex/src/mir.rs enum Error
//@ end
//@ include mirspec.inc.rs
//@ include mirlists.inc.rs proved=miropt
//@ include mirfits.inc.rs proved=mirsym
//@ include mirvalid.inc.rs
pub mod hm { use super::*;
//@ include hir.inc.rs
//@ include mirhir.inc.rs proved=mirhir
}
pub mod om { use super::*;
//@ include mirsym.inc.rs proved=mirsym
//@ include mirset.inc.rs proved=mirset
//@ include miropt.inc.rs proved=miropt
//@ include mirrebuild.inc.rs proved=mirrebuild
}
pub mod nm { use super::*;
//@ include nfa.inc.rs proved=nfa
}
pub mod dm { use super::*;
//@ include closure.inc.rs proved=closure
//@ include powerset.inc.rs proved=powerset
//@ include minimize.inc.rs proved=minimize
//@ include rebuild.inc.rs proved=rebuild
//@ include dfanew.inc.rs proved=dfanew
}
//@ include tablespec.inc.rs
pub mod tm { use super::*;
//@ include dfatable.inc.rs proved=dfatable
}
pub use hm::Hir;
//@ include endtoend.inc.rs
pub mod rm { use super::*; use super::Error as MirError; use super::hm::*; use super::dm::*;
//@ include matcher.inc.rs proved=matcher
//@ include rebuilder.inc.rs
}
}
fn main() {}
