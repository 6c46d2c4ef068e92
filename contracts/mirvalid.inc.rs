// ------------------------------------------------------------ the ranges of an expression
pub open spec fn valid_one<S>(k: Seq<(S, S)>) -> bool { forall|i: int| 0 <= i < k.len() ==> ord((#[trigger] k[i]).0) <= ord(k[i].1) }
/// Every range is closed: its start is not behind its end.
pub open spec fn valid<S, T>(m: Mir<S, T>) -> bool { forall|k: Vec<(S, S)>| #[trigger] has_range(m, k) ==> valid_one(k@) }
pub open spec fn hole<S, T>(m: Mir<S, T>) -> bool { exists|k: Vec<(S, S)>| #[trigger] has_range(m, k) && k@.len() == 0 }
