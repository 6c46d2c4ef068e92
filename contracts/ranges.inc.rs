// ------------------------------------------------------------ sets of symbols as lists of ranges
pub open spec fn in_one<S>(r: (S, S), c: S) -> bool { ord(r.0) <= ord(c) <= ord(r.1) }
pub open spec fn within<S>(k: Seq<(S, S)>, c: S) -> bool { exists|i: int| 0 <= i < k.len() && in_one(#[trigger] k[i], c) }
pub open spec fn apart<S>(a: Seq<(S, S)>, b: Seq<(S, S)>) -> bool { forall|c: S| !(#[trigger] within(a, c) && within(b, c)) }
/// A non-empty list of non-empty, disjoint ranges.
pub open spec fn proper<S>(k: Seq<(S, S)>) -> bool {
  &&& k.len() > 0
  &&& forall|i: int| 0 <= i < k.len() ==> ord((#[trigger] k[i]).0) <= ord(k[i].1)
  &&& forall|i: int, j: int, c: S| 0 <= i < k.len() && 0 <= j < k.len() && i != j ==> !(#[trigger] in_one(k[i], c) && #[trigger] in_one(k[j], c))
}
pub open spec fn is_next<S>(s: S, r: Option<S>) -> bool {
  match r {
    Some(n) => ord(s) < ord(n) && forall|x: S| !(ord(s) < #[trigger] ord(x) < ord(n)),
    None => forall|x: S| #[trigger] ord(x) <= ord(s),
  }
}
pub open spec fn is_prev<S>(s: S, r: Option<S>) -> bool {
  match r {
    Some(n) => ord(n) < ord(s) && forall|x: S| !(ord(n) < #[trigger] ord(x) < ord(s)),
    None => forall|x: S| #[trigger] ord(x) >= ord(s),
  }
}
//@ item laps_regex/src/mir.rs trait SymbolOp
//@ fn prev
    ensures is_prev(*self, r),
//@ fn next
    ensures is_next(*self, r),
//@ end
