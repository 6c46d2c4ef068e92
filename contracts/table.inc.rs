#[verifier::external_body]
fn unreached_<T>() -> T requires false { unimplemented!() }
// ------------------------------------------------------------ symbols, tables

/// Order of the symbols: what `Ord` of the symbol type compares.
pub uninterp spec fn ord<S>(s: S) -> int;
pub broadcast axiom fn ord_one<S>(a: S, b: S)
  requires #[trigger] ord(a) == #[trigger] ord(b),
  ensures a == b;

//@ include coll.inc.rs
//@ include tablespec.inc.rs
