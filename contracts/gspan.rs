#![feature(allocator_api)]
use vstd::prelude::*;
verus! {
//@ include fmt.inc.rs
//@ item src/span.rs enum Error
//@ end
//@ include span.inc.rs
//@ assume the span of a field satisfies the contract of its trait (proved for the provided types: unit composite)
//@ assume the declarations of /verif/gen/src/s.rs stand for all declarations (fields with and without span in every position, structures, enumerations, type parameters)
//@ rewrite paths of the crate :: laps::span::Spanned ==> Spanned
//@ rewrite paths of the crate :: laps::span::Span ==> Span
//@ rewrite paths of the crate :: std::option::Option::Some($x) ==> Some($x)
//@ rewrite paths of the crate :: std::option::Option::None ==> None

//@ include spanfns.inc.rs

//@ item src/span.rs trait Spanned
//@ ghost
  spec fn sp(&self) -> Span;
  spec fn wf(&self) -> bool;
//@ fn span
    requires self.wf(),
    ensures r == self.sp(),
//@ end
//@ item src/span.rs trait TrySpan
//@ ghost
  spec fn try_sp(&self) -> Option<Span>;
//@ fn try_span
    ensures r == self.try_sp(),
//@ end

/// The first span at or behind i, the last one before i.
pub open spec fn first_from(s: Seq<Option<Span>>, i: int) -> Option<Span>
  decreases s.len() - i,
{
  if i >= s.len() { None } else if s[i] is Some { s[i] } else { first_from(s, i + 1) }
}
pub open spec fn last_to(s: Seq<Option<Span>>, i: int) -> Option<Span>
  decreases i,
{
  if i <= 0 { None } else if s[i - 1] is Some { s[i - 1] } else { last_to(s, i - 1) }
}
/// From the first field that has a span to the last one.
pub open spec fn across(s: Seq<Option<Span>>) -> Span { joined(first_from(s, 0)->0, last_to(s, s.len() as int)->0) }

macro_rules! field { ($t:ident, $f:ident) => { verus! {
#[verifier::external_body]
pub struct $t { _p: u8 }
pub uninterp spec fn $f(x: $t) -> Span;
impl Spanned for $t {
  open spec fn sp(&self) -> Span { $f(*self) }
  open spec fn wf(&self) -> bool { true }
  #[verifier::external_body]
  fn span(&self) -> (r: Span) { unimplemented!() }
}
} } }
field!(F1, f1_span);
field!(F2, f2_span);
macro_rules! maybe_field { ($t:ident, $f:ident) => { verus! {
#[verifier::external_body]
pub struct $t { _p: u8 }
pub uninterp spec fn $f(x: $t) -> Option<Span>;
impl TrySpan for $t {
  open spec fn try_sp(&self) -> Option<Span> { $f(*self) }
  #[verifier::external_body]
  fn try_span(&self) -> (r: Option<Span>) { unimplemented!() }
}
} } }
maybe_field!(O1, o1_span);
maybe_field!(O2, o2_span);

//@ include gspan.inc.rs
}
fn main() {}
