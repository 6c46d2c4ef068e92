use vstd::prelude::*;
verus! {
//@ assume the declaration of /verif/gen/src/t.rs stands for all declarations (patterns with and without prompt, guard, alternatives)
//@ assume derived Clone and PartialEq of the token kind are structural
//@ assume TryInto of the standard library is TryFrom::try_from; conversions have the shape of the unit's trait TryFrom_
//@ rewrite paths of the crate :: laps::parse::Parse ==> Parse
//@ rewrite paths of the crate :: laps::token::TokenStream ==> TokenStream
//@ rewrite paths of the crate :: laps::token::Token ==> Token
//@ rewrite paths of the crate :: laps::span::Result ==> Result
//@ rewrite paths of the crate :: laps::span::Spanned ==> Spanned
//@ rewrite paths of the crate :: laps::span::Span ==> Span
//@ rewrite paths of the crate :: std::result::Result::Ok ==> Ok
//@ rewrite conversions of the unit in place of those of the standard library :: std::convert::TryFrom ==> TryFrom_
//@ rewrite conversions of the unit in place of those of the standard library :: $s_x.try_into().unwrap() ==> T::try_from_($s_x).unwrap()
//@ rewrite visibility :: pub(in crate) ==> pub
//@ rewrite constructor as a function written as a match :: $x.map(Self) ==> match $x { Ok(k_) => Ok(Self(k_)), Err(e) => Err(e) }
//@ rewrite log_error to a trusted function that returns Error::Normal :: return token.span.log_error($x).into(), ==> return Err(log_error_(token.span)),
//@ include token.inc.rs
#[verifier::external_body]
pub struct Span { _p: u8 }
impl Clone for Span {
  #[verifier::external_body]
  fn clone(&self) -> (r: Span) ensures r == *self { unimplemented!() }
}
pub trait Spanned {
  spec fn at(&self) -> Span;
  fn span(&self) -> (r: Span) ensures r == self.at();
}


//@ item gen mod t >> enum Op
//@ end
//@ item gen mod t >> enum Kind
//@ end
impl Clone for Kind {
  #[verifier::external_body]
  fn clone(&self) -> (r: Kind) ensures r == *self { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Kind {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, other: &Kind) -> bool { *self == *other }
}
impl PartialEq for Kind {
  #[verifier::external_body]
  fn eq(&self, other: &Kind) -> bool { unimplemented!() }
}
pub trait TryFrom_<T>: Sized {
  type Error;
  spec fn tried(v: T) -> core::result::Result<Self, Self::Error>;
  fn try_from_(v: T) -> (r: core::result::Result<Self, Self::Error>) ensures r == Self::tried(v);
}
#[verifier::external_body]
fn unreached_<T>() -> T requires false { unimplemented!() }
pub trait AsRef_<K> {
  spec fn the_ref(&self) -> K;
  fn as_ref(&self) -> (r: &K) ensures *r == self.the_ref();
}

//@ item src/token.rs struct Token
//@ end
impl<K: Clone> Clone for Token<K> {
  #[verifier::external_body]
  fn clone(&self) -> (r: Token<K>) ensures r == *self { unimplemented!() }
}
//@ item src/token.rs impl AsRef for Token props=C23
//@ header impl<Kind> AsRef_<Kind> for Token<Kind>
//@ ghost
  open spec fn the_ref(&self) -> Kind { self.kind }
//@ fn as_ref
//@ end
//@ item src/token.rs impl Spanned for Token props=C23
//@ ghost
  open spec fn at(&self) -> Span { self.span }
//@ fn span
//@ end
impl<Kind: PartialEq> vstd::std_specs::cmp::PartialEqSpecImpl<Kind> for Token<Kind> {
  open spec fn obeys_eq_spec() -> bool { <Kind as vstd::std_specs::cmp::PartialEqSpec<Kind>>::obeys_eq_spec() }
  open spec fn eq_spec(&self, other: &Kind) -> bool { vstd::std_specs::cmp::PartialEqSpec::<Kind>::eq_spec(&self.kind, other) }
}
//@ item src/token.rs impl PartialEq for Token#0 props=C23
//@ fn eq
//@ end
pub uninterp spec fn is_odd(w: u32) -> bool;
#[verifier::external_body]
pub fn odd(w: &u32) -> (r: bool) ensures r == is_odd(*w) { unimplemented!() }

//@ include gtoken.inc.rs
}
fn main() {}
