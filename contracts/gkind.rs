use vstd::prelude::*;
verus! {
//@ include fmt.inc.rs
//@ assume the declaration of /verif/gen/src/k.rs stands for all declarations (variants with and without documentation, every field shape, raw names, braces in documentation)
//@ rewrite conversions of the unit in place of those of the standard library :: std::convert::From ==> From_
//@ rewrite conversions of the unit in place of those of the standard library :: std::convert::TryFrom ==> TryFrom_
//@ rewrite paths of the standard library :: std::result::Result ==> core::result::Result
//@ rewrite formatting trait of the unit :: std::fmt::Display ==> fmt::Display
//@ rewrite formatting trait of the unit :: &mut std::fmt::Formatter ==> &mut Formatter
//@ rewrite formatting trait of the unit :: std::fmt::Result ==> fmt::Result
//@ rewrite write! as rustc prints it :: $i_f.write_fmt(format_args!($x)) ==> write!($i_f, $x)

impl<T: fmt::Display> fmt::Display for &T {
  open spec fn text(&self) -> Seq<char> { (**self).text() }
  fn fmt(&self, f: &mut Formatter) -> (r: fmt::Result) { (**self).fmt(f) }
}
pub trait From_<T>: Sized {
  spec fn from_ok(v: T, r: Self) -> bool;
  fn from(v: T) -> (r: Self) ensures Self::from_ok(v, r);
}
pub trait TryFrom_<T>: Sized {
  type Error;
  spec fn try_ok(v: T, r: core::result::Result<Self, ()>) -> bool;
  fn try_from(v: T) -> (r: core::result::Result<Self, Self::Error>)
    ensures Self::try_ok(v, match r { Ok(x) => core::result::Result::<Self, ()>::Ok(x), Err(_) => core::result::Result::<Self, ()>::Err(()) });
}
macro_rules! value { ($t:ident, $f:ident) => { verus! {
#[verifier::external_body]
pub struct $t { _p: u8 }
pub uninterp spec fn $f(x: $t) -> Seq<char>;
impl fmt::Display for $t {
  open spec fn text(&self) -> Seq<char> { $f(*self) }
  #[verifier::external_body]
  fn fmt(&self, f: &mut Formatter) -> (r: fmt::Result) { unimplemented!() }
}
} } }
value!(V1, v1_text);
value!(V2, v2_text);
value!(V3, v3_text);
value!(V4, v4_text);
value!(V5, v5_text);
value!(V6, v6_text);
value!(V7, v7_text);
value!(V8, v8_text);
value!(V9, v9_text);

//@ include gkind.inc.rs
}
fn main() {}
