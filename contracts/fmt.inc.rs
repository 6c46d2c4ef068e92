//@ assume the formatter appends what it is given (core::fmt); numbers and strings print as their decimal or literal text
pub mod fmt {
  use super::*;
  pub struct Error;
  pub type Result = core::result::Result<(), Error>;
  #[verifier::external_body]
  pub struct Formatter { _p: u8 }
  impl Formatter {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new() -> (r: Formatter) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result) ensures r is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() }
  }
  pub uninterp spec fn dec(n: int) -> Seq<char>;
  pub trait Display {
    spec fn text(&self) -> Seq<char>;
    fn fmt(&self, f: &mut Formatter) -> (r: Result) ensures r is Ok ==> final(f)@ == old(f)@ + self.text();
  }
  impl Display for u32 {
    open spec fn text(&self) -> Seq<char> { dec(*self as int) }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> (r: Result) { unimplemented!() }
  }
}
pub use fmt::Formatter;
pub fn lit_(f: &mut Formatter, s: &str) -> (r: fmt::Result) ensures r is Ok ==> final(f)@ == old(f)@ + s@ { f.write_str(s) }
pub fn show_<T: fmt::Display>(x: &T, f: &mut Formatter) -> (r: fmt::Result) ensures r is Ok ==> final(f)@ == old(f)@ + x.text() { x.fmt(f) }
