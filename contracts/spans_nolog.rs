use vstd::prelude::*;
verus! {
//@ features macros
//@ include fmt.inc.rs
use fmt::Display as DisplayText;
impl Formatter {
  #[verifier::external_body]
  pub fn done(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
//@ item src/span.rs enum Error
//@ end
//@ include span.inc.rs
#[verifier::external_body]
pub fn sure_lit_(f: &mut Formatter, s: &str) ensures final(f)@ == old(f)@ + s@ { unimplemented!() }
#[verifier::external_body]
pub fn sure_show_<T: fmt::Display>(x: &T, f: &mut Formatter) ensures final(f)@ == old(f)@ + x.text() { unimplemented!() }
impl Arguments { pub uninterp spec fn printed(&self) -> Seq<char>; }
impl fmt::Display for Arguments {
  open spec fn text(&self) -> Seq<char> { self.printed() }
  #[verifier::external_body]
  fn fmt(&self, f: &mut Formatter) -> (r: fmt::Result) { unimplemented!() }
}
//@ assume formatting into a string does not fail
/// Only the counters moved: by e errors and w warnings of this thread.
pub open spec fn counted(a: Span, b: Span, e: int, w: int) -> bool {
  &&& b.start == a.start && b.end == a.end && b.status.id == a.status.id && b.status.v.file_type == a.status.v.file_type
  &&& b.status.v.errors.added() == a.status.v.errors.added() + e
  &&& b.status.v.warnings.added() == a.status.v.warnings.added() + w
}
/// The message with the source and the start location before it.
pub open spec fn located(s: Span, a: Arguments) -> Seq<char> { s.status.v.file_type.text() + ":"@ + s.start.text() + ": "@ + a.printed() }

//@ item src/span.rs impl fmt::Display for Location props=C28
//@ ghost
  open spec fn text(&self) -> Seq<char> { fmt::dec(self.line as int) + ":"@ + fmt::dec(self.col as int) }
//@ fn fmt
//@ end
//@ item src/span.rs impl Span props=C28
//@ drop log_summary new file_type start end update into_updated update_loc update_end into_end_updated is_in_same_line_as
//@ fn log_raw_error
    ensures counted(*old(self), *final(self), 1, 0), r is Normal, r->Normal_0@ == args.printed(),
//@ fn log_raw_fatal_error
    ensures counted(*old(self), *final(self), 1, 0), r is Fatal, r->Fatal_0@ == args.printed(),
//@ fn log_raw_warning
    ensures counted(*old(self), *final(self), 0, 1),
//@ fn error_num
    ensures loaded(self.status.v.errors, r),
//@ fn warning_num
    ensures loaded(self.status.v.warnings, r),
//@ fn log_error
    ensures counted(*old(self), *final(self), 1, 0), r is Normal, r->Normal_0@ == located(*old(self), args),
//@ fn log_fatal_error
    ensures counted(*old(self), *final(self), 1, 0), r is Fatal, r->Fatal_0@ == located(*old(self), args),
//@ fn log_warning
    ensures counted(*old(self), *final(self), 0, 1),
//@ fn error_message
    ensures r@ == located(*old(self), args), *final(self) == *old(self),
//@ end
//@ item src/span.rs impl Error
//@ fn is_fatal
    ensures r == (*self is Fatal),
//@ end
}
fn main() {}
