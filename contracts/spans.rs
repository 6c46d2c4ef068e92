use vstd::prelude::*;
verus! {
//@ include fmt.inc.rs
//@ item src/span.rs enum Error
//@ end
pub enum Color { BrightRed, Yellow, Blue, Red, Green, BrightYellow }
//@ include span.inc.rs
impl Span { 
  #[verifier::external_body]
  fn print_file_info(&self, _c: Color) { unimplemented!() }
}
/// Only the counters moved: by e errors and w warnings of this thread.
pub open spec fn counted(a: Span, b: Span, e: int, w: int) -> bool {
  &&& b.start == a.start && b.end == a.end && b.status.id == a.status.id && b.status.v.file_type == a.status.v.file_type
  &&& b.status.v.errors.added() == a.status.v.errors.added() + e
  &&& b.status.v.warnings.added() == a.status.v.warnings.added() + w
}
//@ assume print_file_info has no effect on the span (it takes &self and prints); its printing is checked bounded (C29)
//@ assume each report's atomic addition is indivisible, so that additions of several threads add up (std::sync::atomic)

//@ item src/span.rs impl Span props=C27
//@ drop log_summary print_file_info print_single_line_info print_multi_line_info
//@ fn new props=C27,C28
    ensures r.start.line == 1, r.start.col == 0, r.end.line == 1, r.end.col == 0, r.status.v.file_type == file_type,
      r.status.v.errors.fresh(), r.status.v.warnings.fresh(),
//@ fn log_raw_error props=C28
    ensures counted(*old(self), *final(self), 1, 0), r == Error::Normal,
//@ fn log_raw_fatal_error props=C28
    ensures counted(*old(self), *final(self), 1, 0), r == Error::Fatal,
//@ fn log_raw_warning props=C28
    ensures counted(*old(self), *final(self), 0, 1),
//@ fn log_error props=C28
    ensures counted(*old(self), *final(self), 1, 0), r == Error::Normal,
//@ fn log_fatal_error props=C28
    ensures counted(*old(self), *final(self), 1, 0), r == Error::Fatal,
//@ fn log_warning props=C28
    ensures counted(*old(self), *final(self), 0, 1),
//@ fn file_type
    ensures *r == self.status.v.file_type,
//@ fn error_num props=C28
    ensures loaded(self.status.v.errors, r),
//@ fn warning_num props=C28
    ensures loaded(self.status.v.warnings, r),
//@ fn start
    ensures r == self.start,
//@ fn end
    ensures r == self.end,
//@ fn update
    requires room(old(self).start),
    ensures final(self).status == old(self).status, final(self).start == step(old(self).start, c.is_lf()), final(self).end == final(self).start,
//@ fn into_updated
    requires room(self.start),
    ensures r.status == self.status, r.start == step(self.start, c.is_lf()), r.end == r.start,
//@ fn update_loc
    ensures final(self).status == old(self).status, final(self).start == loc, final(self).end == loc,
//@ fn update_end
    ensures final(self).status == old(self).status, final(self).start == old(self).start, final(self).end == span.the().end,
//@ fn into_end_updated
    ensures r == joined(self, span.the()),
//@ fn is_in_same_line_as
    ensures r == (self.end.line == span.the().start.line),
//@ end
/// Start and source of a, end of b.
pub open spec fn joined(a: Span, b: Span) -> Span { Span { status: a.status, start: a.start, end: b.end } }

//@ item src/span.rs impl Error props=C28
//@ fn is_fatal
    ensures r == (*self == Error::Fatal),
//@ end
//@ item src/span.rs impl fmt::Display for Location props=C27
//@ ghost
  open spec fn text(&self) -> Seq<char> { fmt::dec(self.line as int) + ":"@ + fmt::dec(self.col as int) }
//@ fn fmt
//@ end
//@ item src/span.rs impl fmt::Display for Span props=C27
//@ ghost
  open spec fn text(&self) -> Seq<char> { self.start.text() + "-"@ + self.end.text() }
//@ fn fmt
//@ end
//@ item src/span.rs impl PartialEq for Span props=C27
//@ header impl Span
//@ fn eq
    ensures r == (self.status.id@ == other.status.id@ && self.start == other.start && self.end == other.end),
//@ end
//@ item src/span.rs impl AsRef for Span props=C27
//@ header impl AsSpan for Span
//@ ghost
  open spec fn the(&self) -> Span { *self }
//@ fn as_ref
//@ end
}
fn main() {}
