/// Start and source of a, end of b.
pub open spec fn joined(a: Span, b: Span) -> Span { Span { status: a.status, start: a.start, end: b.end } }
//@ item src/span.rs impl Span
//@ drop log_summary log_raw_error log_raw_fatal_error log_raw_warning log_error log_fatal_error log_warning error_num warning_num print_file_info print_single_line_info print_multi_line_info
//@ fn new
    ensures r.start == (Location { line: 1, col: 0 }), r.end == r.start, r.status.v.file_type == file_type,
//@ fn file_type
    ensures *r == self.status.v.file_type,
//@ fn start
    ensures r == self.start,
//@ fn end
    ensures r == self.end,
//@ fn update
    requires room(old(self).start),
    ensures final(self).status == old(self).status, final(self).start == step(old(self).start, c.is_lf()), final(self).end == final(self).start,
//@ fn into_updated
    requires room(self.start),
    ensures r.status == self.status, r.start == step(self.start, c.is_lf()), r.end == r.start,
//@ fn update_loc
    ensures final(self).status == old(self).status, final(self).start == loc, final(self).end == loc,
//@ fn update_end
    ensures final(self).status == old(self).status, final(self).start == old(self).start, final(self).end == span.the().end,
//@ fn into_end_updated
    ensures r == joined(self, span.the()),
//@ fn is_in_same_line_as
    ensures r == (self.end.line == span.the().start.line),
//@ end
//@ item src/span.rs impl AsRef for Span
//@ header impl AsSpan for Span
//@ ghost
  open spec fn the(&self) -> Span { *self }
//@ fn as_ref
//@ end
