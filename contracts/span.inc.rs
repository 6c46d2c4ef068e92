//@ assume derived Clone of Span and Location yields an equal value
//@ rewrite the shared status as a trusted handle with an identity :: self.status.$i_f ==> self.status.v.$i_f
//@ rewrite reports are extracted with a mutable receiver (the counters are atomics: what this thread adds is tracked) :: &self, args: Arguments ==> &mut self, args: Arguments
//@ rewrite reports are extracted with a mutable receiver (the counters are atomics: what this thread adds is tracked) :: &self, _: Arguments ==> &mut self, _args: Arguments
//@ rewrite printing to stderr dropped :: eprintln!($a); ==>
//@ rewrite formatting trait of the unit :: impl fmt::Display for $i_t ==> impl fmt::Display for $i_t
//@ rewrite formatting trait of the unit :: &mut fmt::Formatter ==> &mut Formatter
//@ rewrite AsRef<Span> as a trait with a contract :: AsRef<Self> ==> AsSpan

#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct Arguments { _p: u8 }
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
/// A counter shared with other threads: only what is added through this handle is known.
#[verifier::external_body]
pub struct AtomicUsize { _p: u8 }
pub uninterp spec fn loaded(a: AtomicUsize, v: usize) -> bool;
impl AtomicUsize {
  pub uninterp spec fn added(self) -> int;
  #[verifier::external_body]
  pub fn new(v: usize) -> (r: Self) ensures r.added() == 0, v == 0 ==> r.fresh() { unimplemented!() }
  pub uninterp spec fn fresh(self) -> bool;
  #[verifier::external_body]
  pub fn fetch_add(&mut self, n: usize, o: Ordering) -> (r: usize) ensures final(self).added() == old(self).added() + n { unimplemented!() }
  #[verifier::external_body]
  pub fn fetch_sub(&mut self, n: usize, o: Ordering) -> (r: usize) ensures final(self).added() == old(self).added() - n { unimplemented!() }
  #[verifier::external_body]
  pub fn load(&self, o: Ordering) -> (r: usize) ensures loaded(*self, r) { unimplemented!() }
  /// Storing throws away what other threads added: nothing is known afterwards.
  #[verifier::external_body]
  pub fn store(&mut self, v: usize, o: Ordering) { unimplemented!() }
}
/// A shared object; equal identities are the same object.
pub struct Arc<T> { pub id: Ghost<int>, pub v: T }
impl<T> Arc<T> {
  #[verifier::external_body]
  pub fn new(v: T) -> (r: Self) ensures r.v == v { unimplemented!() }
  #[verifier::external_body]
  pub fn ptr_eq(a: &Self, b: &Self) -> (r: bool) ensures r == (a.id@ == b.id@) { unimplemented!() }
}
#[verifier::external_body]
pub struct FileType { _p: u8 }
impl FileType { pub uninterp spec fn name(&self) -> Seq<char>; }
impl fmt::Display for FileType {
  open spec fn text(&self) -> Seq<char> { self.name() }
  #[verifier::external_body]
  fn fmt(&self, f: &mut Formatter) -> (r: fmt::Result) { unimplemented!() }
}
//@ item src/span.rs struct LoggerStatus
//@ end
//@ item src/span.rs struct Location derive=Clone+Copy+PartialEq+Eq+Structural
//@ end
//@ item src/span.rs struct Span
//@ end
impl Clone for Span {
  #[verifier::external_body]
  fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub trait AsSpan {
  spec fn the(&self) -> Span;
  fn as_ref(&self) -> (r: &Span) ensures *r == self.the();
}
impl AsSpan for &Span {
  open spec fn the(&self) -> Span { **self }
  fn as_ref(&self) -> (r: &Span) { *self }
}

pub mod steps {
use super::*;
/// One more symbol: a line feed starts a line, anything else is a column.
pub open spec fn step(l: Location, lf: bool) -> Location {
  if lf { Location { line: (l.line + 1) as u32, col: 0 } } else { Location { line: l.line, col: (l.col + 1) as u32 } }
}
/// Line and column numbers stay within u32.
pub open spec fn room(l: Location) -> bool { l.line < u32::MAX && l.col < u32::MAX }
}
pub use steps::*;

//@ item src/span.rs trait LocationUpdate props=C11,C27
//@ ghost
  spec fn is_lf(&self) -> bool;
//@ fn update
    requires room(*old(loc)),
    ensures *final(loc) == step(*old(loc), self.is_lf()),
//@ end
//@ item src/span.rs impl LocationUpdate for char props=C11,C27
//@ ghost
  open spec fn is_lf(&self) -> bool { *self == '\n' }
//@ fn update
//@ end
//@ item src/span.rs impl LocationUpdate for u8 props=C11,C27
//@ ghost
  open spec fn is_lf(&self) -> bool { *self == 10u8 }
//@ fn update
//@ end
//@ item src/span.rs impl Location props=C11,C27
//@ fn new
    ensures r.line == 1, r.col == 0,
//@ fn update
    requires room(*old(self)),
    ensures *final(self) == step(*old(self), c.is_lf()),
//@ end
