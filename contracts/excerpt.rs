use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering as CmpOrdering;
verus! {
//@ assume usize has 64 bits
global size_of usize == 8;
//@ printing
//@ assume a format string appends its literal parts and its arguments' texts, padded where it says so, in order (core::fmt); printing to stderr appends to what the process has printed
//@ assume colours (the colored crate) only wrap a text in escape sequences: they are left out of the text
//@ assume unicode-width gives a character at most two cells
//@ assume the lines of a file end once: after the last one there is none (std::io::Lines)
//@ rewrite printing to stderr as appending to a parameter :: eprintln! ==> say_line!
//@ rewrite printing to stderr as appending to a parameter :: eprint! ==> say!
//@ rewrite printing to stderr as appending to a parameter :: color: Color ==> color: Color, out_: &mut Paper
//@ rewrite printing to stderr as appending to a parameter :: args: Arguments ==> args: Arguments, out_: &mut Paper
//@ rewrite printing to stderr as appending to a parameter :: fn log_summary(&self) ==> fn log_summary(&self, out_: &mut Paper)
//@ rewrite printing to stderr as appending to a parameter :: self.log_raw_error(args) ==> self.log_raw_error(args, out_)
//@ rewrite printing to stderr as appending to a parameter :: self.log_raw_warning(args) ==> self.log_raw_warning(args, out_)
//@ rewrite printing to stderr as appending to a parameter :: self.print_file_info($e) ==> self.print_file_info($e, out_)
//@ rewrite printing to stderr as appending to a parameter :: self.print_single_line_info(&mut lines, color) ==> self.print_single_line_info(&mut lines, color, out_)
//@ rewrite printing to stderr as appending to a parameter :: self.print_multi_line_info(&mut lines, color) ==> self.print_multi_line_info(&mut lines, color, out_)
//@ rewrite colours left out :: .blue() ==>
//@ rewrite colours left out :: .bold() ==>
//@ rewrite colours left out :: .yellow() ==>
//@ rewrite colours left out :: .bright_red() ==>
//@ rewrite colours left out :: .color(color) ==>
//@ rewrite strings as texts :: String::new() ==> Paper::new_()
//@ rewrite strings as texts :: msg += $e; ==> let _ = write!(msg, $e);
//@ rewrite strings as texts :: " ".repeat($e) ==> repeat_(' ', $e)
//@ rewrite strings as texts :: "^".repeat($e) ==> repeat_('^', $e)
//@ rewrite strings as texts :: "_".repeat($e) ==> repeat_('_', $e)
//@ rewrite the length of a number's text :: .to_string().len() ==> .digits_()
//@ rewrite iterator of lines as a trait with a contract :: Iterator<Item = IoResult<String>> ==> Reads_
//@ rewrite a missing line is empty, an unreadable one is an error :: .map_or_else(|| Ok("".into()), |r| r.map_err(|_| fmt::Error)) ==> .line_()
//@ rewrite and_then of an option to match :: line_num.checked_sub(1).and_then(|n| $e) ==> (match line_num.checked_sub(1) { Some(n) => $e, None => None })
//@ rewrite and_then of a result to match :: File::open(path).map_err(|_| fmt::Error).and_then(|file| $b); ==> match File::open(path) { Ok(file) => $b, Err(_) => Err(fmt::Error) };
//@ rewrite characters mapped to numbers as a cursor with a contract :: .chars().take($e).map(|c| $b).sum() ==> .cells_(|c: char| -> (o: usize) ensures o == cell(c) { $b }).sum_($e)
//@ rewrite characters mapped to numbers as a cursor with a contract :: .chars().map(|c| $b) ==> .cells_(|c: char| -> (o: usize) ensures o == cell(c) { $b })
//@ rewrite width of a character as a trusted function :: c.width() ==> width_(c)
//@ rewrite std::cmp::max with a contract :: std::cmp::max ==> max_
//@ inline src/span.rs get_line_str

// ---------------------------------------------------------------- texts

/// The decimal digits of a number.
pub open spec fn digit(n: nat) -> char { if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' } else if n == 5 { '5' } else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else { '9' } }
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) } }
pub open spec fn fill(c: char, n: nat) -> Seq<char> { Seq::new(n, |i: int| c) }
/// At least w wide, filled up at the left or at the right.
pub open spec fn padded(s: Seq<char>, w: nat, c: char, left: bool) -> Seq<char> {
  if s.len() >= w { s } else if left { fill(c, (w - s.len()) as nat) + s } else { s + fill(c, (w - s.len()) as nat) }
}
pub mod fmt {
  use super::*;
  pub struct Error;
  pub type Result = core::result::Result<(), Error>;
  pub type Formatter = Paper;
  pub trait Display {
    spec fn text(&self) -> Seq<char>;
    /// Numbers go to the right of their field, texts to the left.
    spec fn number(&self) -> bool;
    fn fmt(&self, f: &mut Paper) -> (r: Result) ensures r is Ok ==> final(f)@ =~= old(f)@ + self.text();
  }
  impl Display for u32 { open spec fn text(&self) -> Seq<char> { dec(*self as nat) } open spec fn number(&self) -> bool { true } #[verifier::external_body] fn fmt(&self, f: &mut Paper) -> (r: Result) { unimplemented!() } }
  impl Display for usize { open spec fn text(&self) -> Seq<char> { dec(*self as nat) } open spec fn number(&self) -> bool { true } #[verifier::external_body] fn fmt(&self, f: &mut Paper) -> (r: Result) { unimplemented!() } }
  impl Display for &str { open spec fn text(&self) -> Seq<char> { self@ } open spec fn number(&self) -> bool { false } #[verifier::external_body] fn fmt(&self, f: &mut Paper) -> (r: Result) { unimplemented!() } }
  impl Display for Paper { open spec fn text(&self) -> Seq<char> { self@ } open spec fn number(&self) -> bool { false } #[verifier::external_body] fn fmt(&self, f: &mut Paper) -> (r: Result) { unimplemented!() } }
  impl<T: Display> Display for &T { open spec fn text(&self) -> Seq<char> { (**self).text() } open spec fn number(&self) -> bool { (**self).number() } #[verifier::external_body] fn fmt(&self, f: &mut Paper) -> (r: Result) { unimplemented!() } }
}
use fmt::Display;
/// A text: a string, or what is printed.
#[verifier::external_body]
pub struct Paper { _p: u8 }
impl Paper {
  pub uninterp spec fn view(&self) -> Seq<char>;
  #[verifier::external_body]
  pub fn new_() -> (r: Self) ensures r@ == Seq::<char>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn put_(&mut self, c: char) ensures final(self)@ == old(self)@.push(c), old(self)@.len() == 0 ==> final(self)@ == seq![c] { unimplemented!() }
  #[verifier::external_body]
  pub fn write_str(&mut self, s: &str) -> (r: fmt::Result) ensures r is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() }
  #[verifier::external_body]
  pub fn show_<T: fmt::Display>(&mut self, x: &T) ensures final(self)@ == old(self)@ + x.text(), old(self)@.len() == 0 ==> final(self)@ == x.text() { unimplemented!() }
  /// Panics when the width does not fit in 16 bits.
  #[verifier::external_body]
  pub fn pad_<T: fmt::Display>(&mut self, x: &T, w: usize, c: char, a: u8)
    requires w <= u16::MAX
    ensures a != 2 ==> ({
      let p = padded(x.text(), w as nat, c, a == 1 || (a == 3 && x.number()));
      final(self)@ == old(self)@ + p && (old(self)@.len() == 0 ==> final(self)@ == p)
    })
  { unimplemented!() }
  /// Nothing, in a field of this width.
  #[verifier::external_body]
  pub fn fill_(&mut self, w: usize, c: char)
    requires w <= u16::MAX
    ensures final(self)@ == old(self)@ + fill(c, w as nat), old(self)@.len() == 0 ==> final(self)@ == fill(c, w as nat)
  { unimplemented!() }
  #[verifier::external_body]
  pub fn replace(&self, c: char, by: &Paper) -> (r: Paper) ensures r@ == replaced(self@, c, by@) { unimplemented!() }
  #[verifier::external_body]
  pub fn chars_(&self) -> (r: Chars_) ensures r.s() == self@, r.pos() == 0 { unimplemented!() }
  pub fn cells_<F: Fn(char) -> usize>(&self, f: F) -> (r: Cells_<F>)
    requires forall|c: char| f.requires((c,)),
    ensures r.it.s() == self@, r.it.pos() == 0, r.f == f,
  { Cells_ { f, it: self.chars_() } }
}
/// Panics when the text does not fit in memory.
#[verifier::external_body]
pub fn repeat_(c: char, n: usize) -> (r: Paper) requires n <= u32::MAX * 4 ensures r@ == fill(c, n as nat) { unimplemented!() }
pub open spec fn replaced(s: Seq<char>, c: char, by: Seq<char>) -> Seq<char> decreases s.len() {
  if s.len() == 0 { s } else { replaced(s.drop_last(), c, by) + if s.last() == c { by } else { seq![s.last()] } }
}

/// The characters of a text, one after the other.
#[verifier::external_body]
pub struct Chars_ { _p: u8 }
impl Chars_ {
  pub uninterp spec fn s(&self) -> Seq<char>;
  pub uninterp spec fn pos(&self) -> nat;
  #[verifier::external_body]
  pub fn next(&mut self) -> (r: Option<char>)
    ensures final(self).s() == old(self).s(),
      old(self).pos() < old(self).s().len() ==> r == Some(old(self).s()[old(self).pos() as int]) && final(self).pos() == old(self).pos() + 1,
      old(self).pos() >= old(self).s().len() ==> r is None && final(self).pos() == old(self).pos(),
  { unimplemented!() }
}
/// The characters of a text mapped to numbers.
pub struct Cells_<F> { pub f: F, pub it: Chars_ }
impl<F: Fn(char) -> usize> Cells_<F> {
  pub fn next(&mut self) -> (r: Option<usize>)
    requires forall|c: char| old(self).f.requires((c,)),
    ensures final(self).it.s() == old(self).it.s(), final(self).f == old(self).f,
      old(self).it.pos() < old(self).it.s().len() ==> r is Some && old(self).f.ensures((old(self).it.s()[old(self).it.pos() as int],), r->0) && final(self).it.pos() == old(self).it.pos() + 1,
      old(self).it.pos() >= old(self).it.s().len() ==> r is None && final(self).it.pos() == old(self).it.pos(),
  { match self.it.next() { Some(c) => Some((self.f)(c)), None => None } }
  /// `take(n)` and `sum()`.
  fn sum_(self, n: usize) -> (r: usize)
    requires forall|c: char| self.f.requires((c,)), forall|c: char, o: usize| self.f.ensures((c,), o) ==> o == cell(c), n <= u32::MAX, self.it.pos() == 0,
    ensures r == cells(self.it.s(), n as nat), r <= 2 * n,
  {
    let ghost s = self.it.s();
    let mut me = self;
    let mut k: usize = 0;
    let mut c: usize = 0;
    while k < n
      invariant_except_break me.it.pos() == k, k <= s.len(),
      invariant k <= n, n <= u32::MAX, c == cells(s, k as nat), c <= 2 * k, me.it.s() == s,
        forall|c: char| me.f.requires((c,)), forall|c: char, o: usize| me.f.ensures((c,), o) ==> o == cell(c),
      ensures c == cells(s, n as nat),
      decreases n - k
    {
      proof { cells_step(s, k as nat); }
      match me.next() { Some(x) => { c += x; k += 1; } None => { proof { cells_end(s, k as nat, n as nat); } break; } }
    }
    proof { cells_step(s, n as nat); }
    c
  }
}
pub uninterp spec fn width_of(c: char) -> Option<usize>;
#[verifier::external_body]
pub fn width_(c: char) -> (r: Option<usize>) ensures r == width_of(c), r is Some ==> r->0 <= 2 { unimplemented!() }
pub fn max_(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub trait Digits_ { spec fn num(&self) -> nat; fn digits_(&self) -> (r: usize) ensures r == dec(self.num()).len(), 1 <= r <= 20; }
impl Digits_ for usize { open spec fn num(&self) -> nat { *self as nat }
  #[verifier::external_body] fn digits_(&self) -> (r: usize) { unimplemented!() } }
impl Digits_ for u32 { open spec fn num(&self) -> nat { *self as nat }
  #[verifier::external_body] fn digits_(&self) -> (r: usize) { unimplemented!() } }

// ---------------------------------------------------------------- cells

/// How many blanks stand for a tab.
pub closed spec fn tab() -> nat { Span::TAB_WIDTH as nat }
/// How many cells of the terminal a character takes.
pub open spec fn cell(c: char) -> nat {
  if c == '\t' { tab() } else { match width_of(c) { Some(n) => if n <= 2 { n as nat } else { 2 }, None => 0 } }
}
/// The cells of the first n characters, or of all when there are fewer.
pub open spec fn cells(s: Seq<char>, n: nat) -> nat decreases n {
  if n == 0 { 0 } else { cells(s, (n - 1) as nat) + if n <= s.len() { cell(s[n - 1]) } else { 0 } }
}
pub proof fn cells_step(s: Seq<char>, k: nat)
  ensures cells(s, k + 1) == cells(s, k) + if k < s.len() { cell(s[k as int]) } else { 0 }, cells(s, k) <= 2 * k
  decreases k
{ if k > 0 { cells_step(s, (k - 1) as nat); } }
pub proof fn cells_end(s: Seq<char>, k: nat, n: nat)
  requires s.len() <= k <= n
  ensures cells(s, k) == cells(s, n)
  decreases n
{ if k < n { cells_end(s, k, (n - 1) as nat); } }
/// Tabs shown as blanks.
pub open spec fn shown(s: Seq<char>) -> Seq<char> { replaced(s, '\t', fill(' ', tab())) }

// ---------------------------------------------------------------- files

pub struct IoError;
pub type IoResult<T> = core::result::Result<T, IoError>;
pub type Item_ = Option<Option<Seq<char>>>;
pub open spec fn item(r: Option<IoResult<Paper>>) -> Item_ {
  match r { None => None, Some(Ok(s)) => Some(Some(s@)), Some(Err(_)) => Some(None) }
}
/// What stands for a line: empty when there is none, nothing when it cannot be read.
pub open spec fn line_text(i: Item_) -> Option<Seq<char>> { match i { None => Some(Seq::empty()), Some(x) => x } }
pub trait Line_ where Self: Sized {
  spec fn it(self) -> Item_;
  fn line_(self) -> (r: core::result::Result<Paper, fmt::Error>)
    ensures match line_text(self.it()) { Some(s) => r is Ok && r->Ok_0@ == s, None => r is Err };
}
impl Line_ for Option<IoResult<Paper>> {
  open spec fn it(self) -> Item_ { item(self) }
  fn line_(self) -> (r: core::result::Result<Paper, fmt::Error>) {
    match self { None => { let p = Paper::new_(); Ok(p) } Some(Ok(s)) => Ok(s), Some(Err(_)) => Err(fmt::Error) }
  }
}
/// The lines still to come, the first being the 0th.
pub trait Reads_ {
  spec fn at(&self, i: nat) -> Item_;
  fn next(&mut self) -> (r: Option<IoResult<Paper>>)
    ensures item(r) == old(self).at(0), forall|i: nat| #[trigger] final(self).at(i) == old(self).at(i + 1);
  fn nth(&mut self, n: usize) -> (r: Option<IoResult<Paper>>)
    ensures item(r) == old(self).at(n as nat), forall|i: nat| #[trigger] final(self).at(i) == old(self).at((n + 1 + i) as nat);
}

#[verifier::external_body]
pub struct Path { _p: u8 }
#[verifier::external_body]
pub struct PathDisplay<'a> { p: &'a Path }
impl Path {
  pub uninterp spec fn name(&self) -> Seq<char>;
  #[verifier::external_body]
  pub fn display<'a>(&'a self) -> (r: PathDisplay<'a>) ensures r.name() == self.name() { unimplemented!() }
}
impl<'a> PathDisplay<'a> { pub uninterp spec fn name(&self) -> Seq<char>; }
impl<'a> fmt::Display for PathDisplay<'a> { open spec fn text(&self) -> Seq<char> { self.name() } open spec fn number(&self) -> bool { false } #[verifier::external_body] fn fmt(&self, f: &mut Paper) -> (r: fmt::Result) { unimplemented!() } }
#[verifier::external_body]
pub struct File { _p: u8 }
impl File {
  /// The lines of the file as it is read.
  pub uninterp spec fn lines_(&self) -> Lines_;
  #[verifier::external_body]
  pub fn open(p: &Path) -> (r: IoResult<File>) ensures match r { Ok(f) => opened(p.name(), f), Err(_) => not_opened(p.name()) } { unimplemented!() }
}
/// What an attempt to open the file gave.
pub uninterp spec fn opened(name: Seq<char>, f: File) -> bool;
pub uninterp spec fn not_opened(name: Seq<char>) -> bool;
pub struct BufReader { pub f: File }
#[verifier::external_body]
pub struct Lines_ { _p: u8 }
impl BufReader {
  pub fn new(f: File) -> (r: Self) ensures r.f == f { BufReader { f } }
  #[verifier::external_body]
  pub fn lines(self) -> (r: Lines_) ensures r == self.f.lines_() { unimplemented!() }
}
impl Reads_ for Lines_ {
  uninterp spec fn at(&self, i: nat) -> Item_;
  #[verifier::external_body]
  fn next(&mut self) -> (r: Option<IoResult<Paper>>) { unimplemented!() }
  #[verifier::external_body]
  fn nth(&mut self, n: usize) -> (r: Option<IoResult<Paper>>) { unimplemented!() }
}

// ---------------------------------------------------------------- spans

#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct Arguments { _p: u8 }
impl Arguments { pub uninterp spec fn what(&self) -> Seq<char>; }
impl fmt::Display for Arguments { open spec fn text(&self) -> Seq<char> { self.what() } open spec fn number(&self) -> bool { false } #[verifier::external_body] fn fmt(&self, f: &mut Paper) -> (r: fmt::Result) { unimplemented!() } }
pub enum Ordering { Relaxed, Release, Acquire, AcqRel, SeqCst }
#[verifier::external_body]
pub struct AtomicUsize { _p: u8 }
pub uninterp spec fn loaded(a: AtomicUsize, v: usize) -> bool;
impl AtomicUsize {
  #[verifier::external_body]
  pub fn fetch_add(&self, n: usize, o: Ordering) -> (r: usize) { unimplemented!() }
  #[verifier::external_body]
  pub fn fetch_sub(&self, n: usize, o: Ordering) -> (r: usize) { unimplemented!() }
  #[verifier::external_body]
  pub fn store(&self, n: usize, o: Ordering) { unimplemented!() }
  #[verifier::external_body]
  pub fn load(&self, o: Ordering) -> (r: usize) ensures loaded(*self, r) { unimplemented!() }
}
pub enum Color { BrightRed, Yellow, Blue, Red, Green, BrightYellow }
pub struct Arc<T> { pub v: T }
//@ rewrite the shared status as a trusted handle with an identity :: self.status.$i_f ==> self.status.v.$i_f
//@ item src/span.rs enum Error
//@ end
//@ item src/span.rs enum FileType
//@ end
//@ item src/span.rs struct LoggerStatus
//@ end
//@ item src/span.rs struct Location derive=Clone+Copy+PartialEq+Eq+Structural
//@ end
//@ item src/span.rs struct Span
//@ end
//@ item src/span.rs impl fmt::Display for Location props=C29
//@ ghost
  open spec fn text(&self) -> Seq<char> { dec(self.line as nat).push(':') + dec(self.col as nat) }
  open spec fn number(&self) -> bool { false }
//@ fn fmt
//@ end
//@ item src/span.rs impl fmt::Display for FileType props=C29
//@ ghost
  open spec fn text(&self) -> Seq<char> { match self { FileType::File(p) => p.name(), FileType::Stdin => "<stdin>"@, FileType::Buffer => "<buffer>"@ } }
  open spec fn number(&self) -> bool { false }
//@ fn fmt
//@ end

// ---------------------------------------------------------------- excerpts

pub open spec fn gap(w: nat) -> Seq<char> { fill(' ', w) }
/// A line's number in a field of width w.
pub open spec fn num(n: nat, w: nat) -> Seq<char> { padded(dec(n), w, ' ', true) }
/// The excerpt of a span within one line, written after p.
pub open spec fn single(p: Seq<char>, n: nat, line: Seq<char>, c1: nat, c2: nat) -> Seq<char> {
  let w = dec(n).len();
  let a = cells(line, c1);
  let b = cells(line, if c2 >= c1 { c2 } else { c1 });
  let p = (p + gap(w)).push(' ').push('|').push('\n');
  let p = ((p + num(n, w)).push(' ').push('|').push(' ') + shown(line)).push('\n');
  ((p + gap(w)).push(' ').push('|').push(' ') + gap(if a >= 1 { (a - 1) as nat } else { 0 }) + fill('^', (b - a + 1) as nat)).push('\n')
}
/// What the contents have as line n, the first being line 1; nothing when it cannot be read.
pub open spec fn nth_line<T: Reads_>(r: T, n: nat) -> Option<Seq<char>> {
  if n == 0 { Some(Seq::empty()) } else { line_text(r.at((n - 1) as nat)) }
}
pub open spec fn the_line<T: Reads_>(r: T, n: nat) -> Seq<char> { nth_line(r, n)->0 }
/// The first line of a span of several, and the mark under it.
pub open spec fn first_rows(p: Seq<char>, n: nat, w: nat, line: Seq<char>, c: nat) -> Seq<char> {
  let p = (p + gap(w)).push(' ').push('|').push('\n');
  let p = ((p + num(n, w)).push(' ').push('|').push(' ').push(' ').push(' ') + shown(line)).push('\n');
  ((p + gap(w)).push(' ').push('|').push(' ').push(' ') + fill('_', cells(line, c)).push('^')).push('\n')
}
/// A line that the span goes on in.
pub open spec fn row(p: Seq<char>, n: nat, w: nat, line: Seq<char>) -> Seq<char> {
  ((p + num(n, w)).push(' ').push('|').push(' ').push('|').push(' ') + shown(line)).push('\n')
}
/// The k lines after line n.
pub open spec fn rows<T: Reads_>(p: Seq<char>, r: T, n: nat, w: nat, k: nat) -> Seq<char> decreases k {
  if k == 0 { p } else { row(rows(p, r, n, w, (k - 1) as nat), n + k, w, the_line(r, n + k)) }
}
/// The last line of a span of several, and the mark under it.
pub open spec fn last_rows(p: Seq<char>, n: nat, w: nat, line: Seq<char>, c: nat) -> Seq<char> {
  let e = cells(line, c);
  ((row(p, n, w, line) + gap(w)).push(' ').push('|').push(' ').push(if e == 0 { ' ' } else { '|' }) + fill('_', e).push('^')).push('\n')
}
/// Up to four lines between the first and the last are all shown; of more, the first two and the last.
pub open spec fn between<T: Reads_>(p: Seq<char>, r: T, n: nat, m: nat, w: nat) -> Seq<char> {
  if m - n - 1 <= 4 { rows(p, r, n, w, (m - n - 1) as nat) } else {
    let q = (rows(p, r, n, w, 2) + fill('.', w)).push(' ').push('|').push(' ').push('|').push('\n');
    row(q, (m - 1) as nat, w, the_line(r, (m - 1) as nat))
  }
}
/// The excerpt of a span from line n to a later line m.
pub open spec fn multi<T: Reads_>(r: T, n: nat, m: nat, c1: nat, c2: nat) -> Seq<char> {
  let w = if dec(m).len() >= 2 { dec(m).len() } else { 2 };
  let p = first_rows(Seq::empty(), n, w, the_line(r, n), c1);
  last_rows(between(p, r, n, m, w), m, w, the_line(r, m), c2)
}
/// The lines shown can be read.
pub open spec fn readable<T: Reads_>(r: T, n: nat, m: nat) -> bool {
  &&& nth_line(r, n) is Some && nth_line(r, m) is Some
  &&& m - n - 1 <= 4 ==> forall|i: nat| n < i < m ==> #[trigger] nth_line(r, i) is Some
  &&& m - n - 1 > 4 ==> nth_line(r, n + 1) is Some && nth_line(r, n + 2) is Some && nth_line(r, (m - 1) as nat) is Some
}
/// k lines have been read after line n.
pub open spec fn read_to<T: Reads_>(r: T, l: T, k: nat) -> bool { forall|i: nat| #[trigger] l.at(i) == r.at(k + i) }

/// What is printed after p about a file with lines l.
pub open spec fn excerpted(sp: Span, l: Lines_, p: Seq<char>) -> Seq<char> {
  let (n, m, a, b) = (sp.start.line as nat, sp.end.line as nat, sp.start.col as nat, sp.end.col as nat);
  if n == m && nth_line(l, n) is Some { single(p, n, the_line(l, n), a, b) }
  else if n < m && readable(l, n, m) { p + multi(l, n, m, a, b) }
  else { p }
}
/// Where: the file and the start of the span.
pub open spec fn place(sp: Span, p: Seq<char>) -> Seq<char> {
  ((p.push(' ').push(' ').push('a').push('t').push(' ') + sp.status.v.file_type.text()).push(':') + sp.start.text()).push('\n')
}
/// The place, and the excerpt when the span has columns and its file can be opened.
pub open spec fn located(sp: Span, p: Seq<char>, q: Seq<char>) -> bool {
  match sp.status.v.file_type {
    FileType::File(path) => if sp.start.col > 0 && sp.end.col > 0 {
      (not_opened(path.name()) && q == place(sp, p).push('\n')) || exists|f: File| opened(path.name(), f) && q == #[trigger] excerpted(sp, f.lines_(), place(sp, p)).push('\n')
    } else { q == place(sp, p).push('\n') },
    _ => q == place(sp, p).push('\n'),
  }
}
pub open spec fn error_line(p: Seq<char>, args: Arguments) -> Seq<char> { (p.push('e').push('r').push('r').push('o').push('r').push(':').push(' ') + args.text()).push('\n') }
pub open spec fn warning_line(p: Seq<char>, args: Arguments) -> Seq<char> { (p.push('w').push('a').push('r').push('n').push('i').push('n').push('g').push(':').push(' ') + args.text()).push('\n') }
/// How many errors and warnings there were.
pub open spec fn summary(e: nat, w: nat) -> Seq<char> {
  let p = if e != 0 {
    let p = (Seq::empty() + dec(e)).push(' ').push('e').push('r').push('r').push('o').push('r');
    if e > 1 { p.push('s') } else { p }
  } else { Seq::empty() };
  let p = if e != 0 && w != 0 { p.push(' ').push('a').push('n').push('d').push(' ') } else { p };
  let p = if w != 0 {
    let p = (p + dec(w)).push(' ').push('w').push('a').push('r').push('n').push('i').push('n').push('g');
    if w > 1 { p.push('s') } else { p }
  } else { p };
  p.push(' ').push('e').push('m').push('i').push('t').push('t').push('e').push('d')
}

//@ item src/span.rs impl Span props=C29 only=1
//@ drop new
//@ fn log_raw_error
    ensures final(out_)@ =~= error_line(old(out_)@, args), r == Error::Normal,
//@ fn log_raw_fatal_error
    ensures final(out_)@ =~= error_line(old(out_)@, args), r == Error::Fatal,
//@ fn log_raw_warning
    ensures final(out_)@ =~= warning_line(old(out_)@, args),
//@ fn log_error
    ensures located(*self, error_line(old(out_)@, args), final(out_)@), r == Error::Normal,
//@ fn log_fatal_error
    ensures located(*self, error_line(old(out_)@, args), final(out_)@), r == Error::Fatal,
//@ fn log_warning
    ensures located(*self, warning_line(old(out_)@, args), final(out_)@),
//@ fn log_summary props=C28
    ensures exists|e: usize, w: usize| #![trigger loaded(self.status.v.errors, e), loaded(self.status.v.warnings, w)] loaded(self.status.v.errors, e) && loaded(self.status.v.warnings, w) && final(out_)@ =~= (old(out_)@ + summary(e as nat, w as nat)).push('\n'),
//@ fn print_file_info
    ensures located(*self, old(out_)@, final(out_)@),
//@ after let mut lines = $e ;
          let ghost x = excerpted(*self, lines, place(*self, old(out_)@));
          proof {
            assert(opened(path.name(), file));
            assert(out_@ == place(*self, old(out_)@));
          }
//@ fn print_single_line_info
    ensures
      ({
        let n = self.start.line as nat;
        match nth_line(*old(lines), n) {
          Some(s) => r is Ok && final(out_)@ == single(old(out_)@, n, s, self.start.col as nat, self.end.col as nat),
          None => r is Err && final(out_)@ == old(out_)@,
        }
      }),
//@ loop 0
      invariant_except_break
        $let7.it.pos() == it0.index@ <= $let4@.len(),
      invariant
        $let5 <= u32::MAX, $let7.it.s() == $let4@, $let7.it.pos() <= $let5,
        forall|c: char| $let7.f.requires((c,)), forall|c: char, o: usize| $let7.f.ensures((c,), o) ==> o == cell(c),
        $let8 == cells($let4@, $let7.it.pos()), $let8 <= 2 * $let7.it.pos(),
      ensures
        $let7.it.pos() == $let5 || $let7.it.pos() >= $let4@.len(), $let7.it.pos() <= $let5, $let8 == cells($let4@, $let5 as nat),
//@ loopbody 0
      proof { cells_step($let4@, $let7.it.pos()); if $let7.it.pos() >= $let4@.len() { cells_end($let4@, $let7.it.pos(), $let5 as nat); } }
//@ loop 1
      invariant_except_break
        ($let7.it.pos() == $let5 + it1.index@ && $let7.it.pos() <= $let4@.len()) || ($let4@.len() <= $let7.it.pos() <= $let5 + it1.index@),
        $let10 == cells($let4@, ($let5 + it1.index@) as nat),
      invariant
        $let5 <= u32::MAX, $let6 <= u32::MAX, $let7.it.s() == $let4@,
        forall|c: char| $let7.f.requires((c,)), forall|c: char, o: usize| $let7.f.ensures((c,), o) ==> o == cell(c),
        $let8 <= $let10 <= 2 * (if $let6 >= $let5 { $let6 } else { $let5 }),
      ensures
        $let10 == cells($let4@, if $let6 >= $let5 { $let6 as nat } else { $let5 as nat }),
//@ loopbody 1
      let ghost k = ($let5 + it1.index@) as nat;
      proof { cells_step($let4@, k); if k >= $let4@.len() { cells_end($let4@, k, $let6 as nat); } }
//@ fn print_multi_line_info
    requires self.start.line < self.end.line
    ensures
      readable(*old(lines), self.start.line as nat, self.end.line as nat) ==> r is Ok && final(out_)@ == old(out_)@ + multi(*old(lines), self.start.line as nat, self.end.line as nat, self.start.col as nat, self.end.col as nat),
      !readable(*old(lines), self.start.line as nat, self.end.line as nat) ==> r is Err && final(out_)@ == old(out_)@,
//@ entry
    hide(cells); hide(replaced); hide(dec); hide(padded);
    let ghost r = *old(lines);
    let ghost n = self.start.line as nat;
    let ghost m = self.end.line as nat;
//@ after let mid_lines = $e ;
    let ghost p = $let0@;
    let ghost w = $let2 as nat;
    proof {
      assert(p == first_rows(Seq::empty(), n, w, the_line(r, n), self.start.col as nat));
      assert(read_to(r, *lines, n));
      assert(nth_line(r, n) is Some);
    }
//@ loop 0
      invariant
        r == *old(lines), n == self.start.line == $let3, m == self.end.line, n < m, nth_line(r, n) is Some, $let8 == m - n - 1, m <= u32::MAX, $let8 <= 4,
        2 <= w <= 20, w == $let2, out_@ == old(out_)@,
        $let0@ == rows(p, r, n, w, it0.index@ as nat), read_to(r, *lines, (n + it0.index@) as nat),
        forall|i: nat| n < i <= n + it0.index@ ==> #[trigger] nth_line(r, i) is Some,
//@ loopbody 0
      proof { assert(lines.at(0) == r.at((n + it0.index@ + 0) as nat)); assert(nth_line(r, (n + it0.index@ + 1) as nat) == line_text(lines.at(0))); }
//@ loop 1
      invariant
        r == *old(lines), n == self.start.line == $let3, m == self.end.line, n < m, nth_line(r, n) is Some, $let8 == m - n - 1, m <= u32::MAX, $let8 > 4,
        2 <= w <= 20, w == $let2, out_@ == old(out_)@,
        $let0@ == rows(p, r, n, w, it1.index@ as nat), read_to(r, *lines, (n + it1.index@) as nat),
        forall|i: nat| n < i <= n + it1.index@ ==> #[trigger] nth_line(r, i) is Some,
//@ loopbody 1
      proof { assert(lines.at(0) == r.at((n + it1.index@ + 0) as nat)); assert(nth_line(r, (n + it1.index@ + 1) as nat) == line_text(lines.at(0))); }
//@ end

// ---------------------------------------------------------------- what the excerpts say

/// Characters of one cell that are not tabs.
pub open spec fn ordinary(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) != '\t' && width_of(s[i]) == Some(1usize) }
pub proof fn ordinary_cells(s: Seq<char>, n: nat)
  requires ordinary(s), n <= s.len()
  ensures cells(s, n) == n
  decreases n
{ if n > 0 { ordinary_cells(s, (n - 1) as nat); assert(cell(s[n - 1]) == 1); } }
pub proof fn ordinary_shown(s: Seq<char>)
  requires ordinary(s)
  ensures shown(s) == s
  decreases s.len()
{
  if s.len() > 0 {
    let t = s.drop_last();
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) != '\t' && width_of(t[i]) == Some(1usize) by { assert(t[i] == s[i]); }
    ordinary_shown(t);
    assert(s.last() != '\t');
    assert(s =~= t + seq![s.last()]);
  }
}
pub proof fn dec_longer(a: nat, b: nat)
  requires a <= b
  ensures 1 <= dec(a).len() <= dec(b).len()
  decreases b
{ if b >= 10 && a >= 10 { dec_longer(a / 10, b / 10); } else if b >= 10 { dec_longer(0, b / 10); } }
/// A field for the number of the last line holds the number of every line shown, so that what follows it is aligned.
pub proof fn num_fits(a: nat, b: nat, w: nat)
  requires a <= b, dec(b).len() <= w
  ensures num(a, w).len() == w
{ dec_longer(a, b); }
/// C29: the row under a line of ordinary characters marks exactly the columns of the span, in the column of the text.
pub proof fn marks_exactly(p: Seq<char>, n: nat, line: Seq<char>, c1: nat, c2: nat)
  requires ordinary(line), 1 <= c1 <= c2 <= line.len()
  ensures ({
    let w = dec(n).len();
    let above = (p + gap(w)).push(' ').push('|').push('\n');
    let left = num(n, w).push(' ').push('|').push(' ');
    let under = gap(w).push(' ').push('|').push(' ');
    let marks = Seq::new(c2, |i: int| if c1 <= i + 1 { '^' } else { ' ' });
    &&& left.len() == under.len()
    &&& single(p, n, line, c1, c2) == ((above + left + line).push('\n') + under + marks).push('\n')
    &&& left == dec(n).push(' ').push('|').push(' ')
  })
{
  let w = dec(n).len();
  num_fits(n, n, w);
  ordinary_cells(line, c1);
  ordinary_cells(line, c2);
  ordinary_shown(line);
  let above = (p + gap(w)).push(' ').push('|').push('\n');
  let left = num(n, w).push(' ').push('|').push(' ');
  let under = gap(w).push(' ').push('|').push(' ');
  let marks = Seq::new(c2, |i: int| if c1 <= i + 1 { '^' } else { ' ' });
  assert(marks =~= gap((c1 - 1) as nat) + fill('^', (c2 - c1 + 1) as nat));
  let text = (above + left + line).push('\n');
  assert(((above + num(n, w)).push(' ').push('|').push(' ') + shown(line)).push('\n') =~= text);
  let q = (text + gap(w)).push(' ').push('|').push(' ');
  assert(q =~= text + under);
  assert(q + gap((c1 - 1) as nat) + fill('^', (c2 - c1 + 1) as nat) =~= text + under + marks);
}
/// One mark, under column c of a text that starts at column `at` of the terminal.
pub open spec fn marked(row: Seq<char>, at: nat, c: nat) -> bool {
  row.len() == at + c && row.last() == '^' && forall|i: int| 0 <= i < row.len() - 1 ==> #[trigger] row[i] != '^'
}
/// C29: the rows under the first and the last line mark the first and the last column of a span of several lines.
pub proof fn marks_first(p: Seq<char>, n: nat, w: nat, line: Seq<char>, c: nat)
  requires ordinary(line), 1 <= c <= line.len(), dec(n).len() <= w
  ensures ({
    let above = (p + gap(w)).push(' ').push('|').push('\n');
    let left = num(n, w).push(' ').push('|').push(' ').push(' ').push(' ');
    exists|row: Seq<char>| #[trigger] marked(row, left.len(), c) && first_rows(p, n, w, line, c) == (((above + left) + line).push('\n') + row).push('\n')
  })
{
  num_fits(n, n, w);
  ordinary_cells(line, c);
  ordinary_shown(line);
  let above = (p + gap(w)).push(' ').push('|').push('\n');
  let left = num(n, w).push(' ').push('|').push(' ').push(' ').push(' ');
  let row = gap(w).push(' ').push('|').push(' ').push(' ') + fill('_', c).push('^');
  assert(marked(row, left.len(), c));
  assert((above + num(n, w)).push(' ').push('|').push(' ').push(' ').push(' ') =~= above + left);
  let text = ((above + left) + line).push('\n');
  assert((text + gap(w)).push(' ').push('|').push(' ').push(' ') + fill('_', c).push('^') =~= text + row);
}
pub proof fn marks_last(p: Seq<char>, n: nat, w: nat, line: Seq<char>, c: nat)
  requires ordinary(line), 1 <= c <= line.len(), dec(n).len() <= w
  ensures ({
    let left = num(n, w).push(' ').push('|').push(' ').push('|').push(' ');
    exists|row: Seq<char>| #[trigger] marked(row, left.len(), c) && last_rows(p, n, w, line, c) == (((p + left) + line).push('\n') + row).push('\n')
  })
{
  num_fits(n, n, w);
  ordinary_cells(line, c);
  ordinary_shown(line);
  let left = num(n, w).push(' ').push('|').push(' ').push('|').push(' ');
  let row = gap(w).push(' ').push('|').push(' ').push('|') + fill('_', c).push('^');
  assert(marked(row, left.len(), c));
  assert((p + num(n, w)).push(' ').push('|').push(' ').push('|').push(' ') =~= p + left);
  let text = ((p + left) + line).push('\n');
  assert((text + gap(w)).push(' ').push('|').push(' ').push('|') + fill('_', c).push('^') =~= text + row);
}
/// C29: under a line with tabs and wide characters too, where a column of the text ends is where its mark is:
/// the text shown for the first n characters takes the cells the marks count.
pub proof fn tabs_aligned(s: Seq<char>, n: nat)
  requires n <= s.len(), width_of(' ') == Some(1usize)
  ensures shown(s).subrange(0, shown(s.take(n as int)).len() as int) == shown(s.take(n as int)), cells(shown(s.take(n as int)), shown(s.take(n as int)).len()) == cells(s, n)
  decreases s.len() + n
{
  shown_split(s, n);
  assert(shown(s).subrange(0, shown(s.take(n as int)).len() as int) =~= shown(s.take(n as int)));
  let t = s.take(n as int);
  if n == 0 { assert(t =~= Seq::empty()); } else {
    tabs_aligned(t, (n - 1) as nat);
    let u = s.take(n - 1);
    assert(t.take(n - 1) =~= u);
    assert(t.drop_last() =~= u);
    cells_same(t, s, (n - 1) as nat);
    let by = if t.last() == '\t' { fill(' ', tab()) } else { seq![t.last()] };
    assert(shown(t) == shown(u) + by);
    cells_add(shown(u), by, by.len());
    assert(cells(by, by.len()) == cell(s[n - 1])) by {
      assert(cell(' ') == 1);
      if t.last() == '\t' { blanks(tab(), tab()); } else { assert(cells(by, 0) == 0); assert(cells(by, 1) == cell(by[0])); }
    }
  }
}
pub proof fn blanks(m: nat, n: nat)
  requires n <= m, width_of(' ') == Some(1usize)
  ensures cells(fill(' ', m), n) == n
  decreases n
{ if n > 0 { blanks(m, (n - 1) as nat); assert(fill(' ', m)[n - 1] == ' '); } }
pub proof fn cells_same(s: Seq<char>, t: Seq<char>, n: nat)
  requires n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> s[i] == t[i]
  ensures cells(s, n) == cells(t, n)
  decreases n
{ if n > 0 { cells_same(s, t, (n - 1) as nat); } }
pub proof fn cells_add(s: Seq<char>, t: Seq<char>, n: nat)
  requires n <= t.len()
  ensures cells(s + t, s.len() + n) == cells(s, s.len()) + cells(t, n)
  decreases n
{ if n > 0 { cells_add(s, t, (n - 1) as nat); assert((s + t)[s.len() + n - 1] == t[n - 1]); } else { cells_same(s + t, s, s.len()); } }
pub proof fn shown_split(s: Seq<char>, n: nat)
  requires n <= s.len()
  ensures shown(s) == shown(s.take(n as int)) + shown(s.skip(n as int))
  decreases s.len()
{
  if n == s.len() { assert(s.take(n as int) =~= s); assert(s.skip(n as int) =~= Seq::empty()); assert(shown(s) =~= shown(s) + Seq::empty()); } else {
    let t = s.drop_last();
    shown_split(t, n);
    assert(t.take(n as int) =~= s.take(n as int));
    assert(s.skip(n as int).drop_last() =~= t.skip(n as int));
    assert(s.skip(n as int).last() == s.last());
    let by = if s.last() == '\t' { fill(' ', tab()) } else { seq![s.last()] };
    assert(shown(s) =~= shown(t.take(n as int)) + (shown(t.skip(n as int)) + by));
  }
}
} // verus!
fn main() {}
