#![feature(allocator_api)]
use vstd::prelude::*;
verus! {
//@ include fmt.inc.rs
//@ item src/span.rs enum Error
//@ end
//@ include span.inc.rs
//@ include input.inc.rs
//@ assume a source delivers each of its bytes once and in order, in portions of any size, may fail at any time without losing a byte, and answers 0 for a non-empty buffer only at its end (contract of Read)
//@ assume from_utf8 and str::chars follow the UTF-8 definition written out in the unit (contract of the standard library); from_utf8_unchecked is called with valid UTF-8 only (proved)
//@ assume Reader has a buffer of at least 4 bytes, ByteReader of at least 1 (InputStream is implemented for the default size 1024 only)
//@ assume logging a fatal error returns Error::Fatal (proved in unit spans); the counters it moves are not part of this unit's state
//@ rewrite logging macro to a trusted function :: log_raw_fatal_error!($a, $rest).into() ==> Err(fatal_())
//@ rewrite logging macro to a trusted function :: log_raw_fatal_error!($a, $rest) ==> fatal_()
//@ rewrite Result::map_err with a closure and ? to match :: self.reader.read($a).map_err(|e| $r)? ==> (match self.reader.read($a) { Ok(v_) => v_, Err(e) => return Err($r) })
//@ rewrite reading into a part of an array :: self.reader.read(&mut self.byte_buf[self.byte_buf_offset..]) ==> read_from_(&mut self.reader, &mut self.byte_buf, self.byte_buf_offset)
//@ rewrite reading into an array :: self.reader.read(&mut $i_b) ==> read_all_(&mut self.reader, &mut $i_b)
//@ rewrite part of an array :: from_utf8(&self.byte_buf[..$e]) ==> from_utf8_(&self.byte_buf, $e)
//@ rewrite part of an array :: unsafe { from_utf8_unchecked(&self.byte_buf[..$e]) } ==> from_utf8_unchecked_(&self.byte_buf, $e)
//@ rewrite copying inside an array :: self.byte_buf.copy_within($a..$b, 0) ==> copy_down_(&mut self.byte_buf, $a, $b)
//@ rewrite iterator of the characters of a string :: $i_s.chars() ==> chars_($i_s)
//@ rewrite pushing the rest of an iterator in reverse order :: self.char_buf.extend($i_c.rev()) ==> $i_c.rev_into(&mut self.char_buf)
//@ rewrite pushing part of an array in reverse order :: self.char_buf.extend($i_b[$a..$e].iter().rev()) ==> push_rev_(&mut self.char_buf, &$i_b, $a, $e)

//@ include spanfns.inc.rs

#[verifier::external_body]
fn fatal_() -> (r: Error) ensures r == Error::Fatal { unimplemented!() }

//@ item src/input.rs trait InputStream props=C12
//@ drop next_char next_char_span next_span skip_until collect_until collect_with_span_until
//@ ghost
  spec fn st(&self) -> Is<Self::CharType>;
  /// Which symbols are line feeds.
  spec fn feeds() -> spec_fn(Self::CharType) -> bool;
  spec fn inv(&self) -> bool;
//@ fn next_char_loc
    requires old(self).inv(), sane(Self::feeds(), old(self).st()),
    ensures final(self).inv(), read_one(Self::feeds(), old(self).st(), r, final(self).st()),
//@ fn unread
    requires old(self).inv(),
    ensures final(self).inv(), final(self).st() == put_back(old(self).st(), last),
//@ fn span
    requires self.inv(),
    ensures *r == self.st().here,
//@ fn set_line_col
    requires old(self).inv(),
    ensures final(self).inv(), final(self).st() == (Is { here: spot(old(self).st().here, Location { line, col }), ..old(self).st() }),
//@ fn peek
    requires old(self).inv(), sane(Self::feeds(), old(self).st()), clone_ok::<Self::CharType>(),
    ensures final(self).inv(), peeked(old(self).st(), r, final(self).st()),
//@ fn peek_with_span
    requires old(self).inv(), sane(Self::feeds(), old(self).st()), clone_ok::<Self::CharType>(),
    ensures
      final(self).inv(),
      peeked(old(self).st(), match r { Ok((c, _)) => Ok(c), Err(e) => Err(e) }, final(self).st()),
      r is Ok ==> r->Ok_0.1 == next_sp(Self::feeds(), old(self).st()),
//@ entry
    proof { loc_one(Self::feeds(), self.st().rest, self.st().here.start); }
//@ end


// ------------------------------------------------------------ UTF-8

pub mod utf {
use super::*;
/// The character with this scalar value.
pub uninterp spec fn chr(n: int) -> char;
pub enum First { None, Char(char, nat), Incomplete, Invalid }
pub closed spec fn cont(b: u8) -> bool { 0x80 <= b <= 0xbf }
/// Range of the second byte after this first byte.
pub closed spec fn second(b0: u8, b: u8) -> bool {
  if b0 == 0xe0 { 0xa0 <= b <= 0xbf } else if b0 == 0xed { 0x80 <= b <= 0x9f } else if b0 == 0xf0 { 0x90 <= b <= 0xbf } else if b0 == 0xf4 { 0x80 <= b <= 0x8f } else { cont(b) }
}
/// The first character of the bytes (Unicode standard, table 3-7).
pub closed spec fn first(b: Seq<u8>) -> First {
  if b.len() == 0 { First::None }
  else if b[0] < 0x80 { First::Char(chr(b[0] as int), 1) }
  else if b[0] < 0xc2 || b[0] > 0xf4 { First::Invalid }
  else if b.len() == 1 { First::Incomplete }
  else if !second(b[0], b[1]) { First::Invalid }
  else if b[0] < 0xe0 { First::Char(chr((b[0] - 0xc0) * 64 + (b[1] - 0x80)), 2) }
  else if b.len() == 2 { First::Incomplete }
  else if !cont(b[2]) { First::Invalid }
  else if b[0] < 0xf0 { First::Char(chr((b[0] - 0xe0) * 4096 + (b[1] - 0x80) * 64 + (b[2] - 0x80)), 3) }
  else if b.len() == 3 { First::Incomplete }
  else if !cont(b[3]) { First::Invalid }
  else { First::Char(chr((b[0] - 0xf0) * 262144 + (b[1] - 0x80) * 4096 + (b[2] - 0x80) * 64 + (b[3] - 0x80)), 4) }
}
/// Characters of the longest valid prefix.
pub closed spec fn chars(b: Seq<u8>) -> Seq<char>
  decreases b.len(),
{
  match first(b) { First::Char(c, n) => if 0 < n <= b.len() { seq![c] + chars(b.skip(n as int)) } else { seq![] }, _ => seq![] }
}
/// What is left after the longest valid prefix.
pub closed spec fn left(b: Seq<u8>) -> Seq<u8>
  decreases b.len(),
{
  match first(b) { First::Char(c, n) => if 0 < n <= b.len() { left(b.skip(n as int)) } else { b }, _ => b }
}
pub proof fn first_more(b: Seq<u8>, t: Seq<u8>)
  ensures
    first(b) is Char || first(b) is Invalid ==> first(b + t) == first(b),
    first(b) is Char ==> 0 < first(b)->Char_1 <= b.len(),
{
}
/// Decoding in parts is decoding the whole.
pub proof fn chars_parts(b: Seq<u8>, t: Seq<u8>)
  ensures
    left(b).len() <= b.len(),
    b.skip(b.len() - left(b).len()) == left(b),
    !(first(left(b)) is Char),
    chars(b + t) == chars(b) + chars(left(b) + t),
    left(b + t) == left(left(b) + t),
    left(b).len() < b.len() <==> chars(b).len() > 0,
  decreases b.len(),
{
  first_more(b, t);
  match first(b) {
    First::Char(c, n) => {
      let d = b.skip(n as int);
      chars_parts(d, t);
      assert((b + t).skip(n as int) =~= d + t);
      assert(chars(b + t) =~= chars(b) + chars(left(b) + t));
      assert(b.skip(b.len() - left(b).len()) =~= d.skip(d.len() - left(d).len()));
    }
    _ => {
      assert(chars(b) =~= seq![]);
      assert(chars(b + t) =~= chars(b) + chars(left(b) + t));
      assert(b.skip(0) =~= b);
    }
  }
}
pub proof fn left_prefix(b: Seq<u8>)
  ensures
    left(b).len() <= b.len(),
    chars(b.take(b.len() - left(b).len())) == chars(b),
    left(b.take(b.len() - left(b).len())).len() == 0,
  decreases b.len(),
{
  match first(b) {
    First::Char(c, n) => {
      first_more(b, seq![]);
      assert(b + Seq::<u8>::empty() =~= b);
      let d = b.skip(n as int);
      left_prefix(d);
      let v = b.len() - left(b).len();
      let p = b.take(v);
      assert(p.skip(n as int) =~= d.take(d.len() - left(d).len()));
      assert(first(p) == first(b)) by { assert(n <= p.len()); }
    }
    _ => { assert(b.take(0) =~= seq![]); }
  }
}
pub proof fn left_left(b: Seq<u8>) ensures left(left(b)) == left(b), chars(left(b)).len() == 0
{
  chars_parts(b, seq![]);
}
/// Everything needed about having decoded the first k bytes.
pub open spec fn at(all: Seq<u8>, k: int) -> bool {
  let h = all.take(k);
  &&& left(h).len() <= h.len()
  &&& h.skip(h.len() - left(h).len()) == left(h)
  &&& !(first(left(h)) is Char)
  &&& left(h).len() < h.len() <==> chars(h).len() > 0
  &&& chars(all) == chars(h) + chars(left(h) + all.skip(k))
  &&& left(all) == left(left(h) + all.skip(k))
  &&& first(left(h)) is Invalid ==> left(all).len() > 0 && chars(all) == chars(h)
  &&& first(left(h)) is Incomplete ==> 0 < left(h).len() < 4
  &&& left(h).len() > 0 ==> first(left(h)) is Invalid || first(left(h)) is Incomplete
  &&& k == all.len() ==> h == all
}
pub proof fn parts(all: Seq<u8>)
  ensures forall|k: int| 0 <= k <= all.len() ==> #[trigger] all.take(k) == all.take(k) && at(all, k),
{
  assert forall|k: int| 0 <= k <= all.len() implies #[trigger] all.take(k) == all.take(k) && at(all, k) by {
    let (h, t) = (all.take(k), all.skip(k));
    assert(h + t =~= all);
    chars_parts(h, t);
    first_more(left(h), t);
    assert(chars(h) + Seq::<char>::empty() =~= chars(h));
    if k == all.len() { assert(h =~= all); }
  }
}
}
pub use utf::*;

pub mod seqs {
use super::*;
/// A stack of symbols before the others.
pub open spec fn stack<C>(b: Seq<C>, t: Seq<C>) -> Seq<C> { b.reverse() + t }
pub broadcast proof fn stack_push<C>(b: Seq<C>, c: C, t: Seq<C>) ensures #[trigger] stack(b.push(c), t) == seq![c] + stack(b, t)
{ assert(stack(b.push(c), t) =~= seq![c] + stack(b, t)); }
pub broadcast proof fn stack_pop<C>(b: Seq<C>, t: Seq<C>)
  ensures
    #![trigger stack(b, t)]
    stack(b, t).len() == b.len() + t.len(),
    b.len() == 0 ==> stack(b, t) == t,
    b.len() > 0 ==> stack(b, t)[0] == b.last(),
{
  if b.len() == 0 { assert(stack(b, t) =~= t); }
}
pub broadcast proof fn stack_skip<C>(b: Seq<C>, t: Seq<C>)
  requires b.len() > 0,
  ensures #[trigger] stack(b, t).skip(1) == stack(b.drop_last(), t),
{
  assert(stack(b, t).skip(1) =~= stack(b.drop_last(), t));
}
pub broadcast proof fn stack_rev<C>(b: Seq<C>, x: Seq<C>, t: Seq<C>) ensures #[trigger] stack(b + x.reverse(), t) == x + stack(b, t)
{ assert(stack(b + x.reverse(), t) =~= x + stack(b, t)); }
pub broadcast proof fn cat_skip<C>(x: Seq<C>, y: Seq<C>) requires x.len() > 0 ensures #[trigger] (x + y).skip(1) == x.skip(1) + y, (x + y)[0] == x[0]
{ assert((x + y).skip(1) =~= x.skip(1) + y); }
pub broadcast proof fn take_all<C>(a: Seq<C>, k: int) requires 0 <= k <= a.len() ensures #[trigger] (a.take(k) + a.skip(k)) == a
{ assert(a.take(k) + a.skip(k) =~= a); }
pub broadcast proof fn take_more<C>(a: Seq<C>, k: int, n: int) requires 0 <= k, 0 <= n, k + n <= a.len() ensures #[trigger] (a.take(k) + a.skip(k).take(n)) == a.take(k + n)
{ assert(a.take(k) + a.skip(k).take(n) =~= a.take(k + n)); }
pub broadcast proof fn skip_more<C>(a: Seq<C>, k: int, n: int) requires 0 <= k, 0 <= n, k + n <= a.len() ensures #[trigger] a.skip(k).skip(n) == a.skip(k + n)
{ assert(a.skip(k).skip(n) =~= a.skip(k + n)); }
pub broadcast proof fn mid_rest<C>(a: Seq<C>, n: int) requires 0 < n <= a.len() ensures #[trigger] (a.take(n).skip(1) + a.skip(n)) == a.skip(1)
{ assert(a.take(n).skip(1) + a.skip(n) =~= a.skip(1)); }
pub broadcast proof fn take_take<C>(b: Seq<C>, n: int, k: int) requires 0 <= k <= n <= b.len() ensures #[trigger] b.take(n).take(k) == b.take(k)
{ assert(b.take(n).take(k) =~= b.take(k)); }
pub broadcast proof fn take_skip<C>(b: Seq<C>, n: int, k: int) requires 0 <= k <= n <= b.len() ensures #[trigger] b.take(n).skip(k) == b.subrange(k, n)
{ assert(b.take(n).skip(k) =~= b.subrange(k, n)); }
pub broadcast proof fn take_first<C>(b: Seq<C>, n: int) requires 0 < n <= b.len() ensures #![trigger b.take(n)] b.take(n)[0] == b[0], b.take(n).len() == n { }
pub broadcast group seq_lemmas { stack_push, stack_pop, stack_skip, stack_rev, cat_skip, take_all, take_more, skip_more, mid_rest, take_first, take_skip }
}
pub use seqs::*;
broadcast use {is::is_lemmas, seqs::seq_lemmas};

/// The part of from_utf8's error that is used.
pub struct Utf8Error_ { pub valid: usize, pub len: Option<usize> }
impl Utf8Error_ {
  pub fn valid_up_to(&self) -> (r: usize) ensures r == self.valid { self.valid }
  pub fn error_len(&self) -> (r: Option<usize>) ensures r == self.len { self.len }
}
#[verifier::external_body]
fn from_utf8_raw_<const N: usize>(b: &Box<[u8; N]>, n: usize) -> (r: core::result::Result<&str, Utf8Error_>)
  requires n <= N,
  ensures match r {
    Ok(s) => s@ == chars(b@.take(n as int)) && left(b@.take(n as int)).len() == 0,
    Err(e) => {
      let l = left(b@.take(n as int));
      l.len() > 0 && e.valid == n - l.len() && (e.len is None <==> first(l) is Incomplete)
    },
  }
{ unimplemented!() }
fn from_utf8_<const N: usize>(b: &Box<[u8; N]>, n: usize) -> (r: core::result::Result<&str, Utf8Error_>)
  requires n <= N,
  ensures match r {
    Ok(s) => s@ == chars(b@.take(n as int)) && left(b@.take(n as int)).len() == 0,
    Err(e) => {
      let l = left(b@.take(n as int));
      l.len() > 0 && e.valid == n - l.len() && (e.len is None <==> first(l) is Incomplete)
        && left(b@.take(e.valid as int)).len() == 0 && chars(b@.take(e.valid as int)) == chars(b@.take(n as int))
    },
  }
{
  let r = from_utf8_raw_(b, n);
  proof {
    left_prefix(b@.take(n as int));
    if r is Err { assert(b@.take(n as int).take(r->Err_0.valid as int) =~= b@.take(r->Err_0.valid as int)); }
  }
  r
}
#[verifier::external_body]
fn from_utf8_unchecked_<const N: usize>(b: &Box<[u8; N]>, n: usize) -> (r: &str)
  requires n <= N, left(b@.take(n as int)).len() == 0,
  ensures r@ == chars(b@.take(n as int)),
{ unimplemented!() }
/// The iterator over the characters of a string.
pub struct Chars_ { pub v: Vec<char>, pub at: usize }
#[verifier::external_body]
fn chars_(s: &str) -> (r: Chars_) ensures r.v@ == s@, r.at == 0 { unimplemented!() }
impl Chars_ {
  pub open spec fn ok(&self) -> bool { self.at <= self.v@.len() }
  pub fn next(&mut self) -> (r: Option<char>)
    requires old(self).ok(),
    ensures final(self).ok(), final(self).v == old(self).v,
      old(self).at < old(self).v@.len() ==> r == Some(old(self).v@[old(self).at as int]) && final(self).at == old(self).at + 1,
      old(self).at == old(self).v@.len() ==> r is None && final(self).at == old(self).at,
  {
    if self.at < self.v.len() { let c = self.v[self.at]; self.at = self.at + 1; Some(c) } else { None }
  }
  pub fn rev_into(self, to: &mut Vec<char>)
    requires self.ok(),
    ensures final(to)@ == old(to)@ + self.v@.skip(self.at as int).reverse(),
  {
    let mut k = self.v.len();
    while k > self.at
      invariant self.at <= k <= self.v@.len(), to@ == old(to)@ + self.v@.subrange(k as int, self.v@.len() as int).reverse(),
      decreases k,
    {
      k = k - 1;
      to.push(self.v[k]);
      proof {
        let (a, b) = (self.v@.subrange(k as int, self.v@.len() as int), self.v@.subrange(k + 1, self.v@.len() as int));
        assert(a.reverse() =~= b.reverse().push(self.v@[k as int]));
        assert(to@ =~= old(to)@ + a.reverse());
      }
    }
    proof { assert(self.v@.subrange(k as int, self.v@.len() as int) =~= self.v@.skip(self.at as int)); }
  }
}
fn push_rev_<const N: usize>(to: &mut Vec<u8>, b: &[u8; N], lo: usize, hi: usize)
  requires lo <= hi <= N,
  ensures final(to)@ == old(to)@ + b@.take(hi as int).skip(lo as int).reverse(),
{
  let mut k = hi;
  while k > lo
    invariant lo <= k <= hi <= N, to@ == old(to)@ + b@.subrange(k as int, hi as int).reverse(),
    decreases k,
  {
    k = k - 1;
    to.push(b[k]);
    proof {
      let (x, y) = (b@.subrange(k as int, hi as int), b@.subrange(k + 1, hi as int));
      assert(x.reverse() =~= y.reverse().push(b@[k as int]));
      assert(to@ =~= old(to)@ + x.reverse());
    }
  }
}
/// `copy_within(a..b, 0)`
fn copy_down_<const N: usize>(b: &mut Box<[u8; N]>, lo: usize, hi: usize)
  requires lo <= hi <= N,
  ensures final(b)@.take(hi - lo) == old(b)@.subrange(lo as int, hi as int),
{
  let mut k: usize = 0;
  while k < hi - lo
    invariant lo <= hi <= N, k <= hi - lo, forall|i: int| 0 <= i < k ==> b@[i] == old(b)@[lo + i], forall|i: int| k <= i < N ==> b@[i] == old(b)@[i],
    decreases hi - lo - k,
  {
    b[k] = b[lo + k];
    k = k + 1;
  }
  proof { assert(b@.take(hi - lo) =~= old(b)@.subrange(lo as int, hi as int)); }
}

// ------------------------------------------------------------ the source

pub mod io { pub struct Error { pub p: u8 } pub type Result<T> = core::result::Result<T, Error>; }
pub trait Read {
  /// The bytes still to be delivered, and the failures so far.
  spec fn todo(&self) -> Seq<u8>;
  spec fn fails(&self) -> nat;
}
/// A portion is delivered behind what is there, or nothing happens.
pub open spec fn portion<T: Read>(a: T, b: T, r: io::Result<usize>, held: Seq<u8>, room: int, now: Seq<u8>) -> bool {
  match r {
    Ok(n) => n <= room && n <= a.todo().len() && (n == 0 ==> room == 0 || a.todo().len() == 0)
      && b.todo() == a.todo().skip(n as int) && b.fails() == a.fails() && now.take(held.len() + n) == held + a.todo().take(n as int),
    Err(_) => b.todo() == a.todo() && b.fails() == a.fails() + 1 && now.take(held.len() as int) == held,
  }
}
/// `read(&mut buf[from..])`: the bytes before are untouched.
#[verifier::external_body]
fn read_from_<T: Read, const N: usize>(s: &mut T, buf: &mut Box<[u8; N]>, from: usize) -> (r: io::Result<usize>)
  requires from <= N,
  ensures portion(*old(s), *final(s), r, old(buf)@.take(from as int), N - from, final(buf)@),
{ unimplemented!() }
#[verifier::external_body]
fn read_all_<T: Read, const N: usize>(s: &mut T, buf: &mut [u8; N]) -> (r: io::Result<usize>)
  ensures match r {
    Ok(n) => n <= N && n <= old(s).todo().len() && (n == 0 ==> N == 0 || old(s).todo().len() == 0)
      && final(s).todo() == old(s).todo().skip(n as int) && final(s).fails() == old(s).fails() && final(buf)@.take(n as int) == old(s).todo().take(n as int),
    Err(_) => final(s).todo() == old(s).todo() && final(s).fails() == old(s).fails() + 1,
  },
{ unimplemented!() }

// ------------------------------------------------------------ readers

//@ item src/reader.rs const BYTE_BUFFER_SIZE
//@ end
//@ item src/reader.rs struct Reader
//@ end
//@ item src/reader.rs struct ByteReader
//@ end
impl<T, const BUFFER_SIZE: usize> Reader<T, BUFFER_SIZE> {
  pub open spec fn held(&self) -> Seq<u8> { self.byte_buf@.take(self.byte_buf_offset as int) }
  pub open spec fn state(&self) -> Is<char> where T: Read {
    Is { rest: stack(self.char_buf@, chars(self.held() + self.reader.todo())), bad: left(self.held() + self.reader.todo()).len() > 0, here: self.span, fails: self.reader.fails() }
  }
  pub open spec fn fine(&self) -> bool { self.byte_buf_offset <= BUFFER_SIZE && BUFFER_SIZE >= 4 && self.span.start == self.span.end }
}
impl<T, const BUFFER_SIZE: usize> ByteReader<T, BUFFER_SIZE> {
  pub open spec fn state(&self) -> Is<u8> where T: Read {
    Is { rest: stack(self.char_buf@, self.reader.todo()), bad: false, here: self.span, fails: self.reader.fails() }
  }
  pub open spec fn fine(&self) -> bool { BUFFER_SIZE >= 1 && self.span.start == self.span.end }
}
pub open spec fn char_feeds() -> spec_fn(char) -> bool { |c: char| c == '\n' }
pub open spec fn byte_feeds() -> spec_fn(u8) -> bool { |c: u8| c == 10u8 }

/// What the loop reads and decodes: all characters of the valid prefix, or none as there will never be one.
pub open spec fn decoded(all: Seq<u8>, k: int, x: Option<(&str, Option<usize>, usize)>) -> bool {
  let held = all.take(k);
  match x {
    Some((s, end, count)) => {
      &&& count == k && count > 0
      &&& s@ == chars(held)
      &&& end is None <==> left(held).len() == 0
      &&& end is Some ==> end->0 == k - left(held).len()
      &&& s@.len() == 0 ==> chars(all).len() == 0 && left(all).len() > 0
    }
    None => false,
  }
}
//@ item src/reader.rs impl Reader props=C09,C11
//@ fn new
    ensures
      r.reader == reader, r.char_buf@.len() == 0, r.byte_buf_offset == 0, r.span.start == (Location { line: 1, col: 0 }), r.span.end == r.span.start,
      r.span.status.v.file_type == file_type,
//@ fn next_char_loc_from_reader attr=loop_isolation(false)+allow_complex_invariants
    requires old(self).fine(), old(self).char_buf@.len() == 0, sane(char_feeds(), old(self).state()),
    ensures
      final(self).fine(),
      read_one(char_feeds(), old(self).state(), r, final(self).state()),
      r is Err ==> r->Err_0 == Error::Fatal,
//@ entry
    let ghost a = self.state();
    let ghost all = self.held() + self.reader.todo();
    proof { parts(all); assert(self.held() =~= all.take(self.byte_buf_offset as int)); assert(self.reader.todo() =~= all.skip(self.byte_buf_offset as int)); }
//@ loop 0
    invariant_except_break
      brk_ is None,
    invariant
      a == old(self).state(), all == old(self).held() + old(self).reader.todo(), old(self).fine(), sane(char_feeds(), a),
      a.rest == chars(all), a.bad == (left(all).len() > 0),
      forall|k: int| 0 <= k <= all.len() ==> #[trigger] all.take(k) == all.take(k) && at(all, k),
      self.span == old(self).span, self.char_buf@.len() == 0, self.reader.fails() == old(self).reader.fails(),
      self.byte_buf_offset <= BUFFER_SIZE, BUFFER_SIZE >= 4,
      self.byte_buf_offset <= all.len(), self.held() == all.take(self.byte_buf_offset as int), self.reader.todo() == all.skip(self.byte_buf_offset as int),
    ensures
      decoded(all, self.byte_buf_offset as int, brk_),
    decreases self.reader.todo().len(),
//@ end
//@ item src/reader.rs impl ByteReader props=C10,C11
//@ fn new
    ensures
      r.reader == reader, r.char_buf@.len() == 0, r.span.start == (Location { line: 1, col: 0 }), r.span.end == r.span.start,
      r.span.status.v.file_type == file_type,
//@ fn next_char_loc_from_reader
    requires old(self).fine(), old(self).char_buf@.len() == 0, sane(byte_feeds(), old(self).state()),
    ensures
      final(self).fine(),
      read_one(byte_feeds(), old(self).state(), r, final(self).state()),
      r is Err ==> r->Err_0 == Error::Fatal,
//@ end
//@ expand src/reader.rs impl_reader 0
//@ item src/reader.rs!impl_reader0 impl InputStream for Reader props=C09,C11,C12
//@ ghost
  open spec fn st(&self) -> Is<char> { self.state() }
  open spec fn feeds() -> spec_fn(char) -> bool { char_feeds() }
  open spec fn inv(&self) -> bool { self.fine() }
//@ fn next_char_loc
    ensures r is Err ==> r->Err_0 == Error::Fatal,
//@ fn unread
//@ fn span
//@ fn set_line_col
//@ fn peek
//@ fn peek_with_span
//@ end
//@ expand src/reader.rs impl_reader 1
//@ item src/reader.rs!impl_reader1 impl InputStream for ByteReader props=C10,C11,C12
//@ ghost
  open spec fn st(&self) -> Is<u8> { self.state() }
  open spec fn feeds() -> spec_fn(u8) -> bool { byte_feeds() }
  open spec fn inv(&self) -> bool { self.fine() }
//@ fn next_char_loc
    ensures r is Err ==> r->Err_0 == Error::Fatal,
//@ fn unread
//@ fn span
//@ fn set_line_col
//@ fn peek
//@ fn peek_with_span
//@ end
}
fn main() {}
