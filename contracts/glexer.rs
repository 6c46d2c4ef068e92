use vstd::prelude::*;
use core::marker::PhantomData;
verus! {
//@ assume the declarations of /verif/gen/src/l.rs stand for all lexer declarations (a lexer of characters: skipped, unit, empty tuple and value variants, FromStr and named conversions, overlapping expressions, an end token and a variant without an expression in between; a lexer of bytes without end token)
//@ assume String::new, push and is_empty follow their documentation
//@ assume Token::new is called with the kind itself (From is the identity)
//@ rewrite paths of the crate :: laps::span::Result ==> Result
//@ rewrite paths of the crate :: laps::lexer::Tokenize ==> Tokenize
//@ rewrite paths of the crate :: laps::input::InputStream ==> InputStream
//@ rewrite paths of the crate :: laps::token::Token ==> super::Token
//@ rewrite paths of the crate :: crate::span::Result ==> Result
//@ rewrite String with a contract :: String ==> Text
//@ rewrite FromStr of a text :: buf.parse() ==> parse_(buf)
//@ rewrite function value called :: ($i_f)(buf) ==> $i_f(buf)
//@ rewrite Result::map_err with a returning closure to match :: $x.map_err(|_| return span.log_error($m).into())? ==> (match $x { Ok(v_) => v_, Err(_) => return Err(log_error_(span)) })
//@ rewrite Option::ok_or_else with a returning closure to match :: $x.ok_or_else(|| return span.log_error($m).into())? ==> (match $x { Some(v_) => v_, None => return Err(log_error_(span)) })
//@ rewrite log_error to a trusted function that returns Error::Normal (proved in unit spans) :: return span.log_error($m).into() ==> return Err(log_error_(&span))
//@ rewrite RangeInclusive::contains to comparisons :: ($a..=$b).contains(&$i_c) ==> ($a <= $i_c && $i_c <= $b)
//@ rewrite generic parameter of Token::new set to the kind :: new<T>(value: T, span: Span) -> Self where Kind: From<T>, ==> new(value: Kind, span: Span) -> Self
//@ rewrite identity conversion dropped :: value.into() ==> value
//@ include fmt.inc.rs
//@ item src/span.rs enum Error
//@ end
//@ include span.inc.rs
//@ include input.inc.rs
broadcast use is::is_lemmas;
//@ include spanfns.inc.rs
//@ include instream.inc.rs
#[verifier::external_body]
fn log_error_(_s: &Span) -> (e: Error) ensures e == Error::Normal { unimplemented!() }

//@ item src/token.rs struct Token
//@ end
//@ item src/token.rs impl Token#0 props=C07
//@ fn new
    ensures r.kind == value, r.span == span,
//@ end

#[verifier::external_body]
pub struct Text { _p: String }
impl Text {
  pub uninterp spec fn view(&self) -> Seq<char>;
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r@ == Seq::<char>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
/// Conversions from the matched text: any function of it.
pub trait OfText: Sized { spec fn of_text(s: Seq<char>) -> Option<Self>; }
#[verifier::external_body]
fn parse_<T: OfText>(s: &Text) -> (r: core::result::Result<T, ()>)
  ensures match r { Ok(v) => T::of_text(s@) == Some(v), Err(_) => T::of_text(s@) is None },
{ unimplemented!() }

/// The span of the first n symbols to come (where the next one is, if none).
pub open spec fn span_of<C>(f: spec_fn(C) -> bool, a: Is<C>, n: nat) -> Span {
  if n == 0 { next_sp(f, a) } else { Span { status: a.here.status, start: loc_at(f, a.rest, a.here.start, 1), end: loc_at(f, a.rest, a.here.start, n) } }
}
pub proof fn covered<C>(f: spec_fn(C) -> bool, a: Is<C>, n: nat, sp: Span)
  requires covers(f, a, n, sp),
  ensures sp == span_of(f, a, n),
{}

//@ item src/lexer.rs trait Tokenize props=C07,C08
//@ ghost
  /// What reading a token at a answers, and the input after it.
  spec fn lexed(f: spec_fn(Self::CharType) -> bool, a: Is<Self::CharType>, r: Result<Token<Self>>, b: Is<Self::CharType>) -> bool;
//@ fn next_token
    requires old(input).inv(), sane(I::feeds(), old(input).st()),
    ensures final(input).inv(), Self::lexed(I::feeds(), old(input).st(), r, final(input).st()),
//@ fn lexer
    ensures r.input == input,
//@ end

//@ item src/lexer.rs struct Lexer
//@ end
//@ item src/lexer.rs impl Lexer props=C07
//@ fn into_input
    ensures r == self.input,
//@ fn input
    ensures *r == self.input,
//@ fn input_mut
    ensures *r == old(self).input, final(self).input == *final(r),
//@ end
//@ item src/token.rs trait Tokenizer props=C07
//@ ghost
  spec fn ready(&self) -> bool;
  spec fn took(&self, r: Result<Self::Token>, after: &Self) -> bool;
//@ fn next_token
    requires old(self).ready(),
    ensures old(self).took(r, final(self)),
//@ end
//@ item src/lexer.rs impl Tokenizer for Lexer props=C07
//@ ghost
  open spec fn ready(&self) -> bool { self.input.inv() && sane(I::feeds(), self.input.st()) }
  open spec fn took(&self, r: Result<Token<K>>, after: &Self) -> bool { after.input.inv() && K::lexed(I::feeds(), self.input.st(), r, after.input.st()) }
//@ fn next_token
//@ end

pub mod l {
use super::*;
broadcast use is::is_lemmas;
#[verifier::external_body]
pub struct Word { _p: u8 }
pub uninterp spec fn word_of(s: Seq<char>) -> Option<Word>;
impl OfText for Word { open spec fn of_text(s: Seq<char>) -> Option<Word> { word_of(s) } }
#[verifier::external_body]
pub struct Num { _p: u8 }
pub uninterp spec fn num_of(s: Seq<char>) -> Option<Num>;
#[verifier::external_body]
fn to_num(s: &Text) -> (r: Option<Num>) ensures r == num_of(s@) { unimplemented!() }
//@ item gen mod l >> enum L
//@ end
/// The definitions in their order: the texts they match.
pub open spec fn lower(c: char) -> bool { 'a' <= c && c <= 'z' }
pub open spec fn digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn dotted(w: Seq<char>, k: int) -> bool { 0 < k < w.len() && w[k] == '.' && forall|i: int| 0 <= i < w.len() && i != k ==> digit(#[trigger] w[i]) }
pub open spec fn lang(t: nat, w: Seq<char>) -> bool {
  if t == 0 { w.len() > 0 && forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] == ' ' || w[i] == '\n' }
  else if t == 1 { w.len() == 2 && w[0] == 'i' && w[1] == 'f' }
  else if t == 3 { w.len() > 0 && lower(w[0]) && forall|i: int| 0 <= i < w.len() ==> lower(#[trigger] w[i]) || digit(w[i]) }
  else if t == 4 { w.len() > 0 && ((forall|i: int| 0 <= i < w.len() ==> digit(#[trigger] w[i])) || exists|k: int| #[trigger] dotted(w, k) && k < w.len() - 1) }
  else if t == 6 { w.len() == 1 && w[0] == '=' }
  else if t == 7 { w.len() == 3 && w[0] == '=' && w[1] == '=' && w[2] == '=' }
  else { t == 8 && w.len() > 0 && w[0] == '#' && forall|i: int| 1 <= i < w.len() ==> #[trigger] w[i] != '\n' }
}
/// The first definition that matches.
pub open spec fn first(w: Seq<char>) -> Option<nat> {
  if lang(0, w) { Some(0) } else if lang(1, w) { Some(1) } else if lang(3, w) { Some(3) } else if lang(4, w) { Some(4) }
  else if lang(6, w) { Some(6) } else if lang(7, w) { Some(7) } else if lang(8, w) { Some(8) } else { None }
}
/// Some definition has a continuation.
pub open spec fn viable(w: Seq<char>) -> bool { exists|t: nat, v: Seq<char>| t < 9 && #[trigger] lang(t, w + v) }
pub enum Q { Start, Blank, I, If, Id, Int, Dot, Frac, Eq1, Eq2, Eq3, Com }
/// The texts that lead to a state.
pub open spec fn at(q: Q, w: Seq<char>) -> bool {
  match q {
    Q::Start => w.len() == 0,
    Q::Blank => lang(0, w),
    Q::I => w.len() == 1 && w[0] == 'i',
    Q::If => lang(1, w),
    Q::Id => lang(3, w) && !lang(1, w) && !(w.len() == 1 && w[0] == 'i'),
    Q::Int => w.len() > 0 && forall|i: int| 0 <= i < w.len() ==> digit(#[trigger] w[i]),
    Q::Dot => dotted(w, w.len() - 1),
    Q::Frac => exists|k: int| #[trigger] dotted(w, k) && k < w.len() - 1,
    Q::Eq1 => lang(6, w),
    Q::Eq2 => w.len() == 2 && w[0] == '=' && w[1] == '=',
    Q::Eq3 => lang(7, w),
    Q::Com => lang(8, w),
  }
}
pub open spec fn delta(q: Q, c: char) -> Option<Q> {
  match q {
    Q::Start => if c == ' ' || c == '\n' { Some(Q::Blank) } else if c == 'i' { Some(Q::I) } else if lower(c) { Some(Q::Id) } else if digit(c) { Some(Q::Int) } else if c == '=' { Some(Q::Eq1) } else if c == '#' { Some(Q::Com) } else { None },
    Q::Blank => if c == ' ' || c == '\n' { Some(Q::Blank) } else { None },
    Q::I => if c == 'f' { Some(Q::If) } else if lower(c) || digit(c) { Some(Q::Id) } else { None },
    Q::If | Q::Id => if lower(c) || digit(c) { Some(Q::Id) } else { None },
    Q::Int => if digit(c) { Some(Q::Int) } else if c == '.' { Some(Q::Dot) } else { None },
    Q::Dot | Q::Frac => if digit(c) { Some(Q::Frac) } else { None },
    Q::Eq1 => if c == '=' { Some(Q::Eq2) } else { None },
    Q::Eq2 => if c == '=' { Some(Q::Eq3) } else { None },
    Q::Eq3 => None,
    Q::Com => if c != '\n' { Some(Q::Com) } else { None },
  }
}
pub open spec fn acc(q: Q) -> Option<nat> {
  match q {
    Q::Blank => Some(0), Q::If => Some(1), Q::I | Q::Id => Some(3), Q::Int | Q::Frac => Some(4), Q::Eq1 => Some(6), Q::Eq3 => Some(7), Q::Com => Some(8),
    Q::Start | Q::Dot | Q::Eq2 => None,
  }
}
/// The automaton is right: a state accepts for the first definition that matches, and goes on exactly while some definition has a continuation.
pub proof fn accepts(q: Q, w: Seq<char>)
  requires at(q, w),
  ensures acc(q) == first(w),
{
  if q is Int { assert(digit(w[0])); assert forall|k: int| !dotted(w, k) by { if dotted(w, k) { assert(digit(w[k])); } } }
  if q is Frac || q is Dot { let k = choose|k: int| dotted(w, k); assert(digit(w[0])); assert(!digit(w[k]));
    if q is Dot { assert forall|j: int| dotted(w, j) implies j == w.len() - 1 by { if j != w.len() - 1 { assert(digit(w[w.len() - 1])); } } } }
  if q is Blank || q is Id { assert(w[0] == w[0]); }
}
pub proof fn live(q: Q, w: Seq<char>)
  requires at(q, w),
  ensures viable(w),
{
  let v: Seq<char> = match q { Q::Start => seq!['='], Q::Dot => seq!['0'], Q::Eq2 => seq!['='], _ => seq![] };
  if q is Dot { assert(dotted(w + v, w.len() - 1)); }
  if q is Frac { let k = choose|k: int| dotted(w, k) && k < w.len() - 1; assert(dotted(w + v, k)); }
  let t: nat = match q { Q::Start => 6, Q::Dot => 4, Q::Eq2 => 7, Q::Blank => 0, Q::I => 3, Q::If => 1, Q::Id => 3, Q::Int => 4, Q::Frac => 4, Q::Eq1 => 6, Q::Eq3 => 7, Q::Com => 8 };
  if v.len() == 0 { assert(w + v =~= w); }
  assert(lang(t, w + v));
}
pub proof fn steps(q: Q, w: Seq<char>, c: char)
  requires at(q, w),
  ensures match delta(q, c) { Some(p) => at(p, w.push(c)), None => !viable(w.push(c)) },
{
  let u = w.push(c);
  assert(forall|i: int| 0 <= i < w.len() ==> u[i] == #[trigger] w[i]);
  match delta(q, c) {
    Some(p) => {
      if q is Int && p is Dot { assert(dotted(u, u.len() - 1)); }
      if q is Dot { assert(dotted(u, w.len() - 1)); }
      if q is Frac { let k = choose|k: int| dotted(w, k) && k < w.len() - 1; assert(dotted(u, k)); }
    }
    None => {
      if viable(u) {
        let (t, v) = choose|t: nat, v: Seq<char>| t < 9 && #[trigger] lang(t, u + v);
        let x = u + v;
        assert(forall|i: int| 0 <= i < u.len() ==> x[i] == u[i]);
        let n = w.len() as int;
        assert(x[n] == c);
        assert(n > 0 ==> x[0] == w[0]);
        assert(n > 1 ==> x[1] == w[1]);
        if t == 4 && exists|k: int| #[trigger] dotted(x, k) {
          let k = choose|k: int| #[trigger] dotted(x, k);
          if q is Dot || q is Frac { let j = choose|j: int| dotted(w, j); assert(x[j] == '.'); }
          if k != 0 { assert(digit(x[0])); }
        }
        if t == 4 { assert(digit(x[0])); }
        assert(false);
      }
    }
  }
}
//@ certificate states l L char Start= Blank=\n I=i If=if Id=a Int=0 Dot=0. Frac=0.0 Eq1== Eq2=== Eq3==== Com=#

/// What a definition makes of the matched text.
pub open spec fn result_of(t: nat, w: Seq<char>, sp: Span) -> Result<TokenResult> {
  if t == 0 || t == 8 { Ok(TokenResult::Skip) }
  else if t == 1 { Ok(TokenResult::Token(super::Token { kind: L::If, span: sp })) }
  else if t == 3 { match word_of(w) { Some(v) => Ok(TokenResult::Token(super::Token { kind: L::Word(v), span: sp })), None => Err(Error::Normal) } }
  else if t == 4 { match num_of(w) { Some(v) => Ok(TokenResult::Token(super::Token { kind: L::Num(v), span: sp })), None => Err(Error::Normal) } }
  else if t == 6 { Ok(TokenResult::Token(super::Token { kind: L::Assign(), span: sp })) }
  else if t == 7 { Ok(TokenResult::Token(super::Token { kind: L::Same, span: sp })) }
  else { Ok(TokenResult::Unknown) }
}
/// At the end of the input.
pub open spec fn at_end(sp: Span) -> Result<super::Token<L>> { Ok(super::Token { kind: L::End, span: sp }) }
//@ include lexloop.inc.rs MOD=l KIND=L SYM=char
}
pub mod b {
use super::*;
broadcast use is::is_lemmas;
#[verifier::external_body]
pub struct Chunk { _p: u8 }
pub uninterp spec fn chunk_of(s: Seq<u8>) -> Option<Chunk>;
#[verifier::external_body]
fn to_chunk(s: &Vec<u8>) -> (r: Option<Chunk>) ensures r == chunk_of(s@) { unimplemented!() }
//@ item gen mod l >> enum B
//@ end
pub open spec fn letter(c: u8) -> bool { 97 <= c <= 122 || c == 127 }
pub open spec fn digit(c: u8) -> bool { 48 <= c <= 57 }
pub open spec fn lang(t: nat, w: Seq<u8>) -> bool {
  if t == 0 { w.len() > 0 && forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] <= 32 }
  else if t == 1 { w.len() == 2 && w[0] == 97 && w[1] == 98 }
  else if t == 2 { w.len() > 0 && forall|i: int| 0 <= i < w.len() ==> letter(#[trigger] w[i]) }
  else { t == 3 && 2 <= w.len() <= 3 && w[0] == 0xce && w[1] == 0xa9 && (w.len() == 3 ==> digit(w[2])) }
}
/// The first definition that matches.
pub open spec fn first(w: Seq<u8>) -> Option<nat> {
  if lang(0, w) { Some(0) } else if lang(1, w) { Some(1) } else if lang(2, w) { Some(2) } else if lang(3, w) { Some(3) } else { None }
}
/// Some definition has a continuation.
pub open spec fn viable(w: Seq<u8>) -> bool { exists|t: nat, v: Seq<u8>| t < 4 && #[trigger] lang(t, w + v) }
pub enum Q { Start, Pad, A, Ab, Word, Half, Whole, Digit }
/// The texts that lead to a state.
pub open spec fn at(q: Q, w: Seq<u8>) -> bool {
  match q {
    Q::Start => w.len() == 0,
    Q::Pad => lang(0, w),
    Q::A => w.len() == 1 && w[0] == 97,
    Q::Ab => lang(1, w),
    Q::Word => lang(2, w) && !lang(1, w) && !(w.len() == 1 && w[0] == 97),
    Q::Half => w.len() == 1 && w[0] == 0xce,
    Q::Whole => w.len() == 2 && lang(3, w),
    Q::Digit => w.len() == 3 && lang(3, w),
  }
}
pub open spec fn delta(q: Q, c: u8) -> Option<Q> {
  match q {
    Q::Start => if c <= 32 { Some(Q::Pad) } else if c == 97 { Some(Q::A) } else if letter(c) { Some(Q::Word) } else if c == 0xce { Some(Q::Half) } else { None },
    Q::Pad => if c <= 32 { Some(Q::Pad) } else { None },
    Q::A => if c == 98 { Some(Q::Ab) } else if letter(c) { Some(Q::Word) } else { None },
    Q::Ab | Q::Word => if letter(c) { Some(Q::Word) } else { None },
    Q::Half => if c == 0xa9 { Some(Q::Whole) } else { None },
    Q::Whole => if digit(c) { Some(Q::Digit) } else { None },
    Q::Digit => None,
  }
}
pub open spec fn acc(q: Q) -> Option<nat> {
  match q { Q::Pad => Some(0), Q::Ab => Some(1), Q::A | Q::Word => Some(2), Q::Whole | Q::Digit => Some(3), Q::Start | Q::Half => None }
}
/// The automaton is right: a state accepts for the first definition that matches, and goes on exactly while some definition has a continuation.
pub proof fn accepts(q: Q, w: Seq<u8>)
  requires at(q, w),
  ensures acc(q) == first(w),
{
  if w.len() > 0 { assert(w[0] == w[0]); }
}
pub proof fn live(q: Q, w: Seq<u8>)
  requires at(q, w),
  ensures viable(w),
{
  let v: Seq<u8> = match q { Q::Start => seq![0u8], Q::Half => seq![0xa9u8], _ => seq![] };
  let t: nat = match q { Q::Start | Q::Pad => 0, Q::A | Q::Ab | Q::Word => 2, _ => 3 };
  if v.len() == 0 { assert(w + v =~= w); }
  assert(lang(t, w + v));
}
pub proof fn steps(q: Q, w: Seq<u8>, c: u8)
  requires at(q, w),
  ensures match delta(q, c) { Some(p) => at(p, w.push(c)), None => !viable(w.push(c)) },
{
  let u = w.push(c);
  assert(forall|i: int| 0 <= i < w.len() ==> u[i] == #[trigger] w[i]);
  if delta(q, c) is None && viable(u) {
    let (t, v) = choose|t: nat, v: Seq<u8>| t < 4 && #[trigger] lang(t, u + v);
    let x = u + v;
    let n = w.len() as int;
    assert(x[n] == c);
    assert(n > 0 ==> x[0] == w[0]);
    assert(n > 1 ==> x[1] == w[1]);
    assert(false);
  }
}
//@ certificate states l B u8 Start= Pad=\x00 A=a Ab=ab Word=b Half=\xce Whole=\xce\xa9 Digit=\xce\xa90

/// What a definition makes of the matched text.
pub open spec fn result_of(t: nat, w: Seq<u8>, sp: Span) -> Result<TokenResult> {
  if t == 0 { Ok(TokenResult::Skip) }
  else if t == 1 { match chunk_of(w) { Some(v) => Ok(TokenResult::Token(super::Token { kind: B::Ab(v), span: sp })), None => Err(Error::Normal) } }
  else if t == 2 { match chunk_of(w) { Some(v) => Ok(TokenResult::Token(super::Token { kind: B::Word(v), span: sp })), None => Err(Error::Normal) } }
  else if t == 3 { match chunk_of(w) { Some(v) => Ok(TokenResult::Token(super::Token { kind: B::Greek(v), span: sp })), None => Err(Error::Normal) } }
  else { Ok(TokenResult::Unknown) }
}
/// At the end of the input: there is no end token.
pub open spec fn at_end(sp: Span) -> Result<super::Token<B>> { Err(Error::Normal) }
//@ include lexloop.inc.rs MOD=l KIND=B SYM=u8
}
}
fn main() {}
