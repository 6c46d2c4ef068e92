#![feature(allocator_api)]
use vstd::prelude::*;
use std::num::ParseIntError;
verus! {
//@ assume str::chars yields the characters of the string; slicing behind ASCII characters drops exactly these (standard library)
//@ assume from_str_radix of the primitive integers, for a non-empty string of digits of the radix, answers their value exactly when it fits; wrapping_neg is negation modulo 2^bits (standard library)
//@ assume char::to_digit, is_digit, is_ascii_digit, from_u32 and `as char` follow their documentation (standard library)
//@ rewrite slice of a string :: &s[$e..] ==> tail_(s, $e)
//@ rewrite iterator of the characters of a string :: $i_s.chars() ==> chars_($i_s)
//@ rewrite substring test :: $l_a.contains($i_c) ==> has_($l_a, $i_c)
//@ rewrite unreachable!() to a function that requires false :: unreachable!() ==> unreached_()
//@ rewrite closure with its contract :: .all(|$i_c| $i_d.is_digit($r)) ==> .all_digits($r)
//@ rewrite Option::map with a closure to match :: int_literal(tail_(s, $a)).map(|n: T| $e) ==> match int_literal(tail_(s, $a)) { Some(n) => { let n: T = n; Some($e) } None => None }
//@ rewrite Option::zip and map with closures to match :: let c = $e.zip($f).map(|($i_a, $i_b)| $r); ==> let c = { let a_ = $e; let b_ = $f; match (a_, b_) { (Some($i_a), Some($i_b)) => Some($r), _ => None } };
//@ rewrite closure with its contract :: .and_then(|$i_c| $i_d.to_digit($r)) ==> .and_then(|$i_c: char| -> (o: Option<u32>) ensures o == dig($i_c, $r) { $i_d.to_digit($r) })
//@ rewrite Option::and_then with a function to match :: $i_h.and_then(char::from_u32) ==> (match $i_h { Some(v_) => char::from_u32(v_), None => None })
//@ rewrite bool::then_some to if :: $i_x.next().is_none().then_some($v) ==> if $i_x.next().is_none() { Some($v) } else { None }
//@ rewrite bool::then_some to if, comparison of pairs of options :: (($a, $b) == ($c, $d)).then_some($v) ==> { let a_ = $a; let b_ = $b; if is_(a_, $c) && is_(b_, $d) { Some($v) } else { None } }
//@ rewrite for over an iterator to while let :: for $i_c in iter $b ==> while let Some($i_c) = iter.next() $b
//@ rewrite iterator of characters with a contract :: Iterator<Item = char> ==> CharIter
//@ rewrite comparison with a character option :: iter.next() != Some($c) ==> !is_(iter.next(), Some($c))
//@ rewrite sealing bound dropped :: + sealed_traits::SealedIntLiteral ==>

// ------------------------------------------------------------ strings

pub mod sk { use vstd::prelude::*;
pub broadcast proof fn skip_skip(s: Seq<char>, i: int, j: int)
  requires 0 <= i, 0 <= j, i + j <= s.len(),
  ensures #[trigger] s.skip(i).skip(j) == s.skip(i + j),
{ assert(s.skip(i).skip(j) =~= s.skip(i + j)); }
}
broadcast use sk::skip_skip;

#[verifier::external_body]
fn unreached_<T>() -> T requires false { unimplemented!() }
#[verifier::external_body]
fn tail_(s: &str, n: usize) -> (r: &str)
  requires n <= s@.len(), forall|i: int| 0 <= i < n ==> (#[trigger] s@[i]) as u32 <= 127,
  ensures r@ == s@.skip(n as int),
{ unimplemented!() }
#[verifier::external_body]
fn has_(s: &str, c: char) -> (r: bool) ensures r == s@.contains(c) { unimplemented!() }
fn is_(a: Option<char>, b: Option<char>) -> (r: bool) ensures r == (a == b) { match (a, b) { (Some(x), Some(y)) => x == y, (None, None) => true, _ => false } }
pub trait CharIter {
  spec fn rest(&self) -> Seq<char>;
  fn next(&mut self) -> (r: Option<char>)
    ensures
      old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
      old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest();
}
#[verifier::external_body]
pub struct Chars_<'a> { p: &'a u8 }
impl<'a> Chars_<'a> {
  fn all_digits(&mut self, radix: u32) -> (r: bool)
    requires 2 <= radix <= 36,
    ensures r == forall|i: int| 0 <= i < old(self).rest().len() ==> dig(#[trigger] old(self).rest()[i], radix) is Some,
  {
    let ghost a = self.rest();
    let ghost mut k: nat = 0;
    proof { assert(a.skip(0) =~= a); }
    loop
      invariant
        2 <= radix <= 36, k <= a.len(), self.rest() == a.skip(k as int), a == old(self).rest(),
        forall|i: int| 0 <= i < k ==> dig(#[trigger] a[i], radix) is Some,
      ensures k == a.len(),
      decreases a.len() - k,
    {
      match self.next() {
        None => break,
        Some(c) => {
          proof { assert(c == a[k as int]); }
          if !c.is_digit(radix) { return false; }
          proof { assert(a.skip(k as int).skip(1) =~= a.skip(k as int + 1)); k = k + 1; }
        }
      }
    }
    true
  }
}
impl<'a> CharIter for Chars_<'a> {
  uninterp spec fn rest(&self) -> Seq<char>;
  #[verifier::external_body]
  fn next(&mut self) -> (r: Option<char>) { unimplemented!() }
}
#[verifier::external_body]
fn chars_(s: &str) -> (r: Chars_<'_>) ensures r.rest() == s@ { unimplemented!() }

// ------------------------------------------------------------ characters

/// The digit a character is in a base.
pub open spec fn dig(c: char, radix: u32) -> Option<u32> {
  let n = c as int;
  let d = if 48 <= n <= 57 { n - 48 } else if 97 <= n <= 122 { n - 87 } else if 65 <= n <= 90 { n - 55 } else { 99 };
  if d < radix { Some(d as u32) } else { None }
}
pub assume_specification [char::to_digit] (c: char, radix: u32) -> (r: Option<u32>) requires 2 <= radix <= 36 ensures r == dig(c, radix);
pub assume_specification [char::is_digit] (c: char, radix: u32) -> (r: bool) requires 2 <= radix <= 36 ensures r == (dig(c, radix) is Some);
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == (dig(*c, 10) is Some);
pub open spec fn scalar(n: int) -> bool { 0 <= n <= 0xd7ff || 0xe000 <= n <= 0x10ffff }
pub assume_specification [char::from_u32] (n: u32) -> (r: Option<char>)
  ensures scalar(n as int) ==> r == Some(n as char), !scalar(n as int) ==> r is None;

// ------------------------------------------------------------ integers

pub open spec fn digits(s: Seq<char>, radix: u32) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> dig(#[trigger] s[i], radix) is Some }
pub open spec fn value(s: Seq<char>, radix: u32) -> int
  decreases s.len(),
{
  if s.len() == 0 { 0 } else { value(s.drop_last(), radix) * radix + dig(s.last(), radix)->0 }
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(ParseIntError);
pub open spec fn fits(v: int, lo: int, hi: int) -> bool { lo <= v <= hi }
/// v modulo the number of values of the type.
pub open spec fn wrapped(v: int, lo: int, hi: int) -> int { (v - lo) % (hi - lo + 1) + lo }
/// The base a text is written in, and the length of its prefix.
pub open spec fn base(s: Seq<char>) -> (u32, int) {
  if s.len() >= 2 && s[0] == '0' && s[1] == 'b' { (2, 2) }
  else if s.len() >= 2 && s[0] == '0' && s[1] == 'o' { (8, 2) }
  else if s.len() >= 2 && s[0] == '0' && s[1] == 'x' { (16, 2) }
  else { (10, 0) }
}
pub open spec fn literal(s: Seq<char>) -> Option<int> {
  let (radix, n) = base(s);
  if digits(s.skip(n), radix) { Some(value(s.skip(n), radix)) } else { None }
}

//@ item src/lexer.rs trait IntLiteral props=C14
//@ ghost
  spec fn val(self) -> int;
  spec fn lo() -> int;
  spec fn hi() -> int;
//@ fn from_str_radix
    requires 2 <= radix <= 36, forall|i: int| 0 <= i < s@.len() ==> dig(#[trigger] s@[i], radix) is Some,
    ensures r is Ok <==> s@.len() > 0 && fits(value(s@, radix), Self::lo(), Self::hi()), r is Ok ==> r->Ok_0.val() == value(s@, radix),
//@ fn wrapping_neg
    ensures r.val() == wrapped(-self.val(), Self::lo(), Self::hi()),
//@ end

//@ include lits.inc.rs
/// What an unsigned literal denotes in a type.
pub open spec fn denotes<T: IntLiteral>(s: Seq<char>, r: Option<T>) -> bool {
  match literal(s) {
    Some(v) => if fits(v, T::lo(), T::hi()) { r is Some && r->0.val() == v } else { r is None },
    None => r is None,
  }
}
//@ item src/lexer.rs fn int_literal props=C14
//@ fn int_literal
    ensures denotes::<T>(s@, r),
//@ entry
    let ghost a = s@;
    proof {
      reveal_strlit("box");
      let b = "box"@;
      assert(b =~= seq!['b', 'o', 'x']);
      assert forall|c: char| #[trigger] b.contains(c) <==> c == 'b' || c == 'o' || c == 'x' by {
        assert(b[0] == 'b' && b[1] == 'o' && b[2] == 'x');
      }
      assert(a.skip(0) =~= a);
      assert(forall|i: int| 2 <= i < a.len() ==> #[trigger] a[i] == a.skip(2)[i - 2]);
      assert(forall|i: int| 0 <= i < a.len() - 2 ==> #[trigger] a.skip(2)[i] == a[i + 2]);
    }
//@ end
//@ item src/lexer.rs fn signed_int_literal props=C14
//@ fn signed_int_literal
    ensures
      s@.len() > 0 && s@[0] == '+' ==> denotes::<T>(s@.skip(1), r),
      s@.len() > 0 && s@[0] == '-' ==> match literal(s@.skip(1)) {
        Some(v) => if fits(v, T::lo(), T::hi()) { r is Some && r->0.val() == wrapped(-v, T::lo(), T::hi()) } else { r is None },
        None => r is None,
      },
      s@.len() > 0 && s@[0] != '+' && s@[0] != '-' ==> denotes::<T>(s@, r),
      s@.len() == 0 ==> r is None,
//@ end

// ------------------------------------------------------------ texts

/// Number of hexadecimal digits at the start.
pub open spec fn nhex(s: Seq<char>) -> nat
  decreases s.len(),
{
  if s.len() == 0 || dig(s[0], 16) is None { 0 } else { 1 + nhex(s.skip(1)) }
}
/// The escape behind `\u{`: the character and the length with the `}`.
pub open spec fn unicode(s: Seq<char>) -> Option<(char, nat)> {
  let n = nhex(s);
  let v = value(s.take(n as int), 16);
  if n > 0 && s.len() > n && s[n as int] == '}' && scalar(v) { Some((v as char, n + 1)) } else { None }
}
/// The first character a text denotes, and the length of what denotes it.
pub open spec fn first(s: Seq<char>, quote: char) -> Option<(char, nat)> {
  if s.len() == 0 || s[0] == quote || s[0] == '\n' || s[0] == '\r' || s[0] == '\t' { None }
  else if s[0] != '\\' { Some((s[0], 1)) }
  else if s.len() == 1 { None }
  else if s[1] == 'r' { Some(('\r', 2)) }
  else if s[1] == 'n' { Some(('\n', 2)) }
  else if s[1] == 't' { Some(('\t', 2)) }
  else if s[1] == '0' { Some(('\0', 2)) }
  else if s[1] == '\\' { Some(('\\', 2)) }
  else if s[1] == '\'' { Some(('\'', 2)) }
  else if s[1] == '"' { Some(('"', 2)) }
  else if s[1] == 'x' {
    if s.len() >= 4 && dig(s[2], 16) is Some && dig(s[3], 16) is Some { Some(((dig(s[2], 16)->0 * 16 + dig(s[3], 16)->0) as char, 4)) } else { None }
  }
  else if s[1] == 'u' && s.len() > 2 && s[2] == '{' {
    match unicode(s.skip(3)) { Some((c, n)) => Some((c, n + 3)), None => None }
  }
  else { None }
}
/// What a text with its closing quote denotes.
pub open spec fn body(s: Seq<char>, quote: char) -> Option<Seq<char>>
  decreases s.len(),
{
  if s.len() > 0 && s[0] == quote { if s.len() == 1 { Some(Seq::empty()) } else { None } }
  else {
    match first(s, quote) {
      Some((c, n)) => if 0 < n <= s.len() { match body(s.skip(n as int), quote) { Some(t) => Some(seq![c] + t), None => None } } else { None },
      None => None,
    }
  }
}
proof fn hex_more(s: Seq<char>, k: nat)
  requires k <= s.len(), forall|i: int| 0 <= i < k ==> dig(#[trigger] s[i], 16) is Some,
  ensures nhex(s) >= k, nhex(s) <= s.len(), nhex(s) == k <==> (s.len() == k || dig(s[k as int], 16) is None),
  decreases s.len(),
{
  if k > 0 { hex_more(s.skip(1), (k - 1) as nat); }
  else if s.len() > 0 && dig(s[0], 16) is Some { hex_more(s.skip(1), 0); }
}
proof fn value_more(s: Seq<char>, k: nat, n: nat)
  requires k <= n <= s.len(), forall|i: int| 0 <= i < k ==> dig(#[trigger] s[i], 16) is Some,
  ensures 0 <= value(s.take(k as int), 16) <= value(s.take(n as int), 16),
  decreases n,
{
  if k < n {
    value_more(s, k, (n - 1) as nat);
    assert(s.take(n as int).drop_last() =~= s.take(n - 1));
  } else if k > 0 {
    value_more(s, (k - 1) as nat, (k - 1) as nat);
    assert(s.take(k as int).drop_last() =~= s.take(k - 1));
  }
}
//@ item src/lexer.rs enum ParseResult
//@ end
pub open spec fn item_read(s: Seq<char>, quote: char, r: ParseResult, z: Seq<char>) -> bool {
  match r {
    ParseResult::Char(c) => first(s, quote) is Some && (first(s, quote)->0).0 == c && z == s.skip((first(s, quote)->0).1 as int) && 0 < (first(s, quote)->0).1 <= s.len(),
    ParseResult::Quote => s.len() > 0 && s[0] == quote && z == s.skip(1),
    ParseResult::Error => !(s.len() > 0 && s[0] == quote) && first(s, quote) is None,
  }
}
//@ item src/lexer.rs fn parse_char_literal props=C15
//@ fn parse_char_literal attr=loop_isolation(false)+allow_complex_invariants
    requires quote == '"' || quote == '\'',
    ensures item_read(old(iter).rest(), quote, r, final(iter).rest()),
//@ entry
    let ghost a = iter.rest();
    let ghost mut k: nat = 0;
    proof { assert(a.skip(0) =~= a); }
//@ loop 0
    invariant
      3 + k <= a.len(), iter.rest() == a.skip(3 + k as int), a[0] == '\\', a[1] == 'u', a[2] == '{',
      forall|i: int| 0 <= i < k ==> dig(#[trigger] a.skip(3)[i], 16) is Some,
      k == 0 ==> $let3 is None,
      k > 0 ==> $let3 is Some && $let3->0 == value(a.skip(3).take(k as int), 16),
    ensures first(a, quote) is None,
    decreases iter.rest().len(),
//@ loopbody 0
    proof {
      let d = a.skip(3);
      assert(c == d[k as int]);
      hex_more(d, k);
      if dig(c, 16) is Some {
        assert(d.take(k as int + 1).drop_last() =~= d.take(k as int));
        assert(value(d.take(k as int + 1), 16) == value(d.take(k as int), 16) * 16 + dig(c, 16)->0);
        assert(forall|i: int| 0 <= i < k + 1 ==> dig(#[trigger] d[i], 16) is Some);
        hex_more(d, k + 1);
        value_more(d, k + 1, nhex(d));
        k = k + 1;
      }
    }
//@ end
//@ item src/lexer.rs fn char_literal props=C15
//@ fn char_literal
    ensures
      r is Some ==> s@.len() > 0 && s@[0] == '\'' && body(s@.skip(1), '\'') == Some(seq![r->0]),
      r is None ==> !(s@.len() > 0 && s@[0] == '\'' && body(s@.skip(1), '\'') is Some && (body(s@.skip(1), '\'')->0).len() == 1),
//@ entry
    let ghost a = s@.skip(1);
    proof {
      reveal_with_fuel(body, 3);
      assert(forall|c: char, t: Seq<char>| (#[trigger] (seq![c] + t)).len() == 1 + t.len());
      assert(forall|c: char| #[trigger] seq![c] =~= seq![c] + Seq::<char>::empty());
      assert(forall|c: char, t: Seq<char>| t.len() == 0 ==> #[trigger] (seq![c] + t) =~= seq![c]);
    }
//@ end
//@ item src/lexer.rs fn str_literal props=C15
//@ fn str_literal attr=loop_isolation(false)+allow_complex_invariants
    ensures
      r is Some ==> s@.len() > 0 && s@[0] == '"' && body(s@.skip(1), '"') == Some(r->0@),
      r is None ==> !(s@.len() > 0 && s@[0] == '"' && body(s@.skip(1), '"') is Some),
//@ entry
    let ghost a = s@;
//@ loop 0
    invariant_except_break
      chars.rest().len() < a.len(),
      body(a.skip(1), '"') == match body(chars.rest(), '"') { Some(t) => Some(s@ + t), None => None },
    ensures body(a.skip(1), '"') == if chars.rest().len() == 0 { Some(s@) } else { None },
    decreases chars.rest().len(),
//@ end
}
fn main() {}
