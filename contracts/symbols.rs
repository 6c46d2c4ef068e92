use vstd::prelude::*;
verus! {
//@ assume char::from_u32_unchecked, for a Unicode scalar value, is the character of that number (standard library)
//@ rewrite match on a reference to a literal :: match self $b ==> match *self $b
//@ rewrite bool::then to if :: (*self != $e).then(|| self - 1) ==> if *self != $e { Some(*self - 1) } else { None }
//@ rewrite bool::then to if :: (*self != $e).then(|| self + 1) ==> if *self != $e { Some(*self + 1) } else { None }

/// Place of a symbol in the order of its type.
pub trait Ordered: Sized { spec fn ord(self) -> int; }
impl Ordered for char { open spec fn ord(self) -> int { self as int } }
impl Ordered for u8 { open spec fn ord(self) -> int { self as int } }

pub open spec fn scalar(n: int) -> bool { 0 <= n <= 0xd7ff || 0xe000 <= n <= 0x10ffff }
pub assume_specification [char::from_u32_unchecked] (n: u32) -> (r: char)
  requires scalar(n as int),
  ensures r as int == n;

pub assume_specification [char::from_u32] (n: u32) -> (r: Option<char>)
  ensures scalar(n as int) ==> r is Some && r->0 as int == n, !scalar(n as int) ==> r is None;
pub open spec fn is_next<S: Ordered>(s: S, r: Option<S>) -> bool {
  match r {
    Some(n) => s.ord() < n.ord() && forall|x: S| !(s.ord() < #[trigger] x.ord() < n.ord()),
    None => forall|x: S| #[trigger] x.ord() <= s.ord(),
  }
}
pub open spec fn is_prev<S: Ordered>(s: S, r: Option<S>) -> bool {
  match r {
    Some(n) => n.ord() < s.ord() && forall|x: S| !(n.ord() < #[trigger] x.ord() < s.ord()),
    None => forall|x: S| #[trigger] x.ord() >= s.ord(),
  }
}
//@ item laps_regex/src/mir.rs trait SymbolOp
//@ header pub trait SymbolOp: Ordered
//@ fn prev
    ensures is_prev(*self, r),
//@ fn next
    ensures is_next(*self, r),
//@ end
//@ item laps_regex/src/mir.rs impl SymbolOp for char props=C05
//@ fn prev
//@ fn next
//@ end
//@ item laps_regex/src/mir.rs impl SymbolOp for u8 props=C05
//@ fn prev
//@ fn next
//@ end

/// The two operations are inverse to each other wherever they are defined.
proof fn inverse_char(a: char, b: char)
  ensures is_next(a, Some(b)) <==> is_prev(b, Some(a)),
{ }
proof fn inverse_u8(a: u8, b: u8)
  ensures is_next(a, Some(b)) <==> is_prev(b, Some(a)),
{ }
}
fn main() {}
