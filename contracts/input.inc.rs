//@ rewrite Result::map with a closure to match :: $i_x.next_char_loc().map(|$p| $r) ==> match $i_x.next_char_loc() { Ok($p) => Ok($r), Err(e_) => Err(e_) }
//@ rewrite FnMut predicate to Fn :: FnMut ==> Fn
//@ rewrite Option::map_or with a closure to match :: self.peek()?.map_or($d, |$i_c| $r) ==> (match self.peek()? { Some($i_c) => $r, None => $d })
//@ assume the predicate given to skip_until and collect_until is a function of the symbol alone (F: Fn instead of F: FnMut; stated in C13)
//@ assume cloning a symbol yields an equal symbol (precondition clone_ok)
#[verifier::external_body]
fn unreached_<T>() -> T requires false { unimplemented!() }
pub type Result<T> = core::result::Result<T, Error>;
pub mod is {
use super::*;
/// An input stream: symbols still to come, whether they end in something unreadable, the location, failures of the source so far.
pub ghost struct Is<C> { pub rest: Seq<C>, pub bad: bool, pub here: Span, pub fails: nat }

/// The location after n of the symbols.
pub open spec fn loc_at<C>(f: spec_fn(C) -> bool, s: Seq<C>, l: Location, n: nat) -> Location
  decreases n,
{
  if n == 0 { l } else { step(loc_at(f, s, l, (n - 1) as nat), f(s[n - 1])) }
}
pub open spec fn spot(sp: Span, l: Location) -> Span { Span { status: sp.status, start: l, end: l } }
/// Lines and columns of the whole input stay within u32.
pub open spec fn roomy<C>(f: spec_fn(C) -> bool, s: Seq<C>, l: Location) -> bool {
  forall|n: nat| n < s.len() ==> room(#[trigger] loc_at(f, s, l, n))
}
pub open spec fn sane<C>(f: spec_fn(C) -> bool, a: Is<C>) -> bool { a.here.start == a.here.end && roomy(f, a.rest, a.here.start) }
/// After n of the symbols.
pub open spec fn after<C>(f: spec_fn(C) -> bool, a: Is<C>, n: nat) -> Is<C> {
  Is { rest: a.rest.skip(n as int), here: spot(a.here, loc_at(f, a.rest, a.here.start, n)), ..a }
}
/// A read that failed: for good at something unreadable, or the source failed; nothing is lost.
pub open spec fn failed<C>(a: Is<C>, b: Is<C>) -> bool {
  (a.rest.len() == 0 && a.bad && b == a) || b == Is { fails: a.fails + 1, ..a }
}
pub open spec fn read_one<C>(f: spec_fn(C) -> bool, a: Is<C>, r: Result<(Option<C>, Location)>, b: Is<C>) -> bool {
  match r {
    Ok((Some(c), l)) => a.rest.len() > 0 && c == a.rest[0] && l == a.here.start && b == after(f, a, 1),
    Ok((None, l)) => a.rest.len() == 0 && !a.bad && l == a.here.start && b == a,
    Err(_) => failed(a, b),
  }
}
pub open spec fn peeked<C>(a: Is<C>, r: Result<Option<C>>, b: Is<C>) -> bool {
  match r {
    Ok(Some(c)) => a.rest.len() > 0 && c == a.rest[0] && b == a,
    Ok(None) => a.rest.len() == 0 && !a.bad && b == a,
    Err(_) => failed(a, b),
  }
}
/// The span of the symbol that comes next, or of where the input ends.
pub open spec fn next_sp<C>(f: spec_fn(C) -> bool, a: Is<C>) -> Span {
  if a.rest.len() > 0 { spot(a.here, step(a.here.start, f(a.rest[0]))) } else { a.here }
}
pub open spec fn put_back<C>(a: Is<C>, last: (Option<C>, Location)) -> Is<C> {
  Is { rest: if last.0 is Some { seq![last.0->0] + a.rest } else { a.rest }, here: spot(a.here, last.1), ..a }
}
pub open spec fn clone_ok<T: Clone>() -> bool { forall|a: &T, b: T| #[trigger] call_ensures(T::clone, (a,), b) ==> b == *a }

pub proof fn loc_skip<C>(f: spec_fn(C) -> bool, s: Seq<C>, l: Location, k: nat, n: nat)
  requires k + n <= s.len(),
  ensures loc_at(f, s.skip(k as int), loc_at(f, s, l, k), n) == loc_at(f, s, l, k + n),
  decreases n,
{
  if n > 0 { loc_skip(f, s, l, k, (n - 1) as nat); assert(s.skip(k as int)[n - 1] == s[k + n - 1]); }
}
/// What is still to come after k symbols has room as well.
pub broadcast proof fn sane_after<C>(f: spec_fn(C) -> bool, a: Is<C>, k: nat)
  requires sane(f, a), k <= a.rest.len(),
  ensures #[trigger] sane(f, after(f, a, k)),
{
  let b = after(f, a, k);
  assert forall|n: nat| n < b.rest.len() implies room(#[trigger] loc_at(f, b.rest, b.here.start, n)) by { loc_skip(f, a.rest, a.here.start, k, n); }
}
pub broadcast proof fn after_after<C>(f: spec_fn(C) -> bool, a: Is<C>, k: nat, n: nat)
  requires k + n <= a.rest.len(),
  ensures #[trigger] after(f, after(f, a, k), n) == after(f, a, k + n),
{
  loc_skip(f, a.rest, a.here.start, k, n);
  assert(a.rest.skip(k as int).skip(n as int) =~= a.rest.skip((k + n) as int));
}
pub broadcast proof fn after_none<C>(f: spec_fn(C) -> bool, a: Is<C>)
  requires a.here.start == a.here.end,
  ensures #[trigger] after(f, a, 0) == a,
{
  assert(a.rest.skip(0) =~= a.rest);
}
pub proof fn loc_one<C>(f: spec_fn(C) -> bool, s: Seq<C>, l: Location)
  ensures loc_at(f, s, l, 0) == l, loc_at(f, s, l, 1) == step(l, f(s[0])),
{
  reveal_with_fuel(loc_at, 3);
}
/// Line feeds among the first n symbols, and the place of the last of them (-1: none).
pub open spec fn feeds_in<C>(f: spec_fn(C) -> bool, s: Seq<C>, n: nat) -> nat
  decreases n,
{
  if n == 0 { 0 } else { feeds_in(f, s, (n - 1) as nat) + if f(s[n - 1]) { 1nat } else { 0 } }
}
pub open spec fn last_feed<C>(f: spec_fn(C) -> bool, s: Seq<C>, n: nat) -> int
  decreases n,
{
  if n == 0 { -1 } else if f(s[n - 1]) { n - 1 } else { last_feed(f, s, (n - 1) as nat) }
}
/// Lines and columns count exactly.
pub proof fn counts<C>(f: spec_fn(C) -> bool, s: Seq<C>, l: Location, n: nat)
  requires roomy(f, s, l), n <= s.len(),
  ensures
    loc_at(f, s, l, n).line == l.line + feeds_in(f, s, n),
    loc_at(f, s, l, n).col == if last_feed(f, s, n) < 0 { l.col + n } else { n - 1 - last_feed(f, s, n) },
    -1 <= last_feed(f, s, n) < n,
  decreases n,
{
  if n > 0 { counts(f, s, l, (n - 1) as nat); assert(room(loc_at(f, s, l, (n - 1) as nat))); }
}
/// Putting back what was read restores the stream.
pub broadcast proof fn back_again<C>(f: spec_fn(C) -> bool, a: Is<C>, last: (Option<C>, Location))
  requires a.here.start == a.here.end, a.rest.len() > 0, last == (Some(a.rest[0]), a.here.start),
  ensures #[trigger] put_back(after(f, a, 1), last) == a,
{
  assert(seq![a.rest[0]] + a.rest.skip(1) =~= a.rest);
}
/// ... and several items in reverse order.
pub proof fn back_n<C>(f: spec_fn(C) -> bool, a: Is<C>, n: nat)
  requires a.here.start == a.here.end, 0 < n <= a.rest.len(),
  ensures put_back(after(f, a, n), (Some(a.rest[n - 1]), loc_at(f, a.rest, a.here.start, (n - 1) as nat))) == after(f, a, (n - 1) as nat),
{
  assert(seq![a.rest[n - 1]] + a.rest.skip(n as int) =~= a.rest.skip(n - 1));
}
pub broadcast proof fn after_one<C>(f: spec_fn(C) -> bool, a: Is<C>)
  ensures #[trigger] after(f, a, 1) == (Is { rest: a.rest.skip(1), here: spot(a.here, step(a.here.start, f(a.rest[0]))), ..a }),
{
  loc_one(f, a.rest, a.here.start);
}
pub broadcast proof fn sane_room<C>(f: spec_fn(C) -> bool, a: Is<C>)
  requires #[trigger] sane(f, a), a.rest.len() > 0,
  ensures room(a.here.start),
{
  assert(loc_at(f, a.rest, a.here.start, 0) == a.here.start);
}
pub broadcast group is_lemmas { sane_after, after_after, after_none, back_again, after_one, sane_room }
}
pub use is::*;
