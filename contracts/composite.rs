#![feature(allocator_api)]
use vstd::prelude::*;
use std::marker::PhantomData;
verus! {
//@ include fmt.inc.rs
//@ item src/span.rs enum Error
//@ end
//@ include span.inc.rs
//@ assume the span of a component type satisfies the contract of its trait
//@ assume values of the types documented as non-empty are non-empty (their parsers make no others: C19)
//@ rewrite the receiver of find_map is the vector's iterator with a contract :: .iter() ==> .items()
//@ rewrite closure with its contract :: find_map(|x| x.try_span()) ==> find_map(|x: &T| -> (o: Option<Span>) requires x.try_wf() ensures o == x.try_sp() { x.try_span() })
//@ rewrite closure with its contract :: .as_ref().and_then(|x| x.try_span()) ==> .as_ref().and_then(|x: &T| -> (o: Option<Span>) requires x.try_wf() ensures o == x.try_sp() { x.try_span() })
//@ rewrite recursion through the implementation for Box written out :: Self::More($i_t, $i_s, $i_l) => $a($i_l.span()) ==> Self::More($i_t, $i_s, $i_l) => $a((**$i_l).span())

//@ include spanfns.inc.rs

//@ item src/span.rs trait Spanned
//@ ghost
  /// The span of the value.
  spec fn sp(&self) -> Span;
  /// Non-empty, where the type promises it.
  spec fn wf(&self) -> bool;
//@ fn span
    requires self.wf(),
    ensures r == self.sp(),
//@ end
//@ item src/span.rs trait TrySpan
//@ ghost
  spec fn try_sp(&self) -> Option<Span>;
  spec fn try_wf(&self) -> bool;
//@ fn try_span
    requires self.try_wf(),
    ensures r == self.try_sp(),
//@ end

// ------------------------------------------------------------ first and last present part

pub open spec fn first_of<T: TrySpan>(s: Seq<T>) -> Option<Span>
  decreases s.len(),
{
  if s.len() == 0 { None } else if s[0].try_sp() is Some { s[0].try_sp() } else { first_of(s.drop_first()) }
}
pub open spec fn last_of<T: TrySpan>(s: Seq<T>) -> Option<Span>
  decreases s.len(),
{
  if s.len() == 0 { None } else if s.last().try_sp() is Some { s.last().try_sp() } else { last_of(s.drop_last()) }
}
/// From the first present part to the last one.
pub open spec fn all_of<T: TrySpan>(s: Seq<T>) -> Option<Span> {
  match (first_of(s), last_of(s)) { (Some(a), Some(b)) => Some(joined(a, b)), _ => None }
}
pub proof fn first_at<T: TrySpan>(s: Seq<T>, i: int)
  requires 0 <= i < s.len(), s[i].try_sp() is Some, forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).try_sp() is None,
  ensures first_of(s) == s[i].try_sp(),
  decreases i,
{
  if i > 0 {
    assert(s[0].try_sp() is None);
    assert forall|j: int| 0 <= j < i - 1 implies (#[trigger] s.drop_first()[j]).try_sp() is None by { assert(s.drop_first()[j] == s[j + 1]); }
    first_at(s.drop_first(), i - 1);
  }
}
pub proof fn last_at<T: TrySpan>(s: Seq<T>, i: int)
  requires 0 <= i < s.len(), s[i].try_sp() is Some, forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).try_sp() is None,
  ensures last_of(s) == s[i].try_sp(),
  decreases s.len() - i,
{
  if i < s.len() - 1 {
    assert(s[s.len() - 1].try_sp() is None);
    assert forall|j: int| i < j < s.len() - 1 implies (#[trigger] s.drop_last()[j]).try_sp() is None by { assert(s.drop_last()[j] == s[j]); }
    last_at(s.drop_last(), i);
  }
}
pub proof fn none_at<T: TrySpan>(s: Seq<T>)
  requires forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).try_sp() is None,
  ensures first_of(s) is None, last_of(s) is None,
  decreases s.len(),
{
  if s.len() > 0 {
    assert(s[0].try_sp() is None);
    assert(s[s.len() - 1].try_sp() is None);
    assert forall|j: int| 0 <= j < s.len() - 1 implies (#[trigger] s.drop_first()[j]).try_sp() is None by { assert(s.drop_first()[j] == s[j + 1]); }
    assert forall|j: int| 0 <= j < s.len() - 1 implies (#[trigger] s.drop_last()[j]).try_sp() is None by { assert(s.drop_last()[j] == s[j]); }
    none_at(s.drop_first());
    none_at(s.drop_last());
  }
}

pub proof fn parts<T: TrySpan>(s: Seq<T>)
  ensures
    forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).try_sp() is Some && (forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).try_sp() is None) ==> first_of(s) == s[i].try_sp(),
    forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).try_sp() is Some && (forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).try_sp() is None) ==> last_of(s) == s[i].try_sp(),
    (forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).try_sp() is None) ==> first_of(s) is None && last_of(s) is None,
{
  assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).try_sp() is Some && (forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).try_sp() is None) implies first_of(s) == s[i].try_sp() by { first_at(s, i); }
  assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).try_sp() is Some && (forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).try_sp() is None) implies last_of(s) == s[i].try_sp() by { last_at(s, i); }
  if forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).try_sp() is None { none_at(s); }
}

// ------------------------------------------------------------ the iterator calls used

/// The vector's iterator as far as it is used: forwards or backwards, first answer of a function.
pub struct Items<'a, T> { pub v: &'a Vec<T>, pub back: bool }
pub trait HasItems<T> {
  spec fn all(&self) -> Seq<T>;
  fn items(&self) -> (r: Items<'_, T>) ensures r.v@ == self.all(), !r.back;
}
impl<T> HasItems<T> for Vec<T> {
  open spec fn all(&self) -> Seq<T> { self@ }
  fn items(&self) -> (r: Items<'_, T>) { Items { v: self, back: false } }
}
/// The element the function first answers for, in the order of the iterator.
pub open spec fn found<T, U, F: Fn(&T) -> Option<U>>(s: Seq<T>, back: bool, f: F, r: Option<U>) -> bool {
  match r {
    Some(u) => exists|i: int| 0 <= i < s.len() && f.ensures((&#[trigger] s[i],), Some(u)) && if back { forall|j: int| i < j < s.len() ==> f.ensures((&#[trigger] s[j],), None) } else { forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] s[j],), None) },
    None => forall|j: int| 0 <= j < s.len() ==> f.ensures((&#[trigger] s[j],), None),
  }
}
impl<'a, T> Items<'a, T> {
  pub fn rev(self) -> (r: Self) ensures r.v == self.v, r.back == !self.back { Items { v: self.v, back: !self.back } }
  pub fn find_map<U, F: Fn(&T) -> Option<U>>(&self, f: F) -> (r: Option<U>)
    requires forall|i: int| 0 <= i < self.v@.len() ==> f.requires((&#[trigger] self.v@[i],)),
    ensures found(self.v@, self.back, f, r),
  {
    let n = self.v.len();
    let mut k = 0;
    while k < n
      invariant
        n == self.v@.len(), 0 <= k <= n,
        forall|i: int| 0 <= i < self.v@.len() ==> f.requires((&#[trigger] self.v@[i],)),
        if self.back { forall|j: int| n - k <= j < n ==> f.ensures((&#[trigger] self.v@[j],), None) } else { forall|j: int| 0 <= j < k ==> f.ensures((&#[trigger] self.v@[j],), None) },
      decreases n - k,
    {
      let i = if self.back { n - 1 - k } else { k };
      let x = f(&self.v[i]);
      if x.is_some() { return x; }
      k += 1;
    }
    None
  }
}

// ------------------------------------------------------------ provided types

pub assume_specification<T: ?Sized, A: core::alloc::Allocator> [<Box<T, A> as core::convert::AsRef<T>>::as_ref] (b: &Box<T, A>) -> (r: &T) ensures r == &**b;

//@ item src/span.rs impl Spanned for Box props=C25
//@ ghost
  open spec fn sp(&self) -> Span { (**self).sp() }
  open spec fn wf(&self) -> bool { (**self).wf() }
//@ fn span
//@ end
//@ item src/span.rs impl Spanned for props=C25
//@ ghost
  open spec fn sp(&self) -> Span { self.0.sp() }
  open spec fn wf(&self) -> bool { self.0.wf() }
//@ fn span
//@ end
//@ include spantuples.inc.rs
//@ item src/span.rs impl TrySpan for T props=C25
//@ ghost
  open spec fn try_sp(&self) -> Option<Span> { Some(self.sp()) }
  open spec fn try_wf(&self) -> bool { self.wf() }
//@ fn try_span
//@ end
//@ item src/span.rs impl TrySpan for Option props=C25
//@ ghost
  open spec fn try_sp(&self) -> Option<Span> { match *self { Some(x) => x.try_sp(), None => None } }
  open spec fn try_wf(&self) -> bool { self is Some ==> self->0.try_wf() }
//@ fn try_span
//@ end
//@ item src/span.rs impl TrySpan for Vec props=C25
//@ ghost
  open spec fn try_sp(&self) -> Option<Span> { all_of(self@) }
  open spec fn try_wf(&self) -> bool { forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).try_wf() }
//@ fn try_span
//@ entry
    proof { parts(self@); }
//@ end

//@ item src/token.rs struct Token
//@ end
//@ item src/token.rs impl Spanned for Token props=C25
//@ ghost
  open spec fn sp(&self) -> Span { self.span }
  open spec fn wf(&self) -> bool { true }
//@ fn span
//@ end
//@ item src/ast.rs struct NonEmptySeq
//@ end
//@ item src/ast.rs impl Spanned for NonEmptySeq props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0@[0].sp(), self.0@.last().sp()) }
  open spec fn wf(&self) -> bool { self.0@.len() > 0 && forall|i: int| 0 <= i < self.0@.len() ==> (#[trigger] self.0@[i]).wf() }
//@ fn span
//@ end
//@ item src/ast.rs struct SepSeq
//@ end
//@ item src/ast.rs impl TrySpan for SepSeq props=C25
//@ ghost
  open spec fn try_sp(&self) -> Option<Span> { all_of(self.0@) }
  open spec fn try_wf(&self) -> bool { self.0.try_wf() }
//@ fn try_span
//@ end
//@ item src/ast.rs struct NonEmptySepSeq
//@ end
//@ item src/ast.rs impl Spanned for NonEmptySepSeq props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0@[0].sp(), self.0@.last().sp()) }
  open spec fn wf(&self) -> bool { self.0@.len() > 0 && forall|i: int| 0 <= i < self.0@.len() ==> (#[trigger] self.0@[i]).wf() }
//@ fn span
//@ end
//@ item src/ast.rs struct OptSepSeq
//@ end
//@ item src/ast.rs impl TrySpan for OptSepSeq props=C25
//@ ghost
  open spec fn try_sp(&self) -> Option<Span> { all_of(self.0@) }
  open spec fn try_wf(&self) -> bool { self.0.try_wf() }
//@ fn try_span
//@ end
//@ item src/ast.rs struct NonEmptyOptSepSeq
//@ end
//@ item src/ast.rs impl Spanned for NonEmptyOptSepSeq props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0@[0].sp(), self.0@.last().sp()) }
  open spec fn wf(&self) -> bool { self.0@.len() > 0 && forall|i: int| 0 <= i < self.0@.len() ==> (#[trigger] self.0@[i]).wf() }
//@ fn span
//@ end
//@ item src/ast.rs enum NonEmptySepList
//@ end
impl<T: Spanned, S> NonEmptySepList<T, S> {
  pub open spec fn head(&self) -> T { match *self { Self::One(t) => t, Self::More(t, _, _) => t } }
  pub open spec fn tail(&self) -> T decreases self { match *self { Self::One(t) => t, Self::More(_, _, l) => l.tail() } }
  pub open spec fn every(&self) -> bool decreases self { match *self { Self::One(t) => t.wf(), Self::More(t, _, l) => t.wf() && l.every() } }
}
//@ item src/ast.rs impl Spanned for NonEmptySepList props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.head().sp(), self.tail().sp()) }
  open spec fn wf(&self) -> bool { self.every() }
//@ fn span
    decreases self,
//@ end
//@ item src/ast.rs enum NonEmptyOptSepList
//@ end
impl<T: Spanned, S: Spanned> NonEmptyOptSepList<T, S> {
  pub open spec fn head(&self) -> T { match *self { Self::One(t) => t, Self::OneWithSep(t, _) => t, Self::More(t, _, _) => t } }
  pub open spec fn tail(&self) -> Span decreases self { match *self { Self::One(t) => t.sp(), Self::OneWithSep(_, s) => s.sp(), Self::More(_, _, l) => l.tail() } }
  pub open spec fn every(&self) -> bool decreases self { match *self { Self::One(t) => t.wf(), Self::OneWithSep(t, s) => t.wf() && s.wf(), Self::More(t, _, l) => t.wf() && l.every() } }
}
//@ item src/ast.rs impl Spanned for NonEmptyOptSepList props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.head().sp(), self.tail()) }
  open spec fn wf(&self) -> bool { self.every() }
//@ fn span
    decreases self,
//@ end
//@ item src/ast.rs struct Quoted
//@ end
//@ item src/ast.rs impl Spanned for Quoted props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.2.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.2.wf() }
//@ fn span
//@ end
//@ item src/ast.rs struct OptPrefix
//@ end
//@ item src/ast.rs impl Spanned for OptPrefix props=C25
//@ ghost
  open spec fn sp(&self) -> Span { match self.0 { Some(p) => joined(p.sp(), self.1.sp()), None => self.1.sp() } }
  open spec fn wf(&self) -> bool { (self.0 is Some ==> self.0->0.wf()) && self.1.wf() }
//@ fn span
//@ end
//@ item src/ast.rs struct OptTokenPrefix
//@ end
//@ item src/ast.rs impl Spanned for OptTokenPrefix props=C25
//@ ghost
  open spec fn sp(&self) -> Span { match self.0 { Some(p) => joined(p.sp(), self.1.sp()), None => self.1.sp() } }
  open spec fn wf(&self) -> bool { (self.0 is Some ==> self.0->0.wf()) && self.1.wf() }
//@ fn span
//@ end
//@ item src/ast.rs struct TokenPrefix
//@ end
//@ item src/ast.rs impl Spanned for TokenPrefix props=C25
//@ ghost
  open spec fn sp(&self) -> Span { joined(self.0.sp(), self.1.sp()) }
  open spec fn wf(&self) -> bool { self.0.wf() && self.1.wf() }
//@ fn span
//@ end
}
fn main() {}
