pub mod st {
use super::*;
/// What a tokenizer is going to deliver: an infinite sequence of tokens and errors.
#[verifier::ext_equal]
pub ghost struct St<T> { pub f: spec_fn(nat) -> Result<T> }

impl<T> St<T> {
  pub open spec fn at(self, i: nat) -> Result<T> { (self.f)(i) }
  /// Without the first n items.
  pub open spec fn shift(self, n: nat) -> St<T> { St { f: |i: nat| (self.f)(i + n) } }
  pub open spec fn cons(self, t: T) -> St<T> { St { f: |i: nat| if i == 0 { Ok(t) } else { (self.f)((i - 1) as nat) } } }
  /// The tokens q, then self.
  pub open spec fn after(self, q: Seq<T>) -> St<T> {
    St { f: |i: nat| if i < q.len() { Ok(q[i as int]) } else { (self.f)((i - q.len()) as nat) } }
  }
  /// The first n items are tokens.
  pub open spec fn good(self, n: nat) -> bool { forall|i: nat| i < n ==> (#[trigger] self.at(i)) is Ok }
  /// The first n tokens.
  pub open spec fn take(self, n: nat) -> Seq<T> { Seq::new(n, |i: int| self.at(i as nat)->Ok_0) }
  /// Without the item at k.
  pub open spec fn without(self, k: nat) -> St<T> { St { f: |i: nat| if i < k { (self.f)(i) } else { (self.f)(i + 1) } } }
}

pub broadcast proof fn st_shift0<T>(s: St<T>) ensures (#[trigger] s.shift(0)) == s { assert(s.shift(0) =~= s); }
pub broadcast proof fn st_shift_shift<T>(s: St<T>, a: nat, b: nat) ensures (#[trigger] s.shift(a).shift(b)) == s.shift(a + b)
{ assert(s.shift(a).shift(b) =~= s.shift(a + b)); }
pub broadcast proof fn st_shift_cons<T>(s: St<T>, t: T) ensures (#[trigger] s.cons(t).shift(1)) == s { assert(s.cons(t).shift(1) =~= s); }
pub broadcast proof fn st_cons_shift<T>(s: St<T>, n: nat, t: T) requires n > 0, s.at((n - 1) as nat) == Result::<T>::Ok(t) ensures (#[trigger] s.shift(n).cons(t)) == s.shift((n - 1) as nat)
{ assert(s.shift(n).cons(t) =~= s.shift((n - 1) as nat)); }
pub broadcast proof fn st_after_empty<T>(s: St<T>) ensures (#[trigger] s.after(Seq::empty())) == s { assert(s.after(Seq::empty()) =~= s); }
pub broadcast proof fn st_cons_after<T>(s: St<T>, t: T, q: Seq<T>) ensures (#[trigger] s.cons(t).after(q)) == s.after(q.push(t))
{ assert(s.cons(t).after(q) =~= s.after(q.push(t))); }
pub broadcast group st_lemmas { st_shift0, st_shift_shift, st_shift_cons, st_cons_shift, st_after_empty, st_cons_after }

/// Cloning yields an equal value (a precondition of everything that peeks).
pub open spec fn clone_ok<T: Clone>() -> bool { forall|a: &T, b: T| #[trigger] call_ensures(T::clone, (a,), b) ==> b == *a }
}
pub use st::*;
broadcast use st::st_lemmas;
