#![feature(allocator_api)]
use vstd::prelude::*;
use std::collections::VecDeque;
verus! {

//@ include token.inc.rs
//@ include spanned.inc.rs

pub assume_specification<T, A: std::alloc::Allocator>[std::collections::VecDeque::<T, A>::front](v: &std::collections::VecDeque<T, A>) -> (r: Option<&T>)
  ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r == Some(&v@[0]);
pub assume_specification<T, A: std::alloc::Allocator>[std::collections::VecDeque::<T, A>::get](v: &std::collections::VecDeque<T, A>, i: usize) -> (r: Option<&T>)
  ensures i >= v@.len() ==> r is None, i < v@.len() ==> r == Some(&v@[i as int]);


/// C18: a chain of two checks, for any stream and any two token types.
fn chain_of_two<TS: TokenStream, A: Parse<TS>, B: Parse<TS>, FA: FnOnce(TS::Token) -> A, FB: FnOnce(TS::Token) -> B>(ts: &mut TS, a: FA, b: FB) -> (r: Result<bool>)
  requires A::one_token(), B::one_token(),
  ensures
    old(ts).rest().good(2) ==> final(ts).rest() == old(ts).rest() && r == Result::<bool>::Ok(A::accepts(old(ts).rest().at(0)->Ok_0) && B::accepts(old(ts).rest().at(1)->Ok_0)),
    old(ts).rest().at(0) is Err ==> r is Err && final(ts).rest() == old(ts).rest().without(0),
    old(ts).rest().at(0) is Ok && old(ts).rest().at(1) is Err ==> r is Err && final(ts).rest() == old(ts).rest().without(1),
{
  let ghost s = ts.rest();
  proof {
    assert(s.good(2) ==> s.at(0) is Ok && s.at(1) is Ok);
    assert(s.at(0) is Err ==> s.shift(1).after(Seq::empty()) =~= s.without(0));
    assert(s.at(0) is Ok && s.at(1) is Err ==> s.shift(2).after(Seq::empty().push(s.at(0)->Ok_0)) =~= s.without(1));
    assert(s.at(0) is Ok ==> s.shift(1).after(Seq::empty().push(s.at(0)->Ok_0)) =~= s);
    assert(s.at(0) is Ok && s.at(1) is Ok ==> s.shift(2).after(Seq::empty().push(s.at(0)->Ok_0).push(s.at(1)->Ok_0)) =~= s);
  }
  let l = ts.lookahead();
  let l = match l.maybe(a) { Ok(l) => l, Err(e) => { return Err(e); } };
  let l = match l.maybe(b) { Ok(l) => l, Err(e) => { return Err(e); } };
  l.result()
}

/// Taking from the front of the queue, and from the tokenizer when the queue is empty.
pub proof fn queue_steps<T>(rest: St<T>, q: Seq<T>)
  ensures
    q.len() == 0 ==> q == Seq::<T>::empty() && rest.after(q) == rest && rest.shift(1).after(q) == rest.shift(1),
    q.len() == 0 && rest.at(0) is Ok ==> rest.shift(1).after(seq![rest.at(0)->Ok_0]) == rest && rest.shift(1).after(seq![rest.at(0)->Ok_0] + q) == rest,
    q.len() > 0 ==> rest.after(q).at(0) == Result::<T>::Ok(q[0]) && rest.after(q.subrange(1, q.len() as int)) == rest.after(q).shift(1),
{
  if q.len() == 0 {
    assert(q =~= Seq::<T>::empty());
    if rest.at(0) is Ok {
      assert(rest.shift(1).after(seq![rest.at(0)->Ok_0]) =~= rest);
      assert(rest.shift(1).after(seq![rest.at(0)->Ok_0] + q) =~= rest);
    }
  } else {
    assert(rest.after(q.subrange(1, q.len() as int)) =~= rest.after(q).shift(1));
  }
}

/// What is read ahead goes to the end of the queue.
pub proof fn peeked_from_queue<T>(rest: St<T>, q: Seq<T>, n: nat)
  ensures
    n <= q.len() ==> rest.after(q).good(n) && rest.after(q).take(n) == q.take(n as int),
    forall|k: nat| #![trigger rest.good(k)] rest.good(k) ==> {
      &&& rest.shift(k).after(q + rest.take(k)) == rest.after(q)
      &&& rest.after(q).good(q.len() + k)
      &&& rest.after(q).take(q.len() + k) == q + rest.take(k)
      &&& (q + rest.take(k)).take((q.len() + k) as int) == q + rest.take(k)
      &&& (q + rest.take(k)).len() == q.len() + k
      &&& rest.at(k) is Err ==> rest.after(q).at(q.len() + k) == rest.at(k) && rest.shift(k + 1).after(q + rest.take(k)) == rest.after(q).without(q.len() + k)
    },
{
  if n <= q.len() { assert(rest.after(q).take(n) =~= q.take(n as int)); }
  assert forall|k: nat| #![trigger rest.good(k)] rest.good(k) implies {
      &&& rest.shift(k).after(q + rest.take(k)) == rest.after(q)
      &&& rest.after(q).good(q.len() + k)
      &&& rest.after(q).take(q.len() + k) == q + rest.take(k)
      &&& (q + rest.take(k)).take((q.len() + k) as int) == q + rest.take(k)
      &&& (q + rest.take(k)).len() == q.len() + k
      &&& rest.at(k) is Err ==> rest.after(q).at(q.len() + k) == rest.at(k) && rest.shift(k + 1).after(q + rest.take(k)) == rest.after(q).without(q.len() + k)
    } by {
    assert(rest.shift(k).after(q + rest.take(k)) =~= rest.after(q)) by {
      assert forall|i: nat| #[trigger] rest.shift(k).after(q + rest.take(k)).at(i) == rest.after(q).at(i) by {
        if q.len() <= i && i < q.len() + k { assert(rest.at((i - q.len()) as nat) is Ok); }
      }
    }
    assert(rest.after(q).good(q.len() + k)) by {
      assert forall|i: nat| i < q.len() + k implies #[trigger] rest.after(q).at(i) is Ok by {
        if q.len() <= i { assert(rest.at((i - q.len()) as nat) is Ok); }
      }
    }
    assert(rest.after(q).take(q.len() + k) =~= q + rest.take(k)) by {
      assert forall|i: int| 0 <= i < q.len() + k implies rest.after(q).take(q.len() + k)[i] == (q + rest.take(k))[i] by {
        if q.len() <= i { assert(rest.at((i - q.len()) as nat) is Ok); }
      }
    }
    assert((q + rest.take(k)).take((q.len() + k) as int) =~= q + rest.take(k));
    if rest.at(k) is Err {
      assert(rest.shift(k + 1).after(q + rest.take(k)) =~= rest.after(q).without(q.len() + k)) by {
        assert forall|i: nat| #[trigger] rest.shift(k + 1).after(q + rest.take(k)).at(i) == rest.after(q).without(q.len() + k).at(i) by {
          if q.len() <= i && i < q.len() + k { assert(rest.at((i - q.len()) as nat) is Ok); }
        }
      }
    }
  }
}

pub proof fn peek2_queue<T>(rest: St<T>, q: Seq<T>)
  ensures
    q.len() >= 2 ==> rest.after(q).take(2) == seq![q[0], q[1]],
    q.len() < 2 && rest.good((2 - q.len()) as nat) ==> ({ let w = q + rest.take((2 - q.len()) as nat); rest.after(q).take(2) == seq![w[0], w[1]] }),
{
  if q.len() >= 2 { assert(rest.after(q).take(2) =~= seq![q[0], q[1]]); }
  else if rest.good((2 - q.len()) as nat) { let w = q + rest.take((2 - q.len()) as nat); assert(rest.after(q).take(2) =~= seq![w[0], w[1]]); }
}

//@ item src/token.rs struct TokenBuffer
//@ end
//@ item src/token.rs impl TokenBuffer props=C16
//@ drop into_inner inner inner_mut
//@ fn new
    ensures r.tokenizer == tokenizer, r.token_buf@ == Seq::<T>::empty(),
//@ fn extend_by
    ensures exists|k: nat| #![trigger old(self).tokenizer.rest().good(k)] k <= n && old(self).tokenizer.rest().good(k) && (r is Ok ==> k == n)
      && final(self).token_buf@ == old(self).token_buf@ + old(self).tokenizer.rest().take(k) && match r {
        Ok(_) => final(self).tokenizer.rest() == old(self).tokenizer.rest().shift(k),
        Err(e) => k < n && old(self).tokenizer.rest().at(k) == Result::<T>::Err(e) && final(self).tokenizer.rest() == old(self).tokenizer.rest().shift(k + 1),
      },
//@ entry
    let ghost mut k: nat = 0;
//@ loop 0
    invariant
      k == it0.index(), k <= n, it0.seq().len() == n,
      old(self).tokenizer.rest().good(k),
      self.token_buf@ == old(self).token_buf@ + old(self).tokenizer.rest().take(k),
      self.tokenizer.rest() == old(self).tokenizer.rest().shift(k),
//@ loopend 0
      proof { k = k + 1; }
//@ end
//@ item src/token.rs impl From for TokenBuffer props=C16
//@ header impl<TN, T> TokenBuffer<TN, T>
//@ fn from
    ensures r.tokenizer == tokenizer, r.token_buf@ == Seq::<T>::empty(),
//@ end
//@ item src/token.rs impl Tokenizer for TokenBuffer props=C16
//@ ghost
  open spec fn rest(&self) -> St<T> { self.tokenizer.rest().after(self.token_buf@) }
//@ fn next_token
//@ entry
    proof { queue_steps(old(self).tokenizer.rest(), old(self).token_buf@); }
//@ end
//@ item src/token.rs impl TokenStream for TokenBuffer props=C16
//@ fn unread
//@ entry
    proof { assert(old(self).tokenizer.rest().after(seq![token] + old(self).token_buf@) =~= old(self).rest().cons(token)); }
//@ fn peek
//@ entry
    proof { queue_steps(old(self).tokenizer.rest(), old(self).token_buf@); }
//@ fn peek2
//@ entry
    proof {
      peeked_from_queue(old(self).tokenizer.rest(), old(self).token_buf@, 2);
      peek2_queue(old(self).tokenizer.rest(), old(self).token_buf@);
    }
//@ fn peek_n
//@ entry
    proof { peeked_from_queue(old(self).tokenizer.rest(), old(self).token_buf@, n as nat); }
//@ loop 0
    invariant
      clone_ok::<Self::Token>(),
      n <= self.token_buf@.len(),
      i_ <= n,
      out_@ == self.token_buf@.take(i_ as int),
    decreases n - i_,
//@ end
}
fn main() {}
