//@ assume cloning a token yields an equal token (precondition clone_ok of the peeking functions)
//@ assume the predicate given to skip_until and collect_until is a function of the token alone (F: Fn instead of F: FnMut)
//@ assume comparing a token with the expected one follows vstd's PartialEq specification (obeys_eq_spec)
//@ assume Lookahead: the implicit drop at the end of `maybe` (error path) and `result` is written out as a call of the extracted `drop`
//@ rewrite log_error! to a trusted function that returns Error::Normal :: log_error!($sp, $rest) ==> log_error_($sp)
//@ rewrite FnMut predicate to Fn :: FnMut ==> Fn
//@ rewrite bound fmt::Display dropped :: + fmt::Display ==>
//@ rewrite bound fmt::Display dropped :: T: fmt::Display, ==>
//@ rewrite unnamed parameter named :: _: F ==> _f: F
//@ rewrite Result::map with a closure to match :: = $e.map(|$i_x| $i_v.push($i_x)); ==> = match $e { Ok($i_x) => { $i_v.push($i_x); Ok(()) } Err(e) => Err(e) };
//@ rewrite Result::map with a constant closure to match :: $i_r.map(|_| $i_v) ==> match $i_r { Ok(_) => Ok($i_v), Err(e) => Err(e) }
//@ rewrite iter().rev().for_each to an index loop :: $i_v.iter().rev().for_each(|$i_x| $e); ==> let mut rev_i: usize = $i_v.len(); while rev_i > 0 { rev_i = rev_i - 1; let $i_x = &$i_v[rev_i]; $e; }
//@ rewrite implicit drop of self on error made explicit :: self_.last_result = $e?; ==> self_.last_result = match $e { Ok(v) => v, Err(e) => { self_.drop(); return Err(e); } };
//@ rewrite implicit drop of self on error made explicit :: self_.buf.push($e?); ==> let item_ = match $e { Ok(v) => v, Err(e) => { self_.drop(); return Err(e); } }; self_.buf.push(item_);
//@ rewrite implicit drop of self made explicit :: Ok(self.last_result) ==> let mut self_ = self; let r_ = self_.last_result; self_.drop(); Ok(r_)
//@ rewrite iter().take(n).cloned().collect() to a loop :: Ok($v.iter().take(n).cloned().collect()) ==> { let mut out_ = Vec::new(); let mut i_: usize = 0; while i_ < n && i_ < $v.len() { out_.push($v[i_].clone()); i_ = i_ + 1; } Ok(out_) }
//@ rewrite iterator of the first two elements to indexing :: let mut iter = $v.iter(); ==>
//@ rewrite iterator of the first two elements to indexing :: (iter.next(), iter.next()) ==> (self.token_buf.get(0), self.token_buf.get(1))
//@ rewrite unreachable!() to a function that requires false :: unreachable!() ==> unreachable_()

//@ item src/span.rs enum Error
//@ end
pub type Result<T> = core::result::Result<T, Error>;
#[verifier::external_body]
fn log_error_(_s: Span) -> (e: Error) ensures e == Error::Normal { unimplemented!() }
#[verifier::external_body]
fn unreachable_<T>() -> T requires false { unimplemented!() }

//@ include stream.inc.rs

/// What looking n tokens ahead answers and leaves.
pub open spec fn peeked<T>(s: St<T>, n: nat, r: Result<Seq<T>>, s2: St<T>) -> bool {
  if s.good(n) { r == Result::<Seq<T>>::Ok(s.take(n)) && s2 == s }
  else { exists|k: nat| k < n && s.good(k) && #[trigger] s.at(k) is Err && r is Err && r->Err_0 == s.at(k)->Err_0 && s2 == s.without(k) }
}
/// What skipping until a token satisfies p answers and leaves.
pub open spec fn until<T>(s: St<T>, p: spec_fn(T) -> bool, r: Result<Seq<T>>, s2: St<T>) -> bool {
  exists|k: nat| #![trigger s.at(k)] s.good(k) && (forall|i: nat| i < k ==> !p((#[trigger] s.at(i))->Ok_0)) && match s.at(k) {
    Ok(t) => p(t) && r == Result::<Seq<T>>::Ok(s.take(k)) && s2 == s.shift(k),
    Err(e) => r == Result::<Seq<T>>::Err(e) && s2 == s.shift(k + 1),
  }
}
pub open spec fn skipped<T>(s: St<T>, p: spec_fn(T) -> bool, r: Result<()>, s2: St<T>) -> bool {
  exists|k: nat| #![trigger s.at(k)] s.good(k) && (forall|i: nat| i < k ==> !p((#[trigger] s.at(i))->Ok_0)) && match s.at(k) {
    Ok(t) => p(t) && r is Ok && s2 == s.shift(k),
    Err(e) => r == Result::<()>::Err(e) && s2 == s.shift(k + 1),
  }
}
pub open spec fn ok_fn<T, F: Fn(&T) -> bool>(f: F) -> bool {
  (forall|t: &T| f.requires((t,))) && (forall|t: &T, a: bool, b: bool| f.ensures((t,), a) && f.ensures((t,), b) ==> a == b)
}
pub open spec fn pred<T, F: Fn(&T) -> bool>(f: F) -> spec_fn(T) -> bool { |t: T| f.ensures((&t,), true) }

//@ item src/token.rs trait Tokenizer props=C16,C17,C18
//@ ghost
  spec fn rest(&self) -> St<Self::Token>;
//@ fn next_token
    ensures
      r == old(self).rest().at(0),
      final(self).rest() == old(self).rest().shift(1),
//@ end

pub proof fn peek2_default<T>(s: St<T>)
  ensures
    s.good(2) <==> s.at(0) is Ok && s.at(1) is Ok,
    s.good(0), s.at(0) is Ok ==> s.good(1),
    s.good(2) ==> s.take(2) == seq![s.at(0)->Ok_0, s.at(1)->Ok_0],
    s.at(0) is Err ==> s.without(0) == s.shift(1),
    s.at(0) is Ok ==> s.without(1) == s.shift(2).cons(s.at(0)->Ok_0),
{
  if s.good(2) { assert(s.at(0) is Ok && s.at(1) is Ok); assert(s.take(2) =~= seq![s.at(0)->Ok_0, s.at(1)->Ok_0]); }
  assert(s.without(0) =~= s.shift(1));
  if s.at(0) is Ok { assert(s.without(1) =~= s.shift(2).cons(s.at(0)->Ok_0)); }
}
//@ item src/token.rs trait TokenStream props=C17
//@ drop parse
//@ fn unread
    ensures final(self).rest() == old(self).rest().cons(token),
//@ fn peek
    requires clone_ok::<Self::Token>(),
    ensures
      r == old(self).rest().at(0),
      r is Ok ==> final(self).rest() == old(self).rest(),
      r is Err ==> final(self).rest() == old(self).rest().shift(1),
//@ fn peek2
    requires clone_ok::<Self::Token>(),
    ensures peeked(old(self).rest(), 2, match r { Ok((a, b)) => Ok(seq![a, b]), Err(e) => Err(e) }, final(self).rest()),
//@ entry
    proof { peek2_default(self.rest()); }
//@ fn peek_n
    requires clone_ok::<Self::Token>(),
    ensures peeked(old(self).rest(), n as nat, match r { Ok(v) => Ok(v@), Err(e) => Err(e) }, final(self).rest()),
//@ loop 0
    invariant
      clone_ok::<Self::Token>(),
      $let0@.len() <= n,
      old(self).rest().good($let0@.len() as nat),
      $let0@ == old(self).rest().take($let0@.len() as nat),
      (match $let1 {
        Ok(_) => self.rest() == old(self).rest().shift($let0@.len() as nat),
        Err(e) => $let0@.len() < n && old(self).rest().at($let0@.len() as nat) == Result::<Self::Token>::Err(e) && self.rest() == old(self).rest().shift(($let0@.len() + 1) as nat),
      }),
    decreases n - $let0@.len() + (if $let1 is Ok { 1int } else { 0int }),
//@ loop 1
    invariant
      clone_ok::<Self::Token>(),
      rev_i <= $let0@.len(),
      old(self).rest().good($let0@.len() as nat),
      $let0@ == old(self).rest().take($let0@.len() as nat),
      (match $let1 {
        Ok(_) => self.rest() == old(self).rest().shift(rev_i as nat),
        Err(e) => self.rest() == old(self).rest().without($let0@.len() as nat).shift(rev_i as nat),
      }),
    decreases rev_i,
//@ fn skip_until attr=exec_allows_no_decreases_clause
    requires ok_fn::<Self::Token, F>(f),
    ensures skipped(old(self).rest(), pred::<Self::Token, F>(f), r, final(self).rest()),
//@ entry
    let ghost mut k: nat = 0;
//@ loop 0
    invariant
      ok_fn::<Self::Token, F>(f),
      old(self).rest().good(k),
      forall|i: nat| i < k ==> !pred::<Self::Token, F>(f)((#[trigger] old(self).rest().at(i))->Ok_0),
      self.rest() == old(self).rest().shift(k),
//@ loopend 0
      proof { k = k + 1; }
//@ fn collect_until attr=exec_allows_no_decreases_clause
    requires ok_fn::<Self::Token, F>(f),
    ensures until(old(self).rest(), pred::<Self::Token, F>(f), match r { Ok(v) => Ok(v@), Err(e) => Err(e) }, final(self).rest()),
//@ entry
    let ghost mut k: nat = 0;
//@ loop 0
    invariant
      ok_fn::<Self::Token, F>(f),
      old(self).rest().good(k),
      forall|i: nat| i < k ==> !pred::<Self::Token, F>(f)((#[trigger] old(self).rest().at(i))->Ok_0),
      self.rest() == old(self).rest().shift(k),
      $let0@ == old(self).rest().take(k),
//@ loopend 0
      proof { k = k + 1; }
//@ fn expect
    ensures
      old(self).rest().at(0) is Err ==> r == old(self).rest().at(0) && final(self).rest() == old(self).rest().shift(1),
      old(self).rest().at(0) is Ok ==> match r {
        Ok(t) => r == old(self).rest().at(0) && final(self).rest() == old(self).rest().shift(1),
        Err(e) => e == Error::Normal && final(self).rest() == old(self).rest(),
      },
      // exactly when it equals the expected one
      <Self::Token as vstd::std_specs::cmp::PartialEqSpec<T>>::obeys_eq_spec() && old(self).rest().at(0) is Ok ==>
        (r is Ok <==> vstd::std_specs::cmp::PartialEqSpec::<T>::eq_spec(&old(self).rest().at(0)->Ok_0, &token)),
//@ fn lookahead props=C18
    ensures
      r.buf@ == Seq::<Self::Token>::empty(), r.last_result, *r.tokens == *old(self), *final(r.tokens) == *final(self),
//@ end

//@ item src/token.rs struct Lookahead attr=reject_recursive_types(T)+reject_recursive_types(TS)
//@ end


/// What a check leaves: the stream as it was, after an error possibly without the unreadable token.
pub open spec fn kept<K>(s: St<K>, ok: bool, z: St<K>) -> bool {
  z == s || (!ok && exists|k: nat| #![trigger s.at(k)] s.good(k) && s.at(k) is Err && z == s.without(k))
}
//@ item src/parse.rs trait Parse
//@ ghost
  /// The documented grammar: what parsing at s answers and leaves.
  spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool;
  spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool;
  /// Types whose check looks at the next token only: the tokens they accept.
  spec fn one_token() -> bool;
  spec fn accepts(t: TS::Token) -> bool;
//@ fn parse
    ensures Self::parses(old(tokens).rest(), r, final(tokens).rest()),
//@ fn maybe
    ensures
      Self::checks(old(tokens).rest(), r),
      kept(old(tokens).rest(), r is Ok, final(tokens).rest()),
      Self::one_token() ==> match old(tokens).rest().at(0) {
        Ok(t) => r == Result::<bool>::Ok(Self::accepts(t)) && final(tokens).rest() == old(tokens).rest(),
        Err(e) => r == Result::<bool>::Err(e) && final(tokens).rest() == old(tokens).rest().shift(1),
      },
//@ end

//@ item src/token.rs impl Lookahead props=C18
//@ fn peek_next
    requires clone_ok::<T>(),
    ensures
      *final(final(self).tokens) == *final(old(self).tokens),
      final(self).last_result == old(self).last_result,
      match r {
        Ok(t) => r == old(self).tokens.rest().at(0) && final(self).tokens.rest() == old(self).tokens.rest().shift(1) && final(self).buf@ == old(self).buf@.push(t) && final(self).tokens.rest().after(final(self).buf@) == old(self).tokens.rest().after(old(self).buf@),
        Err(e) => r == old(self).tokens.rest().at(0) && final(self).buf@ == old(self).buf@ && final(self).tokens.rest() == old(self).tokens.rest().shift(1),
      },
//@ fn maybe
    requires TA::one_token(),
    ensures match r {
      Ok(l) => {
        let t = old(self.tokens).rest().at(0)->Ok_0;
        &&& *final(l.tokens) == *final(self.tokens)
        &&& l.tokens.rest() == old(self.tokens).rest().shift(1)
        &&& l.tokens.rest().after(l.buf@) == old(self.tokens).rest().after(self.buf@)
        &&& old(self.tokens).rest().at(0) is Ok
        &&& l.buf@ == self.buf@.push(t)
        &&& l.last_result == (self.last_result && TA::accepts(t))
      },
      // the unreadable token is gone, the others are back
      Err(e) => old(self.tokens).rest().at(0) == Result::<T>::Err(e) && final(self.tokens).rest() == old(self.tokens).rest().shift(1).after(self.buf@),
    },
//@ fn result
    ensures
      r == Result::<bool>::Ok(self.last_result),
      final(self.tokens).rest() == old(self.tokens).rest().after(self.buf@),
//@ end
//@ item src/token.rs impl Drop for Lookahead props=C18
//@ header impl<'ts, TS, T> Lookahead<'ts, TS, T> where TS: TokenStream<Token = T>,
//@ fn drop
    ensures
      *final(final(self).tokens) == *final(old(self).tokens),
      final(self).buf@.len() == 0,
      final(self).tokens.rest() == old(self).tokens.rest().after(old(self).buf@),
//@ loop 0
    invariant
      *final(self.tokens) == *final(old(self).tokens),
      self.tokens.rest().after(self.buf@) == old(self).tokens.rest().after(old(self).buf@),
    ensures self.buf@.len() == 0,
    decreases self.buf@.len(),
//@ end

