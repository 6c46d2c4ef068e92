//@ item gen mod @MOD@ >> impl laps::lexer::Tokenize for @KIND@ >> fn next_token >> type Kind
//@ end
//@ item gen mod @MOD@ >> impl laps::lexer::Tokenize for @KIND@ >> fn next_token >> type Token
//@ end
//@ item gen mod @MOD@ >> impl laps::lexer::Tokenize for @KIND@ >> fn next_token >> struct LexerResult
//@ end
//@ item gen mod @MOD@ >> impl laps::lexer::Tokenize for @KIND@ >> fn next_token >> enum TokenResult
//@ end
//@ item gen mod @MOD@ >> impl laps::lexer::Tokenize for @KIND@ >> fn next_token >> fn table props=C08
//@ fn table
    ensures table_is(r@),
//@ end
//@ item gen mod @MOD@ >> impl laps::lexer::Tokenize for @KIND@ >> fn next_token >> fn equiv_id props=C08
//@ fn equiv_id
    ensures r == class_of(c),
//@ end
//@ item gen mod @MOD@ >> impl laps::lexer::Tokenize for @KIND@ >> fn next_token >> fn is_accept props=C07,C08
//@ fn is_accept
    requires is_state(*old(state)),
    ensures
      r == (delta(state_of(*old(state)), c) is Some),
      r ==> is_state(*final(state)) && state_of(*final(state)) == delta(state_of(*old(state)), c)->0,
//@ end
//@ item gen mod @MOD@ >> impl laps::lexer::Tokenize for @KIND@ >> fn next_token >> fn token_result props=C07
//@ fn token_result
    ensures r == result_of(tag as nat, buf@, *span),
//@ end
//@ item gen mod @MOD@ >> impl laps::lexer::Tokenize for @KIND@ >> fn next_token >> fn is_final props=C07
//@ fn is_final
    requires is_state(state),
    ensures r == match acc(state_of(state)) { Some(t) => result_of(t, buf@, *span), None => Ok(TokenResult::Unknown) },
//@ end

/// The longest run with a continuation.
pub open spec fn longest(s: Seq<@SYM@>, n: nat) -> bool {
  n <= s.len() && (forall|i: nat| i <= n ==> viable(#[trigger] s.take(i as int))) && (n < s.len() ==> !viable(s.take(n as int + 1)))
}
pub open spec fn fails_at(f: spec_fn(@SYM@) -> bool, a: Is<@SYM@>, k: nat, b: Is<@SYM@>) -> bool { failed(after(f, a, k), b) }
/// A failed read within the longest run.
pub open spec fn broken(f: spec_fn(@SYM@) -> bool, a: Is<@SYM@>, b: Is<@SYM@>) -> bool {
  exists|n: nat, k: nat| #[trigger] longest(a.rest, n) && k <= n && #[trigger] fails_at(f, a, k, b)
}
/// What a token, an error or the end makes of a longest run of n symbols; nothing if the text is skipped.
pub open spec fn answer(f: spec_fn(@SYM@) -> bool, a: Is<@SYM@>, n: nat) -> Option<Result<super::Token<@KIND@>>> {
  let sp = span_of(f, a, n);
  match first(a.rest.take(n as int)) {
    Some(t) => match result_of(t, a.rest.take(n as int), sp) { Ok(TokenResult::Token(x)) => Some(Ok(x)), Ok(_) => None, Err(e) => Some(Err(e)) },
    None => Some(if a.rest.len() == 0 { at_end(sp) } else { Err(Error::Normal) }),
  }
}
pub open spec fn lexes(f: spec_fn(@SYM@) -> bool, a: Is<@SYM@>, r: Result<super::Token<@KIND@>>, b: Is<@SYM@>) -> bool
  decreases a.rest.len(),
{
  (r is Err && broken(f, a, b)) || exists|n: nat| #[trigger] longest(a.rest, n) && (n < a.rest.len() || !a.bad) && match answer(f, a, n) {
    Some(x) => r == x && b == after(f, a, n),
    None => 0 < n && lexes(f, after(f, a, n), r, b),
  }
}
pub proof fn has_longest(s: Seq<@SYM@>, k: nat)
  requires k <= s.len(), k == 0 || forall|i: nat| i <= k ==> viable(#[trigger] s.take(i as int)),
  ensures exists|n: nat| k <= n && #[trigger] longest(s, n),
  decreases s.len() - k,
{
  assert(s.take(0) =~= Seq::empty());
  live(Q::Start, s.take(0));
  if k < s.len() && viable(s.take(k as int + 1)) { has_longest(s, k + 1); } else { assert(longest(s, k)); }
}
//@ item gen mod @MOD@ >> impl laps::lexer::Tokenize for @KIND@ >> fn next_token >> fn next_token_impl props=C07,C08
//@ fn next_token_impl
    requires old(input).inv(), sane(I::feeds(), old(input).st()),
    ensures
      final(input).inv(),
      match r {
        Ok(x) => {
          let n = x.buf@.len();
          &&& longest(old(input).st().rest, n)
          &&& x.buf@ == old(input).st().rest.take(n as int)
          &&& final(input).st() == after(I::feeds(), old(input).st(), n)
          &&& is_state(x.last_state) && at(state_of(x.last_state), x.buf@)
          &&& x.is_eof == (n == old(input).st().rest.len())
          &&& x.is_eof ==> !old(input).st().bad
          &&& x.span == span_of(I::feeds(), old(input).st(), n)
        },
        Err(_) => broken(I::feeds(), old(input).st(), final(input).st()),
      },
//@ entry
    let ghost f = I::feeds();
    let ghost a = input.st();
    let ghost mut k: nat = 0;
    proof {
      has_longest(a.rest, 0);
      assert(after(f, a, 0) == a);
      let n = choose|n: nat| longest(a.rest, n);
      assert forall|b: Is<@SYM@>| #[trigger] failed(a, b) implies broken(f, a, b) by { assert(longest(a.rest, n) && fails_at(f, a, 0, b)); }
      loc_one(f, a.rest, a.here.start);
      assert(a.rest.take(0) =~= Seq::empty());
      live(Q::Start, a.rest.take(0));
    }
//@ loop 0
    invariant_except_break
      k == buf@.len(), is_state($let0), at(state_of($let0), buf@),
      input.st() == after(f, a, k),
    invariant
      f == I::feeds(), input.inv(), a == old(input).st(), sane(f, a), k <= a.rest.len(), buf@ == a.rest.take(k as int),
      forall|i: nat| i <= k ==> viable(#[trigger] a.rest.take(i as int)),
      span == span_of(f, a, k),
    ensures
      brk_ is Some, brk_->0 == (k == a.rest.len()), k == a.rest.len() ==> !a.bad,
      input.st() == after(f, a, k), k == buf@.len(), is_state($let1), at(state_of($let1), buf@),
      k < a.rest.len() ==> !viable(a.rest.take(k as int + 1)),
    decreases a.rest.len() - k,
//@ loopbody 0
      proof {
        has_longest(a.rest, k);
        assert(input.st() == after(f, a, k));
        let n = choose|n: nat| k <= n && longest(a.rest, n);
        assert forall|b: Is<@SYM@>| #[trigger] failed(input.st(), b) implies broken(f, a, b) by { assert(longest(a.rest, n) && fails_at(f, a, k, b)); }
        if k < a.rest.len() {
          let c = a.rest[k as int];
          steps(state_of($let0), buf@, c);
          assert(a.rest.take(k as int + 1) =~= buf@.push(c));
          if delta(state_of($let0), c) is Some { live(delta(state_of($let0), c)->0, buf@.push(c)); }
          loc_one(f, a.rest, a.here.start);
        }
      }
//@ loopend 0
      proof { k = k + 1; }
//@ end
//@ item gen mod @MOD@ >> impl laps::lexer::Tokenize for @KIND@ props=C07,C08
//@ ghost
  open spec fn lexed(f: spec_fn(@SYM@) -> bool, a: Is<@SYM@>, r: Result<super::Token<@KIND@>>, b: Is<@SYM@>) -> bool { lexes(f, a, r, b) }
//@ fn next_token
//@ entry
    let ghost f = I::feeds();
    let ghost a0 = input.st();
//@ loop 0
    invariant
      f == I::feeds(), input.inv(), sane(f, input.st()), a0 == old(input).st(),
      forall|r: Result<super::Token<@KIND@>>, b: Is<@SYM@>| #[trigger] lexes(f, input.st(), r, b) ==> lexes(f, a0, r, b),
    decreases input.st().rest.len(),
//@ loopbody 0
      let ghost a = input.st();
      proof { assert forall|r: Result<super::Token<@KIND@>>, b: Is<@SYM@>| #![trigger lexes(f, a0, r, b)] r is Err && broken(f, a, b) implies lexes(f, a, r, b) by {} }
//@ after next_token_impl(input)?;
      proof {
        let n = buf@.len();
        accepts(state_of(last_state), buf@);
        assert(longest(a.rest, n) && (n < a.rest.len() || !a.bad));
        assert forall|r: Result<super::Token<@KIND@>>, b: Is<@SYM@>| #![trigger lexes(f, a0, r, b)] answer(f, a, n) == Some(r) && b == after(f, a, n) implies lexes(f, a, r, b) by { assert(longest(a.rest, n)); }
        if answer(f, a, n) is None {
          if n == 0 { assert(a.rest.take(0) =~= Seq::empty()); }
          assert forall|r: Result<super::Token<@KIND@>>, b: Is<@SYM@>| #[trigger] lexes(f, after(f, a, n), r, b) implies lexes(f, a, r, b) by { assert(longest(a.rest, n)); }
        }
      }
//@ end
