use vstd::prelude::*;
use std::marker::PhantomData;
verus! {

//@ assume `parse` and `maybe` of component types satisfy the contract of the Parse trait (proved for the provided types; user types: the trait's documentation)
//@ rewrite recursion through the Parse implementation of Box written out (Verus takes no cycle through an implementation) :: Self::More($a, $b, $i_x.parse()?) ==> Self::More($a, $b, Box::new(Self::parse($i_x)?))
//@ rewrite TokenStream::parse called as the extracted free function :: $i_x.parse::<$t>() ==> parse_::<_, $t>($i_x)
//@ rewrite TokenStream::parse called as the extracted free function :: $i_x.parse() ==> parse_($i_x)
//@ rewrite Result::map(Box::new) to match :: parse_($i_x).map(Box::new) ==> match parse_($i_x) { Ok(v) => Ok(Box::new(v)), Err(e) => Err(e) }
//@ rewrite bool::then and transpose to if and match :: $i_t::maybe($i_x)?.then(|| $e).transpose() ==> if $i_t::maybe($i_x)? { match $e { Ok(v) => Ok(Some(v)), Err(e) => Err(e) } } else { Ok(None) }
//@ rewrite vec![e] to new and push :: vec![$e] ==> { let mut v_ = Vec::new(); v_.push($e); v_ }
//@ rewrite unnamed parameter named :: _: &mut TS ==> _tokens: &mut TS

//@ item src/span.rs enum Error
//@ end
pub type Result<T> = core::result::Result<T, Error>;
pub struct Span { _p: u8 }

//@ include stream.inc.rs

//@ item src/token.rs trait Tokenizer
//@ ghost
  spec fn rest(&self) -> St<Self::Token>;
//@ fn next_token
    ensures
      r == old(self).rest().at(0),
      final(self).rest() == old(self).rest().shift(1),
//@ end
//@ item src/token.rs trait TokenStream
//@ drop parse peek peek2 peek_n skip_until collect_until expect lookahead
//@ fn unread
    ensures final(self).rest() == old(self).rest().cons(token),
//@ end

/// What a check leaves: the stream as it was, after an error possibly without the unreadable token.
pub open spec fn kept<K>(s: St<K>, ok: bool, z: St<K>) -> bool {
  z == s || (!ok && exists|k: nat| #![trigger s.at(k)] s.good(k) && s.at(k) is Err && z == s.without(k))
}

//@ item src/parse.rs trait Parse
//@ ghost
  /// The documented grammar: what parsing at s answers and leaves.
  spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool;
  spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool;
//@ fn parse
    ensures Self::parses(old(tokens).rest(), r, final(tokens).rest()),
//@ fn maybe
    ensures
      Self::checks(old(tokens).rest(), r),
      kept(old(tokens).rest(), r is Ok, final(tokens).rest()),
//@ end

//@ item src/token.rs trait TokenStream props=C19,C20
//@ free fn parse_<TS: TokenStream, T: Parse<TS>>(self_: &mut TS) -> Result<T>
//@ fn parse
    ensures T::parses(old(self_).rest(), r, final(self_).rest()),
//@ end

// ------------------------------------------------------------ repeated

pub open spec fn seq_step<TS: TokenStream, T: Parse<TS>>(c: bool, p: St<TS::Token>, v: T, p2: St<TS::Token>) -> bool {
  (c ==> T::checks(p, Result::<bool>::Ok(true))) && T::parses(p, Result::<T>::Ok(v), p2)
}
/// The elements es were read from the states ss, each after its check said yes (the first one only if `first`).
pub open spec fn seq_run<TS: TokenStream, T: Parse<TS>>(first: bool, s: St<TS::Token>, ss: Seq<St<TS::Token>>, es: Seq<T>) -> bool {
  &&& ss.len() == es.len() + 1
  &&& ss[0] == s
  &&& forall|i: int| #![trigger es[i]] 0 <= i < es.len() ==> seq_step::<TS, T>(i > 0 || first, ss[i], es[i], ss[i + 1])
}
pub open spec fn seq_ends<TS: TokenStream, T: Parse<TS>>(first: bool, ss: Seq<St<TS::Token>>, es: Seq<T>, r: Result<Seq<T>>, z: St<TS::Token>) -> bool {
  let c = first || es.len() > 0;
  match r {
    Ok(v) => v == es && c && T::checks(ss.last(), Result::<bool>::Ok(false)) && z == ss.last(),
    Err(e) => (c && T::checks(ss.last(), Result::<bool>::Err(e)) && kept(ss.last(), false, z))
      || ((c ==> T::checks(ss.last(), Result::<bool>::Ok(true))) && T::parses(ss.last(), Result::<T>::Err(e), z)),
  }
}
pub open spec fn seq_parses<TS: TokenStream, T: Parse<TS>>(first: bool, s: St<TS::Token>, r: Result<Seq<T>>, z: St<TS::Token>) -> bool {
  exists|ss: Seq<St<TS::Token>>, es: Seq<T>| #[trigger] seq_run::<TS, T>(first, s, ss, es) && seq_ends::<TS, T>(first, ss, es, r, z)
}

/// Every further element extends the run.
pub proof fn seq_more<TS: TokenStream, T: Parse<TS>>(first: bool, s: St<TS::Token>, ss: Seq<St<TS::Token>>, es: Seq<T>)
  requires seq_run::<TS, T>(first, s, ss, es),
  ensures forall|v: T, p: St<TS::Token>| #![trigger T::parses(ss.last(), Result::<T>::Ok(v), p)]
    T::parses(ss.last(), Result::<T>::Ok(v), p) && (first || es.len() > 0 ==> T::checks(ss.last(), Result::<bool>::Ok(true))) ==> seq_run::<TS, T>(first, s, ss.push(p), es.push(v)),
{
  assert forall|v: T, p: St<TS::Token>| #![trigger T::parses(ss.last(), Result::<T>::Ok(v), p)]
    T::parses(ss.last(), Result::<T>::Ok(v), p) && (first || es.len() > 0 ==> T::checks(ss.last(), Result::<bool>::Ok(true))) implies seq_run::<TS, T>(first, s, ss.push(p), es.push(v)) by {
    let (s2, e2) = (ss.push(p), es.push(v));
    assert forall|i: int| #![trigger e2[i]] 0 <= i < e2.len() implies seq_step::<TS, T>(i > 0 || first, s2[i], e2[i], s2[i + 1]) by {
      if i < es.len() { assert(e2[i] == es[i]); assert(s2[i] == ss[i]); assert(s2[i + 1] == ss[i + 1]); } else { assert(s2[i] == ss.last()); assert(s2[i + 1] == p); assert(e2[i] == v); }
    }
    assert(s2.len() == e2.len() + 1 && s2[0] == s);
    assert(seq_run::<TS, T>(first, s, s2, e2));
  }
}

// ------------------------------------------------------------ separated

/// n elements and n separators; pre[i] is the state before element i, mid[i] the one after it.
pub ghost struct Run<K, T, S> { pub pre: Seq<St<K>>, pub mid: Seq<St<K>>, pub es: Seq<T>, pub qs: Seq<S> }

/// Whether the check of element i decides if there is one: the first one of possibly empty types, the others where a trailing separator is allowed.
pub open spec fn decides(first: bool, opt: bool, i: int) -> bool { if i == 0 { first } else { opt } }

pub open spec fn sep_step<TS: TokenStream, T: Parse<TS>, S: Parse<TS>>(c: bool, p: St<TS::Token>, v: T, m: St<TS::Token>, q: S, p2: St<TS::Token>) -> bool {
  (c ==> T::checks(p, Result::<bool>::Ok(true))) && T::parses(p, Result::<T>::Ok(v), m) && S::checks(m, Result::<bool>::Ok(true)) && S::parses(m, Result::<S>::Ok(q), p2)
}
pub open spec fn sep_run<TS: TokenStream, T: Parse<TS>, S: Parse<TS>>(first: bool, opt: bool, s: St<TS::Token>, x: Run<TS::Token, T, S>) -> bool {
  &&& x.pre.len() == x.es.len() + 1 && x.mid.len() == x.es.len() && x.qs.len() == x.es.len()
  &&& x.pre[0] == s
  &&& forall|i: int| #![trigger x.es[i]] 0 <= i < x.es.len() ==> sep_step::<TS, T, S>(decides(first, opt, i), x.pre[i], x.es[i], x.mid[i], x.qs[i], x.pre[i + 1])
}
pub open spec fn sep_ends<TS: TokenStream, T: Parse<TS>, S: Parse<TS>>(first: bool, opt: bool, x: Run<TS::Token, T, S>, r: Result<(Seq<T>, Seq<S>)>, z: St<TS::Token>) -> bool {
  let p = x.pre.last();
  let c = decides(first, opt, x.es.len() as int);
  ||| c && T::checks(p, Result::<bool>::Ok(false)) && r == Result::<(Seq<T>, Seq<S>)>::Ok((x.es, x.qs)) && z == p
  ||| c && r is Err && T::checks(p, Result::<bool>::Err(r->Err_0)) && kept(p, false, z)
  ||| (c ==> T::checks(p, Result::<bool>::Ok(true))) && r is Err && T::parses(p, Result::<T>::Err(r->Err_0), z)
  ||| (c ==> T::checks(p, Result::<bool>::Ok(true))) && exists|v: T, m: St<TS::Token>| #[trigger] T::parses(p, Result::<T>::Ok(v), m) && {
      ||| S::checks(m, Result::<bool>::Ok(false)) && r == Result::<(Seq<T>, Seq<S>)>::Ok((x.es.push(v), x.qs)) && z == m
      ||| r is Err && S::checks(m, Result::<bool>::Err(r->Err_0)) && kept(m, false, z)
      ||| r is Err && S::checks(m, Result::<bool>::Ok(true)) && S::parses(m, Result::<S>::Err(r->Err_0), z)
    }
}
/// Elements and separators in order.
pub open spec fn sep_parses<TS: TokenStream, T: Parse<TS>, S: Parse<TS>>(first: bool, opt: bool, s: St<TS::Token>, r: Result<(Seq<T>, Seq<S>)>, z: St<TS::Token>) -> bool {
  exists|x: Run<TS::Token, T, S>| #[trigger] sep_run::<TS, T, S>(first, opt, s, x) && sep_ends::<TS, T, S>(first, opt, x, r, z)
}
/// Elements only.
pub open spec fn sep_parses_es<TS: TokenStream, T: Parse<TS>, S: Parse<TS>>(first: bool, opt: bool, s: St<TS::Token>, r: Result<Seq<T>>, z: St<TS::Token>) -> bool {
  exists|x: Run<TS::Token, T, S>| #[trigger] sep_run::<TS, T, S>(first, opt, s, x)
    && sep_ends::<TS, T, S>(first, opt, x, match r { Ok(es) => Result::<(Seq<T>, Seq<S>)>::Ok((es, x.qs)), Err(e) => Err(e) }, z)
}
pub open spec fn run0<K, T, S>(s: St<K>) -> Run<K, T, S> { Run { pre: seq![s], mid: Seq::empty(), es: Seq::empty(), qs: Seq::empty() } }
pub open spec fn run_push<K, T, S>(x: Run<K, T, S>, v: T, m: St<K>, q: S, p: St<K>) -> Run<K, T, S> {
  Run { pre: x.pre.push(p), mid: x.mid.push(m), es: x.es.push(v), qs: x.qs.push(q) }
}
pub proof fn run_start<TS: TokenStream, T: Parse<TS>, S: Parse<TS>>(first: bool, opt: bool, s: St<TS::Token>)
  ensures sep_run::<TS, T, S>(first, opt, s, run0(s)), run0::<TS::Token, T, S>(s).pre.last() == s, run0::<TS::Token, T, S>(s).es.len() == 0,
{}
/// Every further step extends the run.
pub proof fn run_more<TS: TokenStream, T: Parse<TS>, S: Parse<TS>>(first: bool, opt: bool, s: St<TS::Token>, x: Run<TS::Token, T, S>)
  requires sep_run::<TS, T, S>(first, opt, s, x),
  ensures forall|v: T, m: St<TS::Token>, q: S, p: St<TS::Token>| #![trigger T::parses(x.pre.last(), Result::<T>::Ok(v), m), S::parses(m, Result::<S>::Ok(q), p)]
    sep_step::<TS, T, S>(decides(first, opt, x.es.len() as int), x.pre.last(), v, m, q, p) ==> sep_run::<TS, T, S>(first, opt, s, run_push(x, v, m, q, p)),
{
  assert forall|v: T, m: St<TS::Token>, q: S, p: St<TS::Token>| #![trigger T::parses(x.pre.last(), Result::<T>::Ok(v), m), S::parses(m, Result::<S>::Ok(q), p)]
    sep_step::<TS, T, S>(decides(first, opt, x.es.len() as int), x.pre.last(), v, m, q, p) implies sep_run::<TS, T, S>(first, opt, s, run_push(x, v, m, q, p)) by {
    let y = run_push(x, v, m, q, p);
    assert forall|i: int| #![trigger y.es[i]] 0 <= i < y.es.len() implies sep_step::<TS, T, S>(decides(first, opt, i), y.pre[i], y.es[i], y.mid[i], y.qs[i], y.pre[i + 1]) by {
      if i < x.es.len() { assert(y.es[i] == x.es[i]); }
    }
  }
}
pub open spec fn prepended<T, S>(t: T, q: S, r: Result<(Seq<T>, Seq<S>)>) -> Result<(Seq<T>, Seq<S>)> {
  match r { Ok((es, qs)) => Ok((seq![t] + es, seq![q] + qs)), Err(e) => Err(e) }
}
pub open spec fn run_cons<K, T, S>(s: St<K>, t: T, m: St<K>, q: S, x: Run<K, T, S>) -> Run<K, T, S> {
  Run { pre: seq![s] + x.pre, mid: seq![m] + x.mid, es: seq![t] + x.es, qs: seq![q] + x.qs }
}
/// A first element and separator before a non-empty list.
pub proof fn list_steps<TS: TokenStream, T: Parse<TS>, S: Parse<TS>>(opt: bool, s: St<TS::Token>)
  ensures forall|t: T, m: St<TS::Token>, q: S, p: St<TS::Token>, r: Result<(Seq<T>, Seq<S>)>, z: St<TS::Token>|
    #![trigger T::parses(s, Result::<T>::Ok(t), m), S::parses(m, Result::<S>::Ok(q), p), sep_parses::<TS, T, S>(false, opt, p, r, z)]
    sep_step::<TS, T, S>(false, s, t, m, q, p) && (opt ==> T::checks(p, Result::<bool>::Ok(true))) && sep_parses::<TS, T, S>(false, opt, p, r, z)
      ==> sep_parses::<TS, T, S>(false, opt, s, prepended(t, q, r), z),
{
  assert forall|t: T, m: St<TS::Token>, q: S, p: St<TS::Token>, r: Result<(Seq<T>, Seq<S>)>, z: St<TS::Token>|
    #![trigger T::parses(s, Result::<T>::Ok(t), m), S::parses(m, Result::<S>::Ok(q), p), sep_parses::<TS, T, S>(false, opt, p, r, z)]
    sep_step::<TS, T, S>(false, s, t, m, q, p) && (opt ==> T::checks(p, Result::<bool>::Ok(true))) && sep_parses::<TS, T, S>(false, opt, p, r, z)
      implies sep_parses::<TS, T, S>(false, opt, s, prepended(t, q, r), z) by {
    let x = choose|x: Run<TS::Token, T, S>| #[trigger] sep_run::<TS, T, S>(false, opt, p, x) && sep_ends::<TS, T, S>(false, opt, x, r, z);
    let y = run_cons(s, t, m, q, x);
    assert forall|i: int| #![trigger y.es[i]] 0 <= i < y.es.len() implies sep_step::<TS, T, S>(decides(false, opt, i), y.pre[i], y.es[i], y.mid[i], y.qs[i], y.pre[i + 1]) by {
      if i > 0 { assert(y.es[i] == x.es[i - 1]); }
    }
    assert(sep_run::<TS, T, S>(false, opt, s, y));
    assert(y.pre.last() == x.pre.last());
    assert(forall|v: T| seq![t] + x.es.push(v) =~= #[trigger] y.es.push(v));
    assert(forall|v: T| #![trigger x.es.push(v)] seq![t] + x.es.push(v) =~= y.es.push(v));
    assert(x.es.len() == 0 ==> x.pre.last() == p);
    assert(sep_ends::<TS, T, S>(false, opt, y, prepended(t, q, r), z));
  }
}

//@ item src/parse.rs impl Parse for Box props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool { T::parses(s, match r { Ok(b) => Result::<T>::Ok(*b), Err(e) => Err(e) }, z) }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { T::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end
//@ item src/parse.rs impl Parse for Option props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    ||| T::checks(s, Result::<bool>::Ok(false)) && r == Result::<Self>::Ok(None) && z == s
    ||| r is Err && T::checks(s, Result::<bool>::Err(r->Err_0)) && kept(s, false, z)
    ||| T::checks(s, Result::<bool>::Ok(true)) && match r {
        Ok(Some(v)) => T::parses(s, Result::<T>::Ok(v), z),
        Ok(None) => false,
        Err(e) => T::parses(s, Result::<T>::Err(e), z),
      }
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { r == Result::<bool>::Ok(true) }
//@ fn parse
//@ fn maybe
//@ end
//@ item src/parse.rs impl Parse for Vec props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    seq_parses::<TS, T>(true, s, match r { Ok(v) => Result::<Seq<T>>::Ok(v@), Err(e) => Err(e) }, z)
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { r == Result::<bool>::Ok(true) }
//@ fn parse attr=exec_allows_no_decreases_clause
//@ entry
    let ghost s = tokens.rest();
    let ghost mut ss = seq![tokens.rest()];
    assert(seq_run::<TS, T>(true, s, ss, Seq::empty()));
//@ loop 0
    invariant
      s == old(tokens).rest(),
      seq_run::<TS, T>(true, s, ss, $let0@),
      ss.last() == tokens.rest(),
//@ loopbody 0
      proof { seq_more::<TS, T>(true, s, ss, $let0@); }
//@ loopend 0
      proof { ss = ss.push(tokens.rest()); }
//@ fn maybe
//@ end

//@ item src/ast.rs struct NonEmptySeq
//@ end
//@ item src/ast.rs impl Parse for NonEmptySeq props=C19,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    seq_parses::<TS, T>(false, s, match r { Ok(v) => Result::<Seq<T>>::Ok(v.0@), Err(e) => Err(e) }, z)
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { T::checks(s, r) }
//@ fn parse attr=exec_allows_no_decreases_clause
//@ entry
    let ghost s = tokens.rest();
    let ghost mut ss = seq![tokens.rest()];
    assert(seq_run::<TS, T>(false, s, ss, Seq::empty()));
    proof { seq_more::<TS, T>(false, s, ss, Seq::empty()); assert(forall|v: T| #[trigger] Seq::<T>::empty().push(v) =~= seq![v]); }
//@ loop 0
    invariant
      s == old(tokens).rest(),
      $let0@.len() > 0,
      seq_run::<TS, T>(false, s, ss.push(tokens.rest()), $let0@),
//@ loopbody 0
      let ghost p = tokens.rest();
      proof { seq_more::<TS, T>(false, s, ss.push(p), $let0@); }
//@ loopend 0
      proof { ss = ss.push(p); }
//@ fn maybe
//@ end

//@ item src/ast.rs struct SepSeq
//@ end
//@ item src/ast.rs impl Parse for SepSeq props=C19,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    sep_parses_es::<TS, T, S>(true, false, s, match r { Ok(v) => Result::<Seq<T>>::Ok(v.0@), Err(e) => Err(e) }, z)
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { r == Result::<bool>::Ok(true) }
//@ fn parse attr=exec_allows_no_decreases_clause
//@ entry
    let ghost s = tokens.rest();
    let ghost mut x = run0::<TS::Token, T, S>(s);
    proof { run_start::<TS, T, S>(true, false, s); }
//@ loop 0
      invariant_except_break
        s == old(tokens).rest(),
        sep_run::<TS, T, S>(true, false, s, x),
        x.es == $let0@,
        x.pre.last() == tokens.rest(),
        x.es.len() == 0 ==> T::checks(s, Result::<bool>::Ok(true)),
      ensures
        sep_parses_es::<TS, T, S>(true, false, s, Result::<Seq<T>>::Ok($let0@), tokens.rest()),
//@ loopbody 0
      proof { run_more::<TS, T, S>(true, false, s, x); assert(x.es.len() == 0 ==> x.pre.last() == s); }
      let ghost p = tokens.rest();
//@ loopend 0
      proof {
        let (m, q) = choose|m: St<TS::Token>, q: S| #[trigger] T::parses(p, Result::<T>::Ok($let0@.last()), m) && #[trigger] S::parses(m, Result::<S>::Ok(q), tokens.rest()) && S::checks(m, Result::<bool>::Ok(true));
        x = run_push(x, $let0@.last(), m, q, tokens.rest());
      }
//@ fn maybe
//@ end

//@ item src/ast.rs struct NonEmptySepSeq
//@ end
//@ item src/ast.rs impl Parse for NonEmptySepSeq props=C19,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    sep_parses_es::<TS, T, S>(false, false, s, match r { Ok(v) => Result::<Seq<T>>::Ok(v.0@), Err(e) => Err(e) }, z)
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { T::checks(s, r) }
//@ fn parse attr=exec_allows_no_decreases_clause
//@ entry
    let ghost s = tokens.rest();
    let ghost mut x = run0::<TS::Token, T, S>(s);
    proof { run_start::<TS, T, S>(false, false, s); }
//@ loop 0
      invariant
      s == old(tokens).rest(),
        sep_run::<TS, T, S>(false, false, s, x),
        $let0@.len() > 0,
        $let0@ =~= x.es.push($let0@.last()),
        T::parses(x.pre.last(), Result::<T>::Ok($let0@.last()), tokens.rest()),
//@ loopbody 0
      proof { run_more::<TS, T, S>(false, false, s, x); }
      let ghost m = tokens.rest();
      let ghost v = $let0@.last();
//@ loopend 0
      proof {
        let (q, p) = choose|q: S, p: St<TS::Token>| #[trigger] S::parses(m, Result::<S>::Ok(q), p) && #[trigger] T::parses(p, Result::<T>::Ok($let0@.last()), tokens.rest());
        x = run_push(x, v, m, q, p);
      }
//@ fn maybe
//@ end

//@ item src/ast.rs struct OptSepSeq
//@ end
//@ item src/ast.rs impl Parse for OptSepSeq props=C19,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    sep_parses_es::<TS, T, S>(true, true, s, match r { Ok(v) => Result::<Seq<T>>::Ok(v.0@), Err(e) => Err(e) }, z)
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { r == Result::<bool>::Ok(true) }
//@ fn parse attr=exec_allows_no_decreases_clause
//@ entry
    let ghost s = tokens.rest();
    let ghost mut x = run0::<TS::Token, T, S>(s);
    proof { run_start::<TS, T, S>(true, true, s); }
//@ loop 0
      invariant_except_break
        s == old(tokens).rest(),
        sep_run::<TS, T, S>(true, true, s, x),
        x.es == $let0@,
        x.pre.last() == tokens.rest(),
      ensures
        sep_parses_es::<TS, T, S>(true, true, s, Result::<Seq<T>>::Ok($let0@), tokens.rest()),
//@ loopbody 0
      proof { run_more::<TS, T, S>(true, true, s, x); }
      let ghost p = tokens.rest();
//@ loopend 0
      proof {
        let (m, q) = choose|m: St<TS::Token>, q: S| #[trigger] T::parses(p, Result::<T>::Ok($let0@.last()), m) && #[trigger] S::parses(m, Result::<S>::Ok(q), tokens.rest()) && S::checks(m, Result::<bool>::Ok(true));
        x = run_push(x, $let0@.last(), m, q, tokens.rest());
      }
//@ fn maybe
//@ end

//@ item src/ast.rs struct NonEmptyOptSepSeq
//@ end
//@ item src/ast.rs impl Parse for NonEmptyOptSepSeq props=C19,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    sep_parses_es::<TS, T, S>(false, true, s, match r { Ok(v) => Result::<Seq<T>>::Ok(v.0@), Err(e) => Err(e) }, z)
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { T::checks(s, r) }
//@ fn parse attr=exec_allows_no_decreases_clause
//@ entry
    let ghost s = tokens.rest();
    let ghost mut x = run0::<TS::Token, T, S>(s);
    proof { run_start::<TS, T, S>(false, true, s); }
//@ loop 0
      invariant_except_break
        s == old(tokens).rest(),
        sep_run::<TS, T, S>(false, true, s, x),
        $let0@.len() > 0,
        $let0@ =~= x.es.push($let0@.last()),
        decides(false, true, x.es.len() as int) ==> T::checks(x.pre.last(), Result::<bool>::Ok(true)),
        T::parses(x.pre.last(), Result::<T>::Ok($let0@.last()), tokens.rest()),
      ensures
        sep_parses_es::<TS, T, S>(false, true, s, Result::<Seq<T>>::Ok($let0@), tokens.rest()),
//@ loopbody 0
      proof { run_more::<TS, T, S>(false, true, s, x); }
      let ghost m = tokens.rest();
      let ghost v = $let0@.last();
//@ loopend 0
      proof {
        let (q, p) = choose|q: S, p: St<TS::Token>| #[trigger] S::parses(m, Result::<S>::Ok(q), p) && #[trigger] T::parses(p, Result::<T>::Ok($let0@.last()), tokens.rest()) && T::checks(p, Result::<bool>::Ok(true));
        x = run_push(x, v, m, q, p);
      }
//@ fn maybe
//@ end

//@ item src/ast.rs enum NonEmptySepList
//@ end
impl<T, S> NonEmptySepList<T, S> {
  pub open spec fn elems(self) -> Seq<T> decreases self { match self { Self::One(t) => seq![t], Self::More(t, _, l) => seq![t] + l.elems() } }
  pub open spec fn seps(self) -> Seq<S> decreases self { match self { Self::One(_) => Seq::empty(), Self::More(_, q, l) => seq![q] + l.seps() } }
}
//@ item src/ast.rs impl Parse for NonEmptySepList props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    sep_parses::<TS, T, S>(false, false, s, match r { Ok(l) => Result::<(Seq<T>, Seq<S>)>::Ok((l.elems(), l.seps())), Err(e) => Err(e) }, z)
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { T::checks(s, r) }
//@ fn parse attr=exec_allows_no_decreases_clause
//@ entry
    let ghost s = tokens.rest();
    proof {
      run_start::<TS, T, S>(false, false, s);
      list_steps::<TS, T, S>(false, s);
      assert(forall|t: T| #[trigger] Seq::<T>::empty().push(t) =~= seq![t]);
    }
//@ fn maybe
//@ end

//@ item src/ast.rs enum NonEmptyOptSepList
//@ end
impl<T, S> NonEmptyOptSepList<T, S> {
  pub open spec fn elems(self) -> Seq<T> decreases self { match self { Self::One(t) => seq![t], Self::OneWithSep(t, _) => seq![t], Self::More(t, _, l) => seq![t] + l.elems() } }
  pub open spec fn seps(self) -> Seq<S> decreases self { match self { Self::One(_) => Seq::empty(), Self::OneWithSep(_, q) => seq![q], Self::More(_, q, l) => seq![q] + l.seps() } }
}
//@ item src/ast.rs impl Parse for NonEmptyOptSepList props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    sep_parses::<TS, T, S>(false, true, s, match r { Ok(l) => Result::<(Seq<T>, Seq<S>)>::Ok((l.elems(), l.seps())), Err(e) => Err(e) }, z)
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { T::checks(s, r) }
//@ fn parse attr=exec_allows_no_decreases_clause
//@ entry
    let ghost s = tokens.rest();
    proof {
      run_start::<TS, T, S>(false, true, s);
      run_more::<TS, T, S>(false, true, s, run0(s));
      list_steps::<TS, T, S>(true, s);
      assert(forall|t: T| #[trigger] Seq::<T>::empty().push(t) =~= seq![t]);
      assert(forall|t: S| #[trigger] Seq::<S>::empty().push(t) =~= seq![t]);
    }
//@ fn maybe
//@ end

//@ item src/ast.rs struct Quoted
//@ end
//@ item src/ast.rs impl Parse for Quoted props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    <(L, T, R,) as Parse<TS>>::parses(s, match r { Ok(v) => Result::<(L, T, R,)>::Ok((v.0, v.1, v.2,)), Err(e) => Err(e) }, z)
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool { L::checks(s, r) }
//@ fn parse
//@ fn maybe
//@ end

//@ item src/ast.rs struct OptPrefix
//@ end
//@ item src/ast.rs impl Parse for OptPrefix props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    <(Option<P>, T,) as Parse<TS>>::parses(s, match r { Ok(v) => Result::<(Option<P>, T,)>::Ok((v.0, v.1,)), Err(e) => Err(e) }, z)
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    ||| r != Result::<bool>::Ok(false) && P::checks(s, r)
    ||| P::checks(s, Result::<bool>::Ok(false)) && T::checks(s, r)
  }
//@ fn parse
//@ fn maybe
//@ end

/// The check of the item after a prefix token.
pub open spec fn after_prefix<TS: TokenStream, T: Parse<TS>>(s: St<TS::Token>, r: Result<bool>) -> bool {
  match s.at(0) { Ok(_) => T::checks(s.shift(1), r), Err(e) => r == Result::<bool>::Err(e) }
}
pub proof fn prefix_kept<K>(s: St<K>)
  ensures
    s.at(0) is Err ==> s.without(0) == s.shift(1) && s.good(0),
    s.at(0) is Ok ==> forall|ok: bool, z: St<K>| #[trigger] kept(s.shift(1), ok, z) ==> kept(s, ok, z.cons(s.at(0)->Ok_0)),
{
  if s.at(0) is Err { assert(s.without(0) =~= s.shift(1)); }
  if s.at(0) is Ok {
    assert forall|ok: bool, z: St<K>| #[trigger] kept(s.shift(1), ok, z) implies kept(s, ok, z.cons(s.at(0)->Ok_0)) by { prefix_kept_one(s, ok, z); }
  }
}
pub proof fn prefix_kept_one<K>(s: St<K>, ok: bool, z: St<K>)
  requires s.at(0) is Ok, kept(s.shift(1), ok, z),
  ensures kept(s, ok, z.cons(s.at(0)->Ok_0)),
{
  hide(St::good);
  let t = s.at(0)->Ok_0;
  let y = s.shift(1);
  assert(y.cons(t) =~= s);
  if z != y {
    let k = choose|k: nat| #![trigger y.at(k)] y.good(k) && y.at(k) is Err && z == y.without(k);
    good_shift(s, k);
    assert(s.at(k + 1) == y.at(k));
    cons_without(s, k);
  }
}
pub proof fn good_shift<K>(s: St<K>, k: nat) requires s.at(0) is Ok, s.shift(1).good(k), ensures s.good(k + 1),
{
  assert forall|i: nat| i < k + 1 implies #[trigger] s.at(i) is Ok by { if i > 0 { assert(s.shift(1).at((i - 1) as nat) is Ok); } }
}
pub proof fn cons_without<K>(s: St<K>, k: nat) requires s.at(0) is Ok ensures s.shift(1).without(k).cons(s.at(0)->Ok_0) == s.without(k + 1)
{
  let a = s.shift(1).without(k).cons(s.at(0)->Ok_0);
  let b = s.without(k + 1);
  assert forall|i: nat| #[trigger] (a.f)(i) == (b.f)(i) by {}
  assert(a.f =~= b.f);
}
//@ item src/ast.rs struct OptTokenPrefix
//@ end
//@ item src/ast.rs impl Parse for OptTokenPrefix props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    <(Option<P>, T,) as Parse<TS>>::parses(s, match r { Ok(v) => Result::<(Option<P>, T,)>::Ok((v.0, v.1,)), Err(e) => Err(e) }, z)
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    ||| r is Err && P::checks(s, r)
    ||| P::checks(s, Result::<bool>::Ok(true)) && after_prefix::<TS, T>(s, r)
    ||| P::checks(s, Result::<bool>::Ok(false)) && T::checks(s, r)
  }
//@ fn parse
//@ fn maybe
//@ entry
    proof { prefix_kept(tokens.rest()); }
//@ end
//@ item src/ast.rs struct TokenPrefix
//@ end
//@ item src/ast.rs impl Parse for TokenPrefix props=C20,C21
//@ ghost
  open spec fn parses(s: St<TS::Token>, r: Result<Self>, z: St<TS::Token>) -> bool {
    <(P, T,) as Parse<TS>>::parses(s, match r { Ok(v) => Result::<(P, T,)>::Ok((v.0, v.1,)), Err(e) => Err(e) }, z)
  }
  open spec fn checks(s: St<TS::Token>, r: Result<bool>) -> bool {
    ||| r is Err && P::checks(s, r)
    ||| r == Result::<bool>::Ok(false) && P::checks(s, r)
    ||| P::checks(s, Result::<bool>::Ok(true)) && after_prefix::<TS, T>(s, r)
  }
//@ fn parse
//@ fn maybe
//@ entry
    proof { prefix_kept(tokens.rest()); }
//@ end

//@ include tuples.inc.rs
}
fn main() {}
