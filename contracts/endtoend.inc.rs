// ------------------------------------------------------------ from the table back to the expression
/// A state is left with a key for one state only.
pub proof fn edge_one<S, T>(d: DFA<S, T>, q: usize, k: Key<S>, p: usize, r: usize)
  requires d.wf(), d.edge(q, k, p), d.edge(q, k, r),
  ensures p == r,
{
  let o = d.outs(q);
  let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == (k, p);
  let j = choose|j: int| 0 <= j < o.len() && #[trigger] o[j] == (k, r);
  assert(one_edge(o));
  if i < j { assert(o[i].0 != o[j].0); }
  if j < i { assert(o[j].0 != o[i].0); }
}
/// A symbol is in one key only.
pub proof fn key_one<S, T>(d: DFA<S, T>, a: Key<S>, b: Key<S>, c: S)
  requires d.wf(), d.is_key(a), d.is_key(b), within(a@, c), within(b@, c),
  ensures a == b,
{ if a != b { assert(apart(a@, b@)); } }
pub proof fn spells_pop<S>(u: Keys<S>, w: Seq<S>)
  requires spells(u, w), w.len() > 0,
  ensures u.len() == w.len(), spells(u.drop_last(), w.drop_last()), within(u.last()@, w.last()),
{
  assert forall|i: int| 0 <= i < u.drop_last().len() implies within((#[trigger] u.drop_last()[i])@, w.drop_last()[i]) by { assert(within(u[i]@, w[i])); }
  assert(within(u[u.len() - 1]@, w[u.len() - 1]));
}
/// A sequence of symbols is read as one word of keys, and leads to one state.
pub proof fn leads_one<S: Eq + Hash, T>(d: DFA<S, T>, w: Seq<S>, u: Keys<S>, p: usize, v: Keys<S>, q: usize)
  requires d.wf(), d.leads(u, p), spells(u, w), d.leads(v, q), spells(v, w),
  ensures u == v, p == q,
  decreases w.len(),
{
  if w.len() == 0 { assert(u =~= v); } else {
    spells_pop(u, w); spells_pop(v, w);
    let m = choose|m: usize| d.leads(u.drop_last(), m) && #[trigger] d.edge(m, u.last(), p);
    let n = choose|n: usize| d.leads(v.drop_last(), n) && #[trigger] d.edge(n, v.last(), q);
    leads_one(d, w.drop_last(), u.drop_last(), m, v.drop_last(), n);
    key_one(d, u.last(), v.last(), w.last());
    edge_one(d, m, u.last(), p, q);
    assert(u =~= u.drop_last().push(u.last()));
    assert(v =~= v.drop_last().push(v.last()));
  }
}
pub proof fn leads_state<S: Eq + Hash, T>(d: DFA<S, T>, u: Keys<S>, p: usize)
  requires d.wf(), d.leads(u, p),
  ensures d.is_state(p),
{ if u.len() > 0 { let m = choose|m: usize| d.leads(u.drop_last(), m) && #[trigger] d.edge(m, u.last(), p); } }
/// A word of keys which spells w leads to the state with number i.
pub open spec fn led<S: Eq + Hash, T>(d: DFA<S, T>, ids: Map<usize, usize>, w: Seq<S>, i: usize) -> bool {
  exists|u: Keys<S>, p: usize| #[trigger] d.leads(u, p) && spells(u, w) && ids[p] == i
}
/// The table goes where the automaton goes.
pub proof fn table_run<S: Eq + Hash, T>(t: StateTransTable<S, T>, d: DFA<S, T>, ids: Map<usize, usize>, w: Seq<S>)
  requires d.wf(), t.of(d, ids),
  ensures match t.run(t.init_id, w) { Some(i) => led(d, ids, w, i), None => forall|u: Keys<S>, p: usize| #[trigger] d.leads(u, p) ==> !spells(u, w) },
  decreases w.len(),
{
  if w.len() == 0 {
    let u: Keys<S> = Seq::empty();
    assert(d.leads(u, d.fa.init)); assert(spells(u, w));
  } else {
    let x = w.drop_last(); let c = w.last();
    table_run(t, d, ids, x);
    match t.run(t.init_id, x) {
      Some(i) => {
        let (u, m) = choose|u: Keys<S>, m: usize| #[trigger] d.leads(u, m) && spells(u, x) && ids[m] == i;
        leads_state(d, u, m);
        if exists|p: usize| #[trigger] d.goes(m, c, p) {
          let p = choose|p: usize| #[trigger] d.goes(m, c, p);
          let k = choose|k: Vec<(S, S)>| #[trigger] d.edge(m, k, p) && within(k@, c);
          let v = u.push(k);
          assert(v.drop_last() =~= u);
          assert(v.last() == k && d.edge(m, v.last(), p));
          assert(d.leads(v, p));
          assert forall|j: int| 0 <= j < v.len() implies within((#[trigger] v[j])@, w[j]) by { if j < u.len() { assert(within(u[j]@, x[j])); } }
          assert(spells(v, w));
          assert(t.next(ids[m], c) == Some(ids[p]));
        } else {
          assert(t.next(ids[m], c) is None);
          assert forall|v: Keys<S>, q: usize| #[trigger] d.leads(v, q) implies !spells(v, w) by {
            if spells(v, w) {
              spells_pop(v, w);
              let n = choose|n: usize| d.leads(v.drop_last(), n) && #[trigger] d.edge(n, v.last(), q);
              leads_one(d, x, u, m, v.drop_last(), n);
              assert(d.goes(m, c, q));
            }
          }
        }
      }
      None => {
        assert forall|v: Keys<S>, q: usize| #[trigger] d.leads(v, q) implies !spells(v, w) by {
          if spells(v, w) {
            spells_pop(v, w);
            let n = choose|n: usize| d.leads(v.drop_last(), n) && #[trigger] d.edge(n, v.last(), q);
            assert(!spells(v.drop_last(), x));
          }
        }
      }
    }
  }
}
/// The automaton's keys are those of the expression.
pub proof fn dfa_wf<S: Eq + Hash, T>(d: DFA<S, T>, nfa: NFA<S, T>, m: Mir<S, T>)
  requires
    d.sound(), d.simple(nfa), nm::of(nfa, m), om::keys_apart(m),
    forall|k: Vec<(S, S)>| #[trigger] has_range(m, k) ==> proper(k@),
  ensures d.wf(),
{
  reveal(DFA::keys_from);
  assert forall|q: usize, k: Vec<(S, S)>, p: usize| #[trigger] d.edge(q, k, p) implies d.is_state(p) && proper(k@) && has_range(m, k) by {
    assert(dm::has_sym(nfa, k));
    assert(nm::has_sym(nfa, k));
  }
  assert forall|a: Vec<(S, S)>, b: Vec<(S, S)>| #[trigger] d.is_key(a) && #[trigger] d.is_key(b) && a != b implies apart(a@, b@) by {
    assert(has_range(m, a)); assert(has_range(m, b));
  }
}
/// The smallest of the tags the expression gives.
pub open spec fn least<S, T>(m: Mir<S, T>, w: Seq<S>, r: Option<T>) -> bool {
  match r {
    Some(t) => tells(m, w, t) && forall|x: T| #[trigger] tells(m, w, x) ==> dm::le(t, x),
    None => forall|x: T| !#[trigger] tells(m, w, x),
  }
}
pub open spec fn table_verdict<S, T>(t: StateTransTable<S, T>, w: Seq<S>) -> Option<T> {
  match t.run(t.init_id, w) { Some(i) => at(t.tags@, i), None => None }
}
/// A word on which the expression has a tag is led to a state, by that word of keys only.
proof fn told_led<S: Eq + Hash, T>(d: DFA<S, T>, nfa: NFA<S, T>, m: Mir<S, T>, w: Seq<S>, x: T) -> (r: (Keys<S>, usize))
  requires d.wf(), d.decides(nfa), nm::of(nfa, m), tells(m, w, x),
  ensures d.leads(r.0, r.1), spells(r.0, w), nfa.says(r.0, x), dm::verdict(nfa, r.0, at(d.tags@, r.1)),
{
  reveal(tells); reveal(DFA::decides);
  let v = choose|v: Keys<S>| #[trigger] says(m, v, x) && spells(v, w);
  assert(nfa.says(v, x));
  let q = choose|q: usize| #[trigger] reads(nfa.fa, nfa.fa.init, v, q) && nfa.tags@.contains_key(q) && nfa.tags@[q] == x;
  let p = choose|p: usize| #[trigger] d.leads(v, p);
  (v, p)
}
pub proof fn table_least<S: Eq + Hash, T>(t: StateTransTable<S, T>, d: DFA<S, T>, ids: Map<usize, usize>, nfa: NFA<S, T>, m: Mir<S, T>, w: Seq<S>)
  requires d.wf(), t.of(d, ids), d.decides(nfa), nm::of(nfa, m),
  ensures least(m, w, table_verdict(t, w)),
{
  reveal(DFA::decides);
  table_run(t, d, ids, w);
  match t.run(t.init_id, w) {
    Some(i) => {
      let (u, p) = choose|u: Keys<S>, p: usize| #[trigger] d.leads(u, p) && spells(u, w) && ids[p] == i;
      leads_state(d, u, p);
      let g = at(d.tags@, p);
      assert(dm::verdict(nfa, u, g));
      assert(g == at(t.tags@, i)) by {
        if t.tags@.contains_key(i) {
          let q = choose|q: usize| #[trigger] d.tags@.contains_key(q) && ids[q] == i;
          assert(d.is_state(q));
          assert(ids.contains_key(p) && ids.contains_key(q));
        }
      }
      assert forall|x: T| #[trigger] tells(m, w, x) implies g is Some && dm::le(g->0, x) by {
        let (v, q) = told_led(d, nfa, m, w, x);
        leads_one(d, w, u, p, v, q);
        let s = choose|s: usize| #[trigger] reads(nfa.fa, nfa.fa.init, v, s) && nfa.tags@.contains_key(s) && nfa.tags@[s] == x;
      }
      match g {
        Some(y) => {
          let s = choose|s: usize| #[trigger] nfa.tags@.contains_key(s) && reads(nfa.fa, nfa.fa.init, u, s) && nfa.tags@[s] == y;
          assert(nfa.says(u, y));
          assert(says(m, u, y));
          assert(tells(m, w, y)) by { reveal(tells); }
        }
        None => {}
      }
    }
    None => {
      assert forall|x: T| !#[trigger] tells(m, w, x) by { if tells(m, w, x) { let (v, q) = told_led(d, nfa, m, w, x); } }
    }
  }
}
// ------------------------------------------------------------ a list of tagged trees
/// Some tree with the tag matches.
pub open spec fn tagged_fit<S, T>(hs: Seq<Hir>, ts: Seq<T>, w: Seq<S>, t: T) -> bool { exists|j: int| 0 <= j < hs.len() && hm::hfits((#[trigger] hs[j]).kind, w) && ts[j] == t }
/// The smallest tag of the trees which match.
pub open spec fn smallest<S, T>(hs: Seq<Hir>, ts: Seq<T>, w: Seq<S>, r: Option<T>) -> bool {
  match r {
    Some(t) => tagged_fit(hs, ts, w, t) && forall|x: T| #[trigger] tagged_fit(hs, ts, w, x) ==> dm::le(t, x),
    None => forall|x: T| !#[trigger] tagged_fit(hs, ts, w, x),
  }
}
pub open spec fn all_regular<S>(hs: Seq<Hir>) -> bool { forall|j: int| 0 <= j < hs.len() ==> hm::regular::<S>((#[trigger] hs[j]).kind) }
/// The i-th alternative is the expression of the i-th tree, with its tag.
pub open spec fn all_built<S, T>(hs: Seq<Hir>, ts: Seq<T>, o: Seq<(Mir<S, T>, Option<T>)>) -> bool {
  &&& o.len() == hs.len()
  &&& forall|j: int| 0 <= j < o.len() ==> hm::built(hs[j].kind, (#[trigger] o[j]).0) && o[j].1 == Some(ts[j])
}
pub proof fn list_means<S, T>(hs: Seq<Hir>, ts: Seq<T>, o: Vec<(Mir<S, T>, Option<T>)>)
  requires all_built(hs, ts, o@), hs.len() > 0,
  ensures
    placed(Mir::Alter(o)), valid(Mir::Alter(o)),
    all_regular::<S>(hs) ==> full(Mir::Alter(o)) && !hole(Mir::Alter(o)),
    forall|w: Seq<S>, t: T| #[trigger] tells(Mir::Alter(o), w, t) == tagged_fit(hs, ts, w, t),
{
  let m = Mir::Alter(o);
  assert(m->Alter_0 == o);
  assert forall|j: int| 0 <= j < o.len() implies hm::built(hs[j].kind, (#[trigger] o[j]).0) && o[j].1 == Some(ts[j]) && placed(o[j].0) by {
    assert(hm::built(hs[j].kind, o@[j].0));
    untagged_placed(o[j].0);
  }
  assert(valid(m)) by { assert forall|k: Vec<(S, S)>| #[trigger] has_range(m, k) implies valid_one(k@) by { let j = choose|j: int| 0 <= j < o.len() && has_range((#[trigger] o[j]).0, k); assert(valid(o[j].0)); } }
  if all_regular::<S>(hs) {
    assert forall|j: int| 0 <= j < o.len() implies full((#[trigger] o[j]).0) && !hole(o[j].0) by { assert(hm::regular::<S>(hs[j].kind)); }
    if hole(m) { let k = choose|k: Vec<(S, S)>| #[trigger] has_range(m, k) && k@.len() == 0; let j = choose|j: int| 0 <= j < o.len() && has_range((#[trigger] o[j]).0, k); assert(hole(o[j].0)); }
  }
  assert forall|w: Seq<S>, t: T| #[trigger] tells(m, w, t) == tagged_fit(hs, ts, w, t) by {
    fits_alter(o, w);
    if tells_altq(o@, w, t) {
      let j = choose|j: int| 0 <= j < o@.len() && ((#[trigger] o@[j]).1 == Some(t) && fits(o@[j].0, w) || tells(o@[j].0, w, t));
      assert(hm::built(hs[j].kind, o[j].0));
      if tells(o@[j].0, w, t) { reveal(tells); let u = choose|u: Keys<S>| #[trigger] says(o@[j].0, u, t) && spells(u, w); untagged_silent(o@[j].0, u, t); }
      assert(hm::hfits(hs[j].kind, w));
    }
    if tagged_fit(hs, ts, w, t) {
      let j = choose|j: int| 0 <= j < hs.len() && hm::hfits((#[trigger] hs[j]).kind, w) && ts[j] == t;
      assert(hm::built(hs[j].kind, o@[j].0) && o@[j].1 == Some(ts[j]));
      assert(fits(o@[j].0, w));
    }
  }
}
pub proof fn least_smallest<S, T>(hs: Seq<Hir>, ts: Seq<T>, m: Mir<S, T>, x: Mir<S, T>, w: Seq<S>, r: Option<T>)
  requires forall|w: Seq<S>, t: T| #[trigger] tells(m, w, t) == tagged_fit(hs, ts, w, t), equal(m, x), least(x, w, r),
  ensures smallest(hs, ts, w, r),
{
  reveal(equal);
  assert forall|t: T| #[trigger] tells(x, w, t) == tagged_fit(hs, ts, w, t) by { assert(tells(m, w, t) == tagged_fit(hs, ts, w, t)); }
  assert forall|t: T| #[trigger] tagged_fit(hs, ts, w, t) == tells(x, w, t) by {}
}
