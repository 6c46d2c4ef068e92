// ------------------------------------------------------------ the automaton built from a nondeterministic one
//@ rewrite the global counter as a parameter :: fn new(nfa: ==> fn new(c_: &mut Ids, nfa:
//@ rewrite the global counter as a parameter :: Self::new_from_nfa(nfa, ==> Self::new_from_nfa(c_, nfa,
//@ rewrite the global counter as a parameter :: Self::rebuild(dfa, syms, partition) ==> { let r_ = Self::rebuild(c_, dfa, syms, partition); r_ }
//@ rewrite reference to a list :: Self::minimize(&dfa, &syms) ==> Self::minimize(&dfa, syms.as_slice())
impl<S: Eq + Hash> ClosureBuilder<S> {
  proof fn path_reads(&self, f: MultiFA<Option<S>>, w: Seq<usize>, i: int)
    requires self.of(f), self.path(w), 0 <= i < w.len(),
    ensures reads(f, w[0], Seq::empty(), w[i]),
    decreases i,
  {
    if i == 0 { reads_nil(f, w[0]); } else {
      self.path_reads(f, w, i - 1);
      assert(self.eps(w[i - 1], w[i - 1 + 1]));
      reads_link(f, w[0], Seq::empty(), w[i - 1], None, w[i]);
    }
  }
  proof fn walk_reach(&self, f: MultiFA<Option<S>>, s: Set<usize>, p: usize, w: Trace<S>)
    requires self.of(f), s.contains(p), walk(f, p, w), word(w).len() == 0,
    ensures self.reach(s, dst(p, w)),
    decreases w.len(),
  {
    if w.len() == 0 { self.reach_base(s, p); } else {
      walk_pop(f, p, w);
      self.walk_reach(f, s, p, w.drop_last());
      assert(self.eps(dst(p, w.drop_last()), w.last().1));
      self.reach_next(s, dst(p, w.drop_last()), w.last().1);
    }
  }
  /// A closure is what is read without keys.
  proof fn reach_reads(&self, f: MultiFA<Option<S>>, s: Set<usize>, q: usize)
    requires self.of(f),
    ensures self.reach(s, q) == exists|p: usize| s.contains(p) && #[trigger] reads(f, p, Seq::empty(), q),
  {
    if self.reach(s, q) {
      reveal(ClosureBuilder::reach);
      let w = choose|w: Seq<usize>| #[trigger] self.path(w) && s.contains(w[0]) && w.last() == q;
      self.path_reads(f, w, w.len() - 1);
      assert(reads(f, w[0], Seq::empty(), q));
    }
    if exists|p: usize| s.contains(p) && #[trigger] reads(f, p, Seq::empty(), q) {
      let p = choose|p: usize| s.contains(p) && #[trigger] reads(f, p, Seq::empty(), q);
      reveal(reads);
      let w = choose|w: Trace<S>| #[trigger] walk(f, p, w) && word(w) == Seq::<S>::empty() && dst(p, w) == q;
      self.walk_reach(f, s, p, w);
    }
  }
}
/// The set of the states reached with u.
pub open spec fn after<K: Eq + Hash>(f: MultiFA<Option<K>>, u: Seq<K>, a: Set<usize>) -> bool { forall|q: usize| #[trigger] a.contains(q) == reads(f, f.init, u, q) }
proof fn after_nil<K: Eq + Hash>(cb: ClosureBuilder<K>, f: MultiFA<Option<K>>, a: Set<usize>)
  requires cb.of(f), cb.is_closure(set![f.init], a),
  ensures after(f, Seq::empty(), a),
{
  assert forall|q: usize| #[trigger] a.contains(q) == reads(f, f.init, Seq::empty(), q) by { cb.reach_reads(f, set![f.init], q); }
}
proof fn after_push<K: Eq + Hash>(cb: ClosureBuilder<K>, f: MultiFA<Option<K>>, u: Seq<K>, a: Set<usize>, k: K, b: Set<usize>)
  requires cb.of(f), after(f, u, a), cb.goes(a, k, b),
  ensures after(f, u.push(k), b),
{
  let m = choose|m: Set<usize>| (forall|q: usize| #[trigger] m.contains(q) == cb.moves(a, k, q)) && #[trigger] cb.is_closure(m, b);
  assert forall|q: usize| #[trigger] b.contains(q) == reads(f, f.init, u.push(k), q) by {
    cb.reach_reads(f, m, q);
    if b.contains(q) {
      let p = choose|p: usize| m.contains(p) && #[trigger] reads(f, p, Seq::empty(), q);
      assert(cb.moves(a, k, p));
      let o = choose|o: usize| a.contains(o) && #[trigger] cb.step(o, k, p);
      assert(step(f, o, k, p));
      reads_link(f, f.init, u, o, Some(k), p);
      reads_cat(f, f.init, u.push(k), p, Seq::empty(), q);
      assert(u.push(k) + Seq::<K>::empty() =~= u.push(k));
    }
    if reads(f, f.init, u.push(k), q) {
      let (o, p) = reads_last(f, f.init, u, k, q);
      assert(cb.step(o, k, p));
      assert(a.contains(o));
      assert(cb.moves(a, k, p));
      assert(m.contains(p));
    }
  }
}
/// The tag of the states reached: the smallest.
pub open spec fn verdict<S: Eq + Hash, T>(nfa: NFA<S, T>, u: Seq<Key<S>>, t: Option<T>) -> bool {
  match t {
    Some(t) => (exists|q: usize| #[trigger] nfa.tags@.contains_key(q) && reads(nfa.fa, nfa.fa.init, u, q) && nfa.tags@[q] == t) && forall|q: usize| #[trigger] nfa.tags@.contains_key(q) && reads(nfa.fa, nfa.fa.init, u, q) ==> le(t, nfa.tags@[q]),
    None => forall|q: usize| #[trigger] nfa.tags@.contains_key(q) ==> !reads(nfa.fa, nfa.fa.init, u, q),
  }
}
pub open spec fn has_sym<S: Eq + Hash, T>(nfa: NFA<S, T>, k: Key<S>) -> bool { exists|p: usize, q: usize| #[trigger] link(nfa.fa, p, Some(k), q) }
impl<S: Eq + Hash, T> DFA<S, T> {
  /// Reading u leads from the initial state to p.
  pub open spec fn leads(&self, u: Seq<Key<S>>, p: usize) -> bool decreases u.len() {
    if u.len() == 0 { p == self.fa.init } else { exists|m: usize| self.leads(u.drop_last(), m) && #[trigger] self.edge(m, u.last(), p) }
  }
  /// The automaton tells for every word of keys what the other tells.
  #[verifier::opaque]
  pub open spec fn decides(&self, nfa: NFA<S, T>) -> bool {
    &&& forall|u: Seq<Key<S>>, p: usize| #[trigger] self.leads(u, p) ==> self.is_state(p) && verdict(nfa, u, at(self.tags@, p))
    &&& forall|u: Seq<Key<S>>, q: usize| #[trigger] reads(nfa.fa, nfa.fa.init, u, q) ==> exists|p: usize| #[trigger] self.leads(u, p)
  }
  #[verifier::opaque]
  pub open spec fn keys_from(&self, nfa: NFA<S, T>) -> bool { forall|q: usize, k: Key<S>, p: usize| #[trigger] self.edge(q, k, p) ==> has_sym(nfa, k) }
  /// One edge for a key at most; edges lead to states, with keys of the other automaton.
  pub open spec fn simple(&self, nfa: NFA<S, T>) -> bool {
    &&& forall|q: usize| #[trigger] self.is_state(q) ==> one_edge(self.outs(q))
    &&& forall|q: usize, k: Key<S>, p: usize| #[trigger] self.edge(q, k, p) ==> self.is_state(p)
    &&& self.keys_from(nfa)
  }
  proof fn best_verdict(nfa: NFA<S, T>, u: Seq<Key<S>>, a: Set<usize>, t: Option<T>)
    requires after(nfa.fa, u, a), best(nfa.tags@, a, t),
    ensures verdict(nfa, u, t),
  {
    match t {
      Some(x) => {
        let q = choose|q: usize| a.contains(q) && #[trigger] nfa.tags@.contains_key(q) && nfa.tags@[q] == x;
        assert(reads(nfa.fa, nfa.fa.init, u, q));
        assert forall|q: usize| #[trigger] nfa.tags@.contains_key(q) && reads(nfa.fa, nfa.fa.init, u, q) implies le(x, nfa.tags@[q]) by { assert(a.contains(q)); }
      }
      None => {
        assert forall|q: usize| #[trigger] nfa.tags@.contains_key(q) implies !reads(nfa.fa, nfa.fa.init, u, q) by { assert(a.contains(q) == reads(nfa.fa, nfa.fa.init, u, q)); }
      }
    }
  }
  proof fn subset_leads(&self, nfa: NFA<S, T>, cb: ClosureBuilder<Key<S>>, ids: Map<Closure, usize>, syms: Seq<Key<S>>, u: Seq<Key<S>>, p: usize) -> (a: Closure)
    requires subset_by(*self, cb, nfa.fa.init, nfa.tags@, syms, ids), cb.of(nfa.fa), self.leads(u, p),
    ensures ids.contains_key(a), ids[a] == p, after(nfa.fa, u, a@),
    decreases u.len(),
  {
    if u.len() == 0 {
      let a = choose|a: Closure| #[trigger] ids.contains_key(a) && ids[a] == self.fa.init && cb.is_closure(set![nfa.fa.init], a@);
      after_nil(cb, nfa.fa, a@);
      assert(u =~= Seq::<Key<S>>::empty());
      a
    } else {
      let k = u.last();
      let m = choose|m: usize| self.leads(u.drop_last(), m) && #[trigger] self.edge(m, k, p);
      let a = self.subset_leads(nfa, cb, ids, syms, u.drop_last(), m);
      assert(row(cb, ids, a, self.outs(m), syms, syms.len() as int));
      assert(has_edge(self.outs(m), k, p));
      let b = choose|b: Closure| #[trigger] ids.contains_key(b) && ids[b] == p && b@ != Set::<usize>::empty() && cb.goes(a@, k, b@);
      after_push(cb, nfa.fa, u.drop_last(), a@, k, b@);
      assert(u.drop_last().push(k) =~= u);
      b
    }
  }
  proof fn subset_reads(&self, nfa: NFA<S, T>, cb: ClosureBuilder<Key<S>>, ids: Map<Closure, usize>, syms: Seq<Key<S>>, u: Seq<Key<S>>, q: usize) -> (p: usize)
    requires subset_by(*self, cb, nfa.fa.init, nfa.tags@, syms, ids), cb.of(nfa.fa), keys_of(cb, syms), reads(nfa.fa, nfa.fa.init, u, q),
    ensures self.leads(u, p),
    decreases u.len(),
  {
    if u.len() == 0 { self.fa.init } else {
      let k = u.last();
      let v = u.drop_last();
      assert(v.push(k) =~= u);
      let (o, n) = reads_last(nfa.fa, nfa.fa.init, v, k, q);
      let m = self.subset_reads(nfa, cb, ids, syms, v, o);
      let a = self.subset_leads(nfa, cb, ids, syms, v, m);
      assert(a@.contains(o));
      assert(cb.step(o, k, n));
      assert(cb.normal_edges@[o].outs@.contains_key(k));
      assert(cb.has_key(k));
      assert(syms.contains(k));
      let i = choose|i: int| 0 <= i < syms.len() && syms[i] == k;
      assert(row(cb, ids, a, self.outs(m), syms, syms.len() as int));
      assert(row_at(cb, ids, a, self.outs(m), syms[i]));
      let b = choose|b: Closure| #[trigger] cb.goes(a@, k, b@) && (b@ != Set::<usize>::empty() ==> ids.contains_key(b) && has_edge(self.outs(m), k, ids[b]));
      after_push(cb, nfa.fa, v, a@, k, b@);
      assert(b@.contains(q));
      assert(self.is_state(m));
      assert(self.edge(m, k, ids[b]));
      assert(self.leads(u, ids[b]));
      ids[b]
    }
  }
  proof fn subset_decides(&self, nfa: NFA<S, T>, syms: Seq<Key<S>>)
    requires self.subset(nfa, syms),
    ensures self.decides(nfa), self.over(syms), self.keys_from(nfa),
  {
    reveal(DFA::decides); reveal(DFA::keys_from);
    let (cb, ids) = choose|cb: ClosureBuilder<Key<S>>, ids: Map<Closure, usize>| #[trigger] subset_by(*self, cb, nfa.fa.init, nfa.tags@, syms, ids) && cb.of(nfa.fa) && keys_of(cb, syms);
    assert forall|u: Seq<Key<S>>, p: usize| #[trigger] self.leads(u, p) implies self.is_state(p) && verdict(nfa, u, at(self.tags@, p)) by {
      let a = self.subset_leads(nfa, cb, ids, syms, u, p);
      Self::best_verdict(nfa, u, a@, at(self.tags@, p));
    }
    assert forall|u: Seq<Key<S>>, q: usize| #[trigger] reads(nfa.fa, nfa.fa.init, u, q) implies exists|p: usize| #[trigger] self.leads(u, p) by {
      let p = self.subset_reads(nfa, cb, ids, syms, u, q);
    }
    assert forall|q: usize| #[trigger] self.is_state(q) implies one_edge(self.outs(q)) by {
      let a = choose|a: Closure| #[trigger] ids.contains_key(a) && ids[a] == q;
      assert(row(cb, ids, a, self.outs(q), syms, syms.len() as int));
    }
    assert forall|q: usize, k: Key<S>, p: usize| #[trigger] self.edge(q, k, p) implies self.is_state(p) && syms.contains(k) by {
      let a = choose|a: Closure| #[trigger] ids.contains_key(a) && ids[a] == q;
      assert(row(cb, ids, a, self.outs(q), syms, syms.len() as int));
      assert(has_edge(self.outs(q), k, p));
      let b = choose|b: Closure| #[trigger] ids.contains_key(b) && ids[b] == p && b@ != Set::<usize>::empty() && cb.goes(a@, k, b@);
      let i = choose|i: int| 0 <= i < syms.len() && #[trigger] syms[i] == k;
    }
    assert forall|q: usize, k: Key<S>, p: usize| #[trigger] self.edge(q, k, p) implies has_sym(nfa, k) by {
      let a = choose|a: Closure| #[trigger] ids.contains_key(a) && ids[a] == q;
      assert(row(cb, ids, a, self.outs(q), syms, syms.len() as int));
      assert(has_edge(self.outs(q), k, p));
      let b = choose|b: Closure| #[trigger] ids.contains_key(b) && ids[b] == p && b@ != Set::<usize>::empty() && cb.goes(a@, k, b@);
      assert(inhabited(b@)) by { if forall|x: usize| !b@.contains(x) { assert(b@ =~= Set::<usize>::empty()); } }
      let x = choose|x: usize| #[trigger] b@.contains(x);
      let m = choose|m: Set<usize>| (forall|q: usize| #[trigger] m.contains(q) == cb.moves(a@, k, q)) && #[trigger] cb.is_closure(m, b@);
      cb.reach_reads(nfa.fa, m, x);
      let y = choose|y: usize| m.contains(y) && #[trigger] reads(nfa.fa, y, Seq::empty(), x);
      assert(cb.moves(a@, k, y));
      let o = choose|o: usize| a@.contains(o) && #[trigger] cb.step(o, k, y);
      assert(step(nfa.fa, o, k, y));
      assert(link(nfa.fa, o, Some(k), y));
    }
  }
  proof fn image_leads(&self, d: &DFA<S, T>, h: Map<usize, usize>, syms: Seq<Key<S>>, u: Seq<Key<S>>, p: usize)
    requires self.image(d, h), d.over(syms), d.sound(), self.leads(u, p),
    ensures exists|q: usize| #[trigger] d.leads(u, q) && d.is_state(q) && h[q] == p,
    decreases u.len(),
  {
    reveal(DFA::image);
    if u.len() == 0 { assert(d.leads(u, d.fa.init)); } else {
      let k = u.last();
      let m = choose|m: usize| self.leads(u.drop_last(), m) && #[trigger] self.edge(m, k, p);
      self.image_leads(d, h, syms, u.drop_last(), m);
      let q = choose|q: usize| #[trigger] d.leads(u.drop_last(), q) && d.is_state(q) && h[q] == m;
      assert(self.edge(h[q], k, p));
      assert(d.edge_to(h, q, k, p));
      let x = choose|x: usize| #[trigger] d.edge(q, k, x) && h[x] == p;
      assert(d.leads(u, x));
    }
  }
  proof fn leads_image(&self, d: &DFA<S, T>, h: Map<usize, usize>, u: Seq<Key<S>>, q: usize)
    requires self.image(d, h), d.leads(u, q),
    ensures self.leads(u, h[q]),
    decreases u.len(),
  {
    reveal(DFA::image);
    if u.len() > 0 {
      let m = choose|m: usize| d.leads(u.drop_last(), m) && #[trigger] d.edge(m, u.last(), q);
      self.leads_image(d, h, u.drop_last(), m);
      assert(self.edge(h[m], u.last(), h[q]));
    }
  }
  proof fn image_decides(&self, d: &DFA<S, T>, h: Map<usize, usize>, syms: Seq<Key<S>>, nfa: NFA<S, T>)
    requires self.image(d, h), d.over(syms), d.sound(), d.decides(nfa), d.keys_from(nfa),
    ensures self.decides(nfa), self.keys_from(nfa), self.over(syms), forall|q: usize| #[trigger] self.is_state(q) ==> one_edge(self.outs(q)),
  {
    reveal(DFA::image);
    reveal(DFA::decides); reveal(DFA::keys_from);
    assert forall|u: Seq<Key<S>>, p: usize| #[trigger] self.leads(u, p) implies self.is_state(p) && verdict(nfa, u, at(self.tags@, p)) by {
      self.image_leads(d, h, syms, u, p);
      let q = choose|q: usize| #[trigger] d.leads(u, q) && d.is_state(q) && h[q] == p;
      assert(verdict(nfa, u, at(d.tags@, q)));
    }
    assert forall|u: Seq<Key<S>>, q: usize| #[trigger] reads(nfa.fa, nfa.fa.init, u, q) implies exists|p: usize| #[trigger] self.leads(u, p) by {
      let p = choose|p: usize| #[trigger] d.leads(u, p);
      self.leads_image(d, h, u, p);
    }
    assert forall|q: usize, k: Key<S>, p: usize| #[trigger] self.edge(q, k, p) implies self.is_state(p) && syms.contains(k) by {
      let x = choose|x: usize| #[trigger] d.is_state(x) && h[x] == q;
      assert(self.edge(h[x], k, p));
      assert(d.edge_to(h, x, k, p));
      let y = choose|y: usize| #[trigger] d.edge(x, k, y) && h[y] == p;
      assert(d.is_state(y));
    }
    assert forall|q: usize, k: Key<S>, p: usize| #[trigger] self.edge(q, k, p) implies has_sym(nfa, k) by {
      let x = choose|x: usize| #[trigger] d.is_state(x) && h[x] == q;
      assert(self.edge(h[x], k, p));
      assert(d.edge_to(h, x, k, p));
      let y = choose|y: usize| #[trigger] d.edge(x, k, y) && h[y] == p;
    }
  }
  proof fn the_image(&self, d: &DFA<S, T>) -> (h: Map<usize, usize>)
    requires self.some_image(d),
    ensures self.image(d, h),
  {
    reveal(DFA::some_image);
    choose|h: Map<usize, usize>| #[trigger] self.image(d, h)
  }
  proof fn built(&self, d: &DFA<S, T>, syms: Seq<Key<S>>, nfa: NFA<S, T>)
    requires d.subset(nfa, syms), d.sound(), self.some_image(d),
    ensures self.decides(nfa), self.simple(nfa),
  {
    let h = self.the_image(d);
    d.subset_decides(nfa, syms);
    self.image_decides(d, h, syms, nfa);
  }
  proof fn ready(&self, syms: Seq<Key<S>>, nfa: NFA<S, T>)
    requires self.subset(nfa, syms),
    ensures self.over(syms),
  { self.subset_decides(nfa, syms); }
}
//@ item laps_regex/src/dfa.rs impl DFA#0
//@ drop new_from_nfa minimize rebuild into_fa_tags dump
//@ fn new
    ensures r.sound(), r.decides(nfa), r.simple(nfa),
//@ entry
    let ghost n0 = nfa;
//@ after let (dfa, syms) = $s_e;
    proof { dfa.ready(syms@, n0); }
    let ghost d0 = dfa;
    let ghost s0 = syms@;
//@ after let r_ = $s_e;
    proof { r_.built(&d0, s0, n0); }
//@ end
