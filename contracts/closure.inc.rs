// ------------------------------------------------------------ closures of the states of an automaton
//@ rewrite entries of a map in some order :: in fa.states { ==> in fa.states.into_entries_() {
//@ rewrite entries of a map in some order :: in s.outs { ==> in s.outs.into_entries_() {
//@ rewrite HashMap::entry and or_insert_with of a pure value :: .entry(id) .or_insert_with(|| State::new()) ==> .entry_or_(id, MultiState::new())
//@ rewrite members of a set in some order :: in to_ids { ==> in to_ids.items_() {
//@ rewrite members of a set in some order :: in states { ==> in states.items_() {
//@ rewrite members of a set in some order :: closure.iter().copied().collect() ==> closure.copied_()
//@ rewrite conversion at the call :: <Ids>(&self, cached: &mut CachedClosures, ids: Ids) ==> (&self, cached: &mut CachedClosures, ids: Closure)
//@ rewrite conversion at the call :: Closure where Ids: Into<Closure>, { let mut closure = ids.into(); ==> Closure { let mut closure = ids;
//@ rewrite iterator adapters to loops :: self.normal_edges.values().flat_map(|$i_s| $e.keys().cloned()).collect() ==> { let mut m_ = HashSet::new(); for (_, $i_s) in self.normal_edges.entries_() { for k_ in $e.keys_() { m_.insert(clone_(k_)); } } m_ }
//@ rewrite Option::and_then to a match :: = $o.and_then(|$i_s| $e) { ==> = match $o { Some($i_s) => $e, None => None } {
//@ rewrite type annotation :: let mut empty_edges = HashMap::new(); ==> let mut empty_edges: HashMap<usize, HashSet<usize>> = HashMap::new();
//@ rewrite type annotation :: let mut normal_edges: HashMap<_, ==> let mut normal_edges: HashMap<usize,

//@ include finite.inc.rs
//@ item laps_regex/src/fa.rs struct ClosureBuilder attr=reject_recursive_types(S)
//@ end
//@ item laps_regex/src/fa.rs type Closure
//@ end
//@ item laps_regex/src/fa.rs type CachedClosures
//@ end
/// What a nondeterministic automaton over keys is made of.
pub open spec fn eps<K: Eq + Hash>(f: MultiFA<Option<K>>, p: usize, q: usize) -> bool { f.states@.contains_key(p) && f.states@[p].to(None, q) }
pub open spec fn step<K: Eq + Hash>(f: MultiFA<Option<K>>, p: usize, k: K, q: usize) -> bool { f.states@.contains_key(p) && f.states@[p].to(Some(k), q) }
impl<S: Eq + Hash> ClosureBuilder<S> {
  pub open spec fn of(&self, f: MultiFA<Option<S>>) -> bool {
    &&& forall|p: usize, q: usize| #[trigger] self.eps(p, q) == eps(f, p, q)
    &&& forall|p: usize, k: S, q: usize| #[trigger] self.step(p, k, q) == step(f, p, k, q)
  }
}
impl<S> ClosureBuilder<S> {
  pub open spec fn eps(&self, p: usize, q: usize) -> bool { self.empty_edges@.contains_key(p) && self.empty_edges@[p]@.contains(q) }
  pub open spec fn step(&self, p: usize, k: S, q: usize) -> bool { self.normal_edges@.contains_key(p) && self.normal_edges@[p].to(k, q) }
  pub open spec fn path(&self, w: Seq<usize>) -> bool { w.len() > 0 && forall|i: int| 0 <= i < w.len() - 1 ==> #[trigger] self.eps(w[i], w[i + 1]) }
  /// A state is reached from the set by empty edges.
  #[verifier::opaque]
  pub open spec fn reach(&self, s: Set<usize>, q: usize) -> bool { exists|w: Seq<usize>| #[trigger] self.path(w) && s.contains(w[0]) && w.last() == q }
  pub open spec fn is_closure(&self, s: Set<usize>, r: Set<usize>) -> bool { forall|q: usize| #[trigger] r.contains(q) == self.reach(s, q) }
  pub open spec fn cache_ok(&self, c: CachedClosures) -> bool { forall|s: Closure| #[trigger] c@.contains_key(s) ==> self.is_closure(s@, c@[s]@) }
  pub open spec fn closed(&self, r: Set<usize>) -> bool { forall|p: usize, q: usize| #[trigger] self.eps(p, q) && r.contains(p) ==> r.contains(q) }
  proof fn reach_base(&self, s: Set<usize>, q: usize)
    requires s.contains(q),
    ensures self.reach(s, q),
  { reveal(ClosureBuilder::reach); assert(self.path(seq![q])); }
  proof fn reach_next(&self, s: Set<usize>, p: usize, q: usize)
    requires self.reach(s, p), self.eps(p, q),
    ensures self.reach(s, q),
  {
    reveal(ClosureBuilder::reach);
    let w = choose|w: Seq<usize>| #[trigger] self.path(w) && s.contains(w[0]) && w.last() == p;
    let v = w.push(q);
    assert forall|i: int| 0 <= i < v.len() - 1 implies #[trigger] self.eps(v[i], v[i + 1]) by { if i < w.len() - 1 { assert(self.eps(w[i], w[i + 1])); } }
    assert(self.path(v));
  }
  proof fn closed_reach(&self, s: Set<usize>, r: Set<usize>, w: Seq<usize>, j: int)
    requires s.subset_of(r), self.closed(r), self.path(w), s.contains(w[0]), 0 <= j < w.len(),
    ensures r.contains(w[j]),
    decreases j,
  { if j > 0 { self.closed_reach(s, r, w, j - 1); assert(self.eps(w[j - 1], w[j - 1 + 1])); } }
  proof fn least(&self, s: Set<usize>, r: Set<usize>)
    requires s.subset_of(r), self.closed(r), forall|q: usize| #[trigger] r.contains(q) ==> self.reach(s, q),
    ensures self.is_closure(s, r),
  {
    reveal(ClosureBuilder::reach);
    assert forall|q: usize| #[trigger] r.contains(q) == self.reach(s, q) by {
      if self.reach(s, q) { let w = choose|w: Seq<usize>| #[trigger] self.path(w) && s.contains(w[0]) && w.last() == q; self.closed_reach(s, r, w, w.len() - 1); }
    }
  }
  /// The states of c without those of n have their successors in c.
  #[verifier::opaque]
  pub open spec fn pending(&self, c: Set<usize>, n: Seq<usize>) -> bool { forall|p: usize, q: usize| #[trigger] self.eps(p, q) && c.contains(p) && !n.contains(p) ==> c.contains(q) }
  proof fn pending_first(&self, c: Set<usize>, n: Seq<usize>)
    requires members(n, c),
    ensures self.pending(c, n),
  { reveal(ClosureBuilder::pending); }
  proof fn pending_last(&self, c: Set<usize>, n: Seq<usize>)
    requires self.pending(c, n), n.len() == 0,
    ensures self.closed(c),
  { reveal(ClosureBuilder::pending); }
  proof fn pending_next(&self, c0: Set<usize>, n0: Seq<usize>, id: usize, c: Set<usize>, n: Seq<usize>)
    requires
      self.pending(c0, n0.push(id)), c0.subset_of(c), n.len() >= n0.len(), n.take(n0.len() as int) == n0,
      forall|q: usize| #[trigger] c.contains(q) ==> c0.contains(q) || n.contains(q),
      forall|q: usize| #[trigger] self.eps(id, q) ==> c.contains(q),
    ensures self.pending(c, n),
  {
    reveal(ClosureBuilder::pending);
    assert forall|p: usize, q: usize| #[trigger] self.eps(p, q) && c.contains(p) && !n.contains(p) implies c.contains(q) by {
      if p != id {
        vstd::seq_lib::lemma_seq_contains_after_push(n0, id, p);
        if n0.contains(p) { let j = choose|j: int| 0 <= j < n0.len() && n0[j] == p; assert(n.take(n0.len() as int)[j] == n[j]); assert(n.contains(p)); }
      }
    }
  }
  /// What a set of states steps to with a key.
  pub open spec fn moves(&self, a: Set<usize>, k: S, q: usize) -> bool { exists|p: usize| a.contains(p) && #[trigger] self.step(p, k, q) }
  /// The closure of that.
  pub open spec fn goes(&self, a: Set<usize>, k: S, b: Set<usize>) -> bool { exists|m: Set<usize>| (forall|q: usize| #[trigger] m.contains(q) == self.moves(a, k, q)) && #[trigger] self.is_closure(m, b) }
  proof fn all_moves(&self, e: Seq<&usize>, a: Set<usize>, k: S, m: Set<usize>)
    requires members(derefs(e), a),
    ensures (forall|q: usize| #[trigger] m.contains(q) == exists|i: int| 0 <= i < e.len() && self.step(*#[trigger] e[i], k, q)) ==> forall|q: usize| #[trigger] m.contains(q) == self.moves(a, k, q),
  {
    if forall|q: usize| #[trigger] m.contains(q) == exists|i: int| 0 <= i < e.len() && self.step(*#[trigger] e[i], k, q) {
      let d = derefs(e);
      assert forall|q: usize| #[trigger] m.contains(q) == self.moves(a, k, q) by {
        if m.contains(q) { let i = choose|i: int| 0 <= i < e.len() && self.step(*#[trigger] e[i], k, q); assert(a.contains(d[i])); }
        if self.moves(a, k, q) { let p = choose|p: usize| a.contains(p) && #[trigger] self.step(p, k, q); assert(d.contains(p)); let i = choose|i: int| 0 <= i < d.len() && d[i] == p; assert(self.step(*e[i], k, q)); }
      }
    }
  }
  proof fn all_keys(&self, e: Seq<(&usize, &MultiState<S>)>, m: Set<S>)
    requires lists(derefs2(e), self.normal_edges@),
    ensures (forall|k: S| #[trigger] m.contains(k) == exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).1.outs@.contains_key(k)) ==> forall|k: S| #[trigger] m.contains(k) == self.has_key(k),
  {
    if forall|k: S| #[trigger] m.contains(k) == exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).1.outs@.contains_key(k) {
      let d = derefs2(e);
      assert forall|k: S| #[trigger] m.contains(k) == self.has_key(k) by {
        if m.contains(k) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).1.outs@.contains_key(k); assert(self.normal_edges@.contains_key(d[i].0)); assert(self.normal_edges@[d[i].0].outs@.contains_key(k)); }
        if self.has_key(k) {
          let p = choose|p: usize| self.normal_edges@.contains_key(p) && (#[trigger] self.normal_edges@[p]).outs@.contains_key(k);
          let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == p;
          assert(e[i].1.outs@.contains_key(k));
        }
      }
    }
  }
  pub open spec fn is_symbol(&self, k: S) -> bool { exists|p: usize, q: usize| #[trigger] self.step(p, k, q) }
}
//@ item laps_regex/src/fa.rs impl From for ClosureBuilder
//@ header impl<S> ClosureBuilder<S> where S: Eq + Hash,
//@ fn from attr=loop_isolation(false)
    ensures r.of(fa),
//@ entry
    let ghost f = fa;
//@ loop 0
    invariant
      lists(it0.seq(), f.states@),
      forall|p: usize| #[trigger] $let0@.contains_key(p) ==> exists|i: int| 0 <= i < it0.index@ && (#[trigger] it0.seq()[i]).0 == p,
      forall|p: usize| #[trigger] $let1@.contains_key(p) ==> exists|i: int| 0 <= i < it0.index@ && (#[trigger] it0.seq()[i]).0 == p,
      forall|i: int, q: usize| 0 <= i < it0.index@ ==> empty_of($let0@, it0.seq()[i].0, q) == #[trigger] it0.seq()[i].1.to(None, q),
      forall|i: int, k: S, q: usize| 0 <= i < it0.index@ ==> normal_of($let1@, it0.seq()[i].0, k, q) == #[trigger] it0.seq()[i].1.to(Some(k), q),
//@ loopbody 0
      let ghost st = s;
      let ghost id0 = id;
      let ghost (em, nm) = ($let0@, $let1@);
      proof {
        assert(it0.seq()[it0.index@] == (id, s));
        assert(forall|i: int| 0 <= i < it0.index@ ==> (#[trigger] it0.seq()[i]).0 != id);
        assert(!em.contains_key(id) && !nm.contains_key(id));
      }
//@ loop 1
    invariant
      lists(it1.seq(), st.outs@), id == id0,
      forall|p: usize| p != id0 ==> (#[trigger] $let0@.contains_key(p) == em.contains_key(p)) && $let0@[p] == em[p],
      forall|p: usize| p != id0 ==> (#[trigger] $let1@.contains_key(p) == nm.contains_key(p)) && $let1@[p] == nm[p],
      forall|q: usize| #[trigger] empty_of($let0@, id0, q) == exists|i: int| 0 <= i < it1.index@ && (#[trigger] it1.seq()[i]).0 is None && it1.seq()[i].1@.contains(q),
      forall|k: S, q: usize| #[trigger] normal_of($let1@, id0, k, q) == exists|i: int| 0 <= i < it1.index@ && (#[trigger] it1.seq()[i]).0 == Some(k) && it1.seq()[i].1@.contains(q),
//@ loopbody 1
        let ghost (e1, n1) = ($let0@, $let1@);
        let ghost (s1, t1) = (s, to);
        proof { assert(it1.seq()[it1.index@] == (s, to)); }
//@ loopend 1
        proof {
          assert forall|q: usize| #[trigger] empty_of($let0@, id0, q) == exists|i: int| 0 <= i < it1.index@ + 1 && (#[trigger] it1.seq()[i]).0 is None && it1.seq()[i].1@.contains(q) by {
            assert(empty_of(e1, id0, q) ==> empty_of($let0@, id0, q));
          }
          assert forall|k: S, q: usize| #[trigger] normal_of($let1@, id0, k, q) == exists|i: int| 0 <= i < it1.index@ + 1 && (#[trigger] it1.seq()[i]).0 == Some(k) && it1.seq()[i].1@.contains(q) by {
            assert(forall|i: int| 0 <= i < it1.index@ ==> (#[trigger] it1.seq()[i]).0 != s1);
            assert(normal_of(n1, id0, k, q) ==> normal_of($let1@, id0, k, q));
            if s1 == Some(k) {
              assert(!normal_of(n1, id0, k, q));
              assert($let1@[id0].outs@[k] == t1);
            } else {
              assert(normal_of(n1, id0, k, q) == normal_of($let1@, id0, k, q));
            }
          }
        }
//@ end
pub open spec fn empty_of(m: Map<usize, HashSet<usize>>, p: usize, q: usize) -> bool { m.contains_key(p) && m[p]@.contains(q) }
pub open spec fn normal_of<S>(m: Map<usize, MultiState<S>>, p: usize, k: S, q: usize) -> bool { m.contains_key(p) && m[p].to(k, q) }
//@ item laps_regex/src/fa.rs impl ClosureBuilder
//@ fn symbol_set attr=loop_isolation(false)
    ensures forall|k: S| #![trigger r@.contains(k)] #![trigger self.has_key(k)] r@.contains(k) == self.has_key(k),
//@ loop 0
    invariant
      lists(derefs2(it0.seq()), self.normal_edges@),
      forall|k: S| #[trigger] m_@.contains(k) == exists|i: int| 0 <= i < it0.index@ && (#[trigger] it0.seq()[i]).1.outs@.contains_key(k),
      it0.index@ == it0.seq().len() ==> forall|k: S| #[trigger] m_@.contains(k) == self.has_key(k),
//@ loopbody 0
        let ghost m0 = m_@;
        let ghost st = *s;
        proof { assert(*it0.seq()[it0.index@].1 == st); }
//@ loopend 0
        proof {
          assert forall|k: S| #[trigger] m_@.contains(k) == exists|i: int| 0 <= i < it0.index@ + 1 && (#[trigger] it0.seq()[i]).1.outs@.contains_key(k) by {
            assert(m_@.contains(k) == (m0.contains(k) || st.outs@.contains_key(k)));
          }
          self.all_keys(it0.seq(), m_@);
        }
//@ loop 1
    invariant
      members(derefs(it1.seq()), st.outs@.dom()),
      forall|k: S| #[trigger] m_@.contains(k) == (m0.contains(k) || exists|j: int| 0 <= j < it1.index@ && *(#[trigger] it1.seq()[j]) == k),
      it1.index@ == it1.seq().len() ==> forall|k: S| #[trigger] m_@.contains(k) == (m0.contains(k) || st.outs@.contains_key(k)),
//@ loopbody 1
      let ghost m1 = m_@;
      proof { assert(*it1.seq()[it1.index@] == *k_); }
//@ loopend 1
      proof {
        assert forall|k: S| #[trigger] m_@.contains(k) == (m0.contains(k) || exists|j: int| 0 <= j < it1.index@ + 1 && *(#[trigger] it1.seq()[j]) == k) by { assert(m_@.contains(k) == (m1.contains(k) || *k_ == k)); }
        some_deref(it1.seq(), st.outs@.dom());
      }
//@ fn epsilon_closure attr=loop_isolation(false)
    requires self.cache_ok(*old(cached)),
    ensures self.cache_ok(*final(cached)), self.is_closure(ids@, r@),
//@ entry
    let ghost s = ids@;
    proof { assert forall|q: usize| #[trigger] s.contains(q) implies self.reach(s, q) by { self.reach_base(s, q); } if s == Set::<usize>::empty() { assert(s.subset_of(s)); self.least(s, s); } }
//@ loop 0
    invariant
      s.subset_of(closure@), g == next_ids@,
      forall|q: usize| #[trigger] closure@.contains(q) ==> self.reach(s, q),
      forall|i: int| 0 <= i < next_ids@.len() ==> closure@.contains(#[trigger] next_ids@[i]),
      self.pending(closure@, next_ids@),
    decreases room(closure@), next_ids@.len(),
//@ loopbody 0
        let ghost n0 = next_ids@;
        let ghost id0 = id;
        let ghost c0 = closure@;
        proof { assert(g =~= n0.push(id)); assert(closure@.contains(g.last())); assert(n0.take(n0.len() as int) =~= n0); }
//@ loop 1
    invariant
      members(derefs(it1.seq()), self.empty_edges@[id0]@), self.empty_edges@.contains_key(id0),
      c0.subset_of(closure@),
      self.reach(s, id0),
      forall|q: usize| #[trigger] closure@.contains(q) ==> self.reach(s, q),
      forall|i: int| 0 <= i < next_ids@.len() ==> closure@.contains(#[trigger] next_ids@[i]),
      next_ids@.len() >= n0.len(), next_ids@.take(n0.len() as int) == n0, closure@ == c0 ==> next_ids@ == n0,
      forall|q: usize| #[trigger] closure@.contains(q) ==> c0.contains(q) || next_ids@.contains(q),
      forall|i: int| 0 <= i < it1.index@ ==> closure@.contains(*#[trigger] it1.seq()[i]),
      it1.index@ == it1.seq().len() ==> forall|q: usize| #[trigger] self.eps(id0, q) ==> closure@.contains(q),
//@ loopbody 1
            let ghost n1 = next_ids@;
            let ghost c1 = closure@;
            proof {
              some_deref(it1.seq(), self.empty_edges@[id0]@);
              assert(*it1.seq()[it1.index@] == *id);
              assert(self.eps(id0, *id));
              self.reach_next(s, id0, *id);
            }
//@ loopend 1
            proof {
              if closure@ == c0 { assert(c1 =~= c0); assert(closure@.contains(*id)); }
              assert(next_ids@.take(n0.len() as int) =~= n0);
              assert forall|q: usize| #[trigger] closure@.contains(q) implies c0.contains(q) || next_ids@.contains(q) by {
                if !c1.contains(q) { assert(next_ids@.last() == q); }
                else if n1.contains(q) { let j = choose|j: int| 0 <= j < n1.len() && n1[j] == q; assert(next_ids@[j] == q); }
              }
              assert(forall|i: int| 0 <= i < it1.index@ + 1 ==> closure@.contains(*#[trigger] it1.seq()[i]));
            }
//@ loopend 0
        proof { fin::room_less(c0, closure@); self.pending_next(c0, n0, id0, closure@, next_ids@); g = next_ids@; }
//@ after let mut next_ids: Vec<_> = $s_e;
      let ghost mut g = next_ids@;
      proof { self.pending_first(closure@, next_ids@); }
//@ after cached.insert(ids, closure.clone());
      proof { self.pending_last(closure@, g); self.least(s, closure@); }
//@ fn state_closure attr=loop_isolation(false)
    requires self.cache_ok(*old(cached)),
    ensures self.cache_ok(*final(cached)), self.goes(states@, *s, r@),
//@ loop 0
    invariant
      members(derefs(it0.seq()), states@), self.cache_ok(*cached),
      forall|q: usize| #[trigger] next_states@.contains(q) == exists|i: int| 0 <= i < it0.index@ && self.step(*#[trigger] it0.seq()[i], *s, q),
      it0.index@ == it0.seq().len() ==> forall|q: usize| #[trigger] next_states@.contains(q) == self.moves(states@, *s, q),
//@ loopbody 0
      let ghost m0 = next_states@;
      proof { let es = derefs(it0.seq()); assert(es[it0.index@] == *id); assert(it0.seq()[it0.index@] == id); }
//@ loopend 0
      proof {
        assert forall|q: usize| #[trigger] next_states@.contains(q) == exists|i: int| 0 <= i < it0.index@ + 1 && self.step(*#[trigger] it0.seq()[i], *s, q) by {
          assert(next_states@.contains(q) == (m0.contains(q) || self.step(*id, *s, q)));
        }
        self.all_moves(it0.seq(), states@, *s, next_states@);
      }
//@ end
impl<S> ClosureBuilder<S> {
  pub open spec fn has_key(&self, k: S) -> bool { exists|p: usize| self.normal_edges@.contains_key(p) && (#[trigger] self.normal_edges@[p]).outs@.contains_key(k) }
}
