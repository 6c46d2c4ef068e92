// ------------------------------------------------------------ one state per block
//@ rewrite iterator adapters to a loop :: partition.into_iter().map(|ids| { $s_b (ids, id) }).collect(); ==> { let mut v_ = Vec::new(); for ids in partition.into_vec_() { $s_b v_.push((ids, id)); } v_ };
//@ rewrite iterator adapters to a loop :: ids.iter().find_map(|id| $e) ==> { let mut r_: Option<&T> = None; let mut i_ = 0; let ids_ = ids.items_(); while i_ < ids_.len() && r_.is_none() { let id = ids_[i_]; r_ = $e; i_ = i_ + 1; } r_ }
//@ rewrite iterator adapters to loops :: partition.iter().flat_map(|(ids, cur_id)| ids.iter().map(|id| $e)).collect() ==> { let mut m_ = HashMap::new(); let mut i = 0; while i < partition.len() { let (ids, cur_id) = &partition[i]; for id in ids.items_() { let (k_, v_) = $e; m_.insert(k_, v_); } i = i + 1; } m_ }
//@ rewrite loop over a list :: for (ids, cur_id) in &partition { $s_b } Self { fa, tags } ==> let mut n_ = 0; while n_ < partition.len() { let (ids, cur_id) = &partition[n_]; $s_b n_ = n_ + 1; } let q_ = Self { fa, tags }; q_
//@ rewrite members of a set in some order :: for id in ids { ==> for id in ids.items_() {
//@ rewrite loop over a list :: for s in &syms { ==> for s in syms.as_slice() {
//@ rewrite index of a map :: states[&next] ==> *states.index_(&next)
//@ rewrite clone to a function with its contract :: s.clone() ==> clone_(s)
//@ rewrite clone to a function with its contract :: tag.clone() ==> clone_(tag)
pub type Row<S> = Seq<(Key<S>, usize)>;
pub type Placed = Seq<(HashSet<usize>, usize)>;
pub open spec fn blocks_of(v: Placed) -> Blocks { Seq::new(v.len(), |i: int| v[i].0) }
impl<S, T> DFA<S, T> {
  /// The automaton with the states taken together by h.
  #[verifier::opaque]
  pub open spec fn image(&self, d: &DFA<S, T>, h: Map<usize, usize>) -> bool {
    &&& forall|q: usize| #[trigger] d.is_state(q) ==> h.contains_key(q) && self.is_state(h[q]) && at(self.tags@, h[q]) == at(d.tags@, q)
    &&& h[d.fa.init] == self.fa.init
    &&& forall|p: usize| #[trigger] self.is_state(p) ==> one_edge(self.outs(p)) && exists|q: usize| #[trigger] d.is_state(q) && h[q] == p
    &&& forall|q: usize, k: Key<S>, p: usize| #[trigger] d.edge(q, k, p) ==> self.edge(h[q], k, h[p])
    &&& forall|q: usize, k: Key<S>, p: usize| d.is_state(q) && #[trigger] self.edge(h[q], k, p) ==> d.edge_to(h, q, k, p)
  }
  #[verifier::opaque]
  pub open spec fn some_image(&self, d: &DFA<S, T>) -> bool { exists|h: Map<usize, usize>| #[trigger] self.image(d, h) }
  pub open spec fn edge_to(&self, h: Map<usize, usize>, q: usize, k: Key<S>, p: usize) -> bool { exists|p0: usize| #[trigger] self.edge(q, k, p0) && h[p0] == p }
  /// A block goes somewhere.
  pub open spec fn block_to(&self, h: Map<usize, usize>, s: Set<usize>, k: Key<S>, p: usize) -> bool { exists|q: usize| #[trigger] s.contains(q) && self.edge_to(h, q, k, p) }
  pub open spec fn block_row(&self, h: Map<usize, usize>, s: Set<usize>, outs: Row<S>) -> bool {
    &&& one_edge(outs)
    &&& forall|k: Key<S>, p: usize| #[trigger] has_edge(outs, k, p) ==> self.block_to(h, s, k, p)
    &&& forall|q: usize, k: Key<S>, p: usize| s.contains(q) && #[trigger] self.edge(q, k, p) ==> some_edge(outs, k)
  }
  /// States of all blocks with their tags, without edges.
  pub open spec fn placed(&self, fa: DenseFA<Key<S>>, tags: Map<usize, T>, init: usize, v: Placed) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> fa.states@.contains_key((#[trigger] v[i]).1) && fa.states@[v[i].1].outs@.len() == 0
    &&& forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j ==> (#[trigger] v[i]).1 != (#[trigger] v[j]).1
    &&& forall|i: int| 0 <= i < v.len() ==> ((#[trigger] v[i]).1 == fa.init) == v[i].0@.contains(init)
    &&& forall|p: usize| #[trigger] fa.states@.contains_key(p) ==> p == fa.init || exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1 == p
    &&& forall|i: int, q: usize| 0 <= i < v.len() && #[trigger] v[i].0@.contains(q) ==> at(self.tags@, q) == at(tags, v[i].1)
    &&& forall|q: usize| #[trigger] tags.contains_key(q) == fa.finals@.contains(q)
    &&& forall|q: usize| #[trigger] tags.contains_key(q) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1 == q
  }
}
pub open spec fn some_edge<S>(outs: Row<S>, k: Key<S>) -> bool { exists|p: usize| #[trigger] has_edge(outs, k, p) }
/// Where the states of the first n blocks are.
pub open spec fn mapped(v: Placed, n: int, m: Map<usize, usize>) -> bool {
  &&& forall|q: usize| #[trigger] m.contains_key(q) == covers(blocks_of(v).take(n), q)
  &&& forall|i: int, q: usize| 0 <= i < n && #[trigger] v[i].0@.contains(q) ==> m[q] == v[i].1
}
proof fn mapped_next(v: Placed, i: int, m0: Map<usize, usize>, m: Map<usize, usize>)
  requires 0 <= i < v.len(), disjoint(blocks_of(v)), mapped(v, i, m0), index_added(m0, v[i].0@, v[i].1, m),
  ensures mapped(v, i + 1, m),
{
  let p = blocks_of(v);
  assert(p.take(i + 1) =~= p.take(i).push(p[i]));
  assert forall|q: usize| #[trigger] m.contains_key(q) == covers(p.take(i + 1), q) by { covers_push(p.take(i), p[i], q); assert(m0.contains_key(q) == covers(p.take(i), q)); }
  assert forall|j: int, q: usize| 0 <= j < i + 1 && #[trigger] v[j].0@.contains(q) implies m[q] == v[j].1 by {
    assert(p[j]@.contains(q));
    if j < i { assert(p.take(i)[j]@.contains(q)); assert(covers(p.take(i), q)); assert(m0.contains_key(q)); assert(m.contains_key(q)); assert(!p[i]@.contains(q)); } else { assert(m.contains_key(q)); }
  }
}
impl<S, T> DFA<S, T> {
  /// The block of a list of states.
  proof fn place_init(&self, fa: DenseFA<Key<S>>, tags: Map<usize, T>, init: usize)
    requires fa.states@.dom() == set![fa.init], tags == Map::<usize, T>::empty(), fa.finals@ == Set::<usize>::empty(),
    ensures self.placed(fa, tags, init, Seq::empty()),
  {}
  proof fn place_next(&self, f0: DenseFA<Key<S>>, t0: Map<usize, T>, f: DenseFA<Key<S>>, t: Map<usize, T>, init: usize, v: Placed, s: HashSet<usize>, id: usize, tag: Option<T>, p: Blocks)
    requires
      self.placed(f0, t0, init, v), self.blocks(p), v.len() < p.len(), blocks_of(v) == p.take(v.len() as int), p[v.len() as int] == s, self.is_state(init),
      f.init == f0.init, f.states@.contains_key(id), f.states@[id].outs@.len() == 0, f0.states@.contains_key(f0.init), f0.states@[f0.init].outs@.len() == 0,
      s@.contains(init) ==> id == f0.init && f.states@ == f0.states@,
      !s@.contains(init) ==> !f0.states@.contains_key(id) && f.states@ == f0.states@.insert(id, f.states@[id]),
      t == (match tag { Some(x) => t0.insert(id, x), None => t0 }),
      f.finals@ == (if tag is Some { f0.finals@.insert(id) } else { f0.finals@ }),
      tag is Some ==> exists|q: usize| #[trigger] s@.contains(q) && at(self.tags@, q) == tag,
      tag is None ==> forall|q: usize| #[trigger] s@.contains(q) ==> at(self.tags@, q) is None,
    ensures self.placed(f, t, init, v.push((s, id))), blocks_of(v.push((s, id))) == p.take(v.len() as int + 1),
  {
    let w = v.push((s, id));
    let n = v.len() as int;
    assert(blocks_of(w) =~= p.take(n + 1)) by { assert(forall|i: int| 0 <= i < n ==> blocks_of(v)[i] == p.take(n)[i]); }
    assert forall|i: int| 0 <= i < n implies (#[trigger] v[i]).1 != id by {
      assert(blocks_of(v)[i] == p.take(n)[i]);
      if s@.contains(init) { assert(p[n]@.contains(init)); if v[i].0@.contains(init) { assert(p[i]@.contains(init)); } }
    }
    assert forall|i: int, q: usize| 0 <= i < w.len() && #[trigger] w[i].0@.contains(q) implies at(self.tags@, q) == at(t, w[i].1) by {
      if i < n { assert(v[i].0@.contains(q)); assert(v[i].1 != id); }
      else {
        assert(p[n]@.contains(q));
        if tag is Some { let y = choose|y: usize| #[trigger] s@.contains(y) && at(self.tags@, y) == tag; assert(p[n]@.contains(y)); }
        else {
          if t0.contains_key(id) { let j = choose|j: int| 0 <= j < n && (#[trigger] v[j]).1 == id; }
        }
      }
    }
    assert forall|x: usize| #[trigger] f.states@.contains_key(x) implies x == f.init || exists|i: int| 0 <= i < w.len() && (#[trigger] w[i]).1 == x by {
      if x == id { assert(w[n].1 == x); } else { assert(f0.states@.contains_key(x)); if x != f.init { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1 == x; assert(w[i].1 == x); } }
    }
    assert forall|x: usize| #[trigger] t.contains_key(x) implies exists|i: int| 0 <= i < w.len() && (#[trigger] w[i]).1 == x by {
      if x == id { assert(w[n].1 == x); } else { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1 == x; assert(w[i].1 == x); }
    }
  }
  /// What the edges of a block are while they are added: those of the states before the n-th, and of the n-th for the symbols before the j-th.
  pub open spec fn row_to(&self, h: Map<usize, usize>, s: Set<usize>, outs: Row<S>, added: Set<Key<S>>) -> bool {
    &&& one_edge(outs)
    &&& forall|k: Key<S>, p: usize| #[trigger] has_edge(outs, k, p) ==> self.block_to(h, s, k, p)
    &&& forall|k: Key<S>| #[trigger] added.contains(k) == some_edge(outs, k)
  }
  /// The keys with which a state goes somewhere are there.
  #[verifier::opaque]
  pub open spec fn has_all(&self, q: usize, added: Set<Key<S>>) -> bool { forall|k: Key<S>, p: usize| #[trigger] self.edge(q, k, p) ==> added.contains(k) }
  #[verifier::opaque]
  pub open spec fn has_first(&self, q: usize, added: Set<Key<S>>, syms: Seq<Key<S>>, n: int) -> bool { forall|j: int, p: usize| 0 <= j < n && #[trigger] self.edge(q, syms[j], p) ==> added.contains(syms[j]) }
  proof fn first_none(&self, q: usize, added: Set<Key<S>>, syms: Seq<Key<S>>)
    ensures self.has_first(q, added, syms, 0),
  { reveal(DFA::has_first); }
  proof fn first_next(&self, q: usize, a0: Set<Key<S>>, a: Set<Key<S>>, syms: Seq<Key<S>>, n: int)
    requires self.has_first(q, a0, syms, n), a0.subset_of(a), 0 <= n < syms.len(), a.contains(syms[n]) || forall|p: usize| !#[trigger] self.edge(q, syms[n], p),
    ensures self.has_first(q, a, syms, n + 1),
  { reveal(DFA::has_first); }
  proof fn first_all(&self, q: usize, a: Set<Key<S>>, syms: Seq<Key<S>>)
    requires self.has_first(q, a, syms, syms.len() as int), self.over(syms),
    ensures self.has_all(q, a),
  {
    reveal(DFA::has_first); reveal(DFA::has_all);
    assert forall|k: Key<S>, p: usize| #[trigger] self.edge(q, k, p) implies a.contains(k) by { assert(syms.contains(k)); let j = choose|j: int| 0 <= j < syms.len() && syms[j] == k; assert(self.edge(q, syms[j], p)); }
  }
  proof fn all_more(&self, q: usize, a: Set<Key<S>>, b: Set<Key<S>>)
    requires self.has_all(q, a), a.subset_of(b),
    ensures self.has_all(q, b),
  { reveal(DFA::has_all); }
  proof fn row_push(&self, h: Map<usize, usize>, s: Set<usize>, outs: Row<S>, added: Set<Key<S>>, q: usize, k: Key<S>, p: usize)
    requires self.row_to(h, s, outs, added), !added.contains(k), s.contains(q), self.edge(q, k, p),
    ensures self.row_to(h, s, outs.push((k, h[p])), added.insert(k)),
  {
    let o2 = outs.push((k, h[p]));
    assert forall|x: Key<S>, y: usize| #[trigger] has_edge(o2, x, y) implies has_edge(outs, x, y) || (x == k && y == h[p]) by {
      let i = choose|i: int| 0 <= i < o2.len() && #[trigger] o2[i] == (x, y);
      if i < outs.len() { assert(outs[i] == (x, y)); }
    }
    assert forall|x: Key<S>, y: usize| #[trigger] has_edge(outs, x, y) implies has_edge(o2, x, y) by {
      let i = choose|i: int| 0 <= i < outs.len() && #[trigger] outs[i] == (x, y);
      assert(o2[i] == (x, y));
    }
    assert(o2[outs.len() as int] == (k, h[p]));
    assert(has_edge(o2, k, h[p]));
    assert forall|i: int| 0 <= i < outs.len() implies (#[trigger] outs[i]).0 != k by { assert(has_edge(outs, outs[i].0, outs[i].1)); assert(some_edge(outs, outs[i].0)); }
    assert(self.edge_to(h, q, k, h[p]));
    assert(self.block_to(h, s, k, h[p]));
    assert forall|x: Key<S>| #[trigger] added.insert(k).contains(x) == some_edge(o2, x) by {
      assert(added.contains(x) == some_edge(outs, x));
      if some_edge(outs, x) { let y = choose|y: usize| #[trigger] has_edge(outs, x, y); assert(has_edge(o2, x, y)); }
      if some_edge(o2, x) { let y = choose|y: usize| #[trigger] has_edge(o2, x, y); if has_edge(outs, x, y) { assert(some_edge(outs, x)); } }
    }
  }
  proof fn row_full(&self, h: Map<usize, usize>, s: Set<usize>, outs: Row<S>, added: Set<Key<S>>)
    requires self.row_to(h, s, outs, added), forall|q: usize| #[trigger] s.contains(q) ==> self.has_all(q, added),
    ensures self.block_row(h, s, outs),
  { reveal(DFA::has_all); }
  proof fn rows_done(&self, e: Seq<&usize>, n: int, h: Map<usize, usize>, s: Set<usize>, outs: Row<S>, added: Set<Key<S>>)
    requires members(derefs(e), s), self.row_to(h, s, outs, added), forall|i: int| 0 <= i < n ==> self.has_all(*#[trigger] e[i], added),
    ensures n == e.len() ==> self.block_row(h, s, outs),
  {
    if n == e.len() {
      assert forall|q: usize| #[trigger] s.contains(q) implies self.has_all(q, added) by {
        some_deref(e, s);
        let j = choose|j: int| 0 <= j < e.len() && *(#[trigger] e[j]) == q;
      }
      self.row_full(h, s, outs, added);
    }
  }
  pub open spec fn edged(&self, h: Map<usize, usize>, st: Map<usize, DenseState<Key<S>>>, v: Placed, n: int) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> st.contains_key((#[trigger] v[i]).1)
    &&& forall|i: int| 0 <= i < n ==> self.block_row(h, (#[trigger] v[i]).0@, st[v[i].1].outs@)
    &&& forall|i: int| n <= i < v.len() ==> st[(#[trigger] v[i]).1].outs@.len() == 0
  }
  /// The edges of all blocks make the image.
  proof fn imaged(&self, r: &DFA<S, T>, h: Map<usize, usize>, v: Placed, f0: DenseFA<Key<S>>, syms: Seq<Key<S>>)
    requires
      self.sound(), self.over(syms), self.blocks(blocks_of(v)), self.stable(blocks_of(v)), self.placed(f0, r.tags@, self.fa.init, v),
      mapped(v, v.len() as int, h), f0.init == r.fa.init, f0.finals == r.fa.finals, f0.states@.dom() == r.fa.states@.dom(), self.edged(h, r.fa.states@, v, v.len() as int),
    ensures r.image(self, h), r.sound(),
  {
    let p = blocks_of(v);
    assert(p.take(v.len() as int) =~= p);
    assert forall|q: usize| #[trigger] self.is_state(q) implies h.contains_key(q) && r.is_state(h[q]) && at(r.tags@, h[q]) == at(self.tags@, q) by {
      assert(covers(p, q));
      let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i])@.contains(q);
      assert(v[i].0@.contains(q));
    }
    assert(h[self.fa.init] == r.fa.init) by {
      assert(covers(p, self.fa.init));
      let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i])@.contains(self.fa.init);
      assert(v[i].0@.contains(self.fa.init));
    }
    assert(r.sound()) by {
      assert(self.is_state(self.fa.init));
      assert forall|q: usize| #[trigger] r.tags@.contains_key(q) implies r.is_state(q) by { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1 == q; }
    }
    assert forall|x: usize| #[trigger] r.is_state(x) implies one_edge(r.outs(x)) && exists|q: usize| #[trigger] self.is_state(q) && h[q] == x by {
      assert(f0.states@.dom().contains(x));
      let q0 = self.fa.init;
      if x == f0.init {
        assert(covers(p, q0));
        let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i])@.contains(q0);
        assert(v[i].0@.contains(q0));
        assert(self.block_row(h, v[i].0@, r.fa.states@[v[i].1].outs@));
      } else {
        let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1 == x;
        assert(self.block_row(h, v[i].0@, r.fa.states@[v[i].1].outs@));
        assert(inhabited(p[i]@));
        let q = choose|q: usize| #[trigger] p[i]@.contains(q);
        assert(v[i].0@.contains(q));
        assert(covers(p, q));
      }
    }
    reveal(DFA::image);
    assert forall|q: usize, k: Key<S>, x: usize| self.is_state(q) && #[trigger] r.edge(h[q], k, x) implies self.edge_to(h, q, k, x) by { self.back_edge(r, h, v, syms, q, k, x); }
    assert forall|q: usize, k: Key<S>, x: usize| #[trigger] self.edge(q, k, x) implies r.edge(h[q], k, h[x]) by {
      assert(self.is_state(q));
      assert(covers(p, q));
      let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i])@.contains(q);
      assert(v[i].0@.contains(q));
      assert(self.block_row(h, v[i].0@, r.fa.states@[v[i].1].outs@));
      assert(some_edge(r.outs(h[q]), k));
      let y = choose|y: usize| #[trigger] has_edge(r.outs(h[q]), k, y);
      assert(r.edge(h[q], k, y));
      self.back_edge(r, h, v, syms, q, k, y);
      let x0 = choose|x0: usize| #[trigger] self.edge(q, k, x0) && h[x0] == y;
      self.same_end(q, k, x, x0);
    }
  }
  proof fn same_end(&self, q: usize, k: Key<S>, x: usize, y: usize)
    requires self.edge(q, k, x), self.edge(q, k, y), one_edge(self.outs(q)),
    ensures x == y,
  {
    let i = choose|i: int| 0 <= i < self.outs(q).len() && #[trigger] self.outs(q)[i] == (k, x);
    let j = choose|i: int| 0 <= i < self.outs(q).len() && #[trigger] self.outs(q)[i] == (k, y);
    if i < j {} else if j < i {}
  }
  proof fn back_edge(&self, r: &DFA<S, T>, h: Map<usize, usize>, v: Placed, syms: Seq<Key<S>>, q: usize, k: Key<S>, x: usize)
    requires
      self.over(syms), self.blocks(blocks_of(v)), self.stable(blocks_of(v)), mapped(v, v.len() as int, h), self.edged(h, r.fa.states@, v, v.len() as int),
      self.is_state(q), r.edge(h[q], k, x),
    ensures self.edge_to(h, q, k, x),
  {
    let p = blocks_of(v);
    assert(p.take(v.len() as int) =~= p);
    assert(covers(p, q));
    let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i])@.contains(q);
    assert(v[i].0@.contains(q));
    assert(self.block_row(h, v[i].0@, r.fa.states@[v[i].1].outs@));
    assert(self.block_to(h, v[i].0@, k, x));
    let q1 = choose|q1: usize| #[trigger] v[i].0@.contains(q1) && self.edge_to(h, q1, k, x);
    let x1 = choose|x1: usize| #[trigger] self.edge(q1, k, x1) && h[x1] == x;
    assert(p[i]@.contains(q1));
    assert(together(p, q1, q));
    let x2 = self.stable_at(p, q1, q, k, x1);
    let j = choose|j: int| 0 <= j < p.len() && (#[trigger] p[j])@.contains(x1) && p[j]@.contains(x2);
    assert(v[j].0@.contains(x1) && v[j].0@.contains(x2));
    assert(h[x2] == x);
  }
  proof fn stable_at(&self, p: Blocks, a: usize, b: usize, k: Key<S>, a2: usize) -> (b2: usize)
    requires self.stable(p), together(p, a, b), self.edge(a, k, a2),
    ensures self.edge(b, k, b2), together(p, a2, b2),
  {
    reveal(DFA::stable);
    assert(self.goes_together(p, a, b, k));
    choose|b2: usize| #[trigger] self.edge(b, k, b2) && together(p, a2, b2)
  }
}
//@ item laps_regex/src/dfa.rs impl DFA#0
//@ drop new new_from_nfa minimize into_fa_tags dump
//@ fn rebuild attr=loop_isolation(false)
    requires dfa.sound(), dfa.over(syms@), dfa.blocks(partition@), dfa.stable(partition@),
    ensures r.sound(), r.some_image(&dfa),
//@ entry
    let ghost d = dfa;
    let ghost part = partition@;
    let ghost init = dfa.fa.init;
//@ after let mut tags = HashMap::new();
    proof { d.place_init(fa, tags@, init); assert(fa.states@.contains_key(fa.init)); assert(fa.states@[fa.init].outs@.len() == 0); }
//@ loop 0
    invariant
      it0.seq() == part, v_@.len() == it0.index@, d.placed(fa, tags@, init, v_@), blocks_of(v_@) == part.take(it0.index@),
      fa.ok(c_@), fa.states@[fa.init].outs@.len() == 0,
//@ loopbody 0
      let ghost (f0, t0, v0, gids) = (fa, tags@, v_@, ids);
      let ghost mut gt: Option<T> = None;
      proof { assert(it0.seq()[it0.index@] == ids); }
//@ loop 1
    invariant
      i_ <= ids_@.len(), members(derefs(ids_@), ids@), ids == gids,
      r_ is Some ==> exists|q: usize| #[trigger] gids@.contains(q) && at(d.tags@, q) == Some(*r_->0),
      r_ is None ==> forall|i: int| 0 <= i < i_ ==> at(d.tags@, *#[trigger] ids_@[i]) is None,
      r_ is None && i_ == ids_@.len() ==> forall|q: usize| #[trigger] gids@.contains(q) ==> at(d.tags@, q) is None,
    decreases ids_@.len() - i_,
//@ loopbody 1
        proof { assert(derefs(ids_@)[i_ as int] == *ids_@[i_ as int]); assert(gids@.contains(*ids_@[i_ as int])); }
//@ loopend 1
        proof { some_deref(ids_@, gids@); }
//@ after tags.insert(id, clone_(tag));
          proof { gt = Some(*tag); }
//@ after v_.push((ids, id));
      proof { d.place_next(f0, t0, fa, tags@, init, v0, gids, id, gt, part); }
//@ loop 2
    invariant i <= partition@.len(), mapped(partition@, i as int, m_@),
    decreases partition@.len() - i,
//@ loopbody 2
      let ghost m0 = m_@;
//@ loop 3
    invariant
      members(derefs(it3.seq()), partition@[i as int].0@),
      forall|q: usize| #[trigger] m_@.contains_key(q) == (m0.contains_key(q) || exists|j: int| 0 <= j < it3.index@ && *(#[trigger] it3.seq()[j]) == q),
      forall|q: usize| #[trigger] m_@.contains_key(q) && (exists|j: int| 0 <= j < it3.index@ && *(#[trigger] it3.seq()[j]) == q) ==> m_@[q] == *cur_id,
      forall|q: usize| #[trigger] m0.contains_key(q) && !(exists|j: int| 0 <= j < it3.index@ && *(#[trigger] it3.seq()[j]) == q) ==> m_@[q] == m0[q],
      it3.index@ == it3.seq().len() ==> index_added(m0, partition@[i as int].0@, *cur_id, m_@),
//@ loopbody 3
        let ghost m1 = m_@;
        proof { assert(it3.seq()[it3.index@] == id); assert(derefs(it3.seq())[it3.index@] == *id); }
//@ loopend 3
        proof {
          assert(m_@ == m1.insert(*id, *cur_id));
          some_deref(it3.seq(), partition@[i as int].0@);
        }
//@ loopend 2
      proof { mapped_next(partition@, i - 1, m0, m_@); }
//@ after let partition: Vec<_> = $s_e;
    let ghost v = partition@;
    let ghost fp = fa;
    proof { assert(part.take(part.len() as int) =~= part); assert(blocks_of(v) == part); }
//@ after let states: HashMap<_, _> = $s_e;
    let ghost h = states@;
    proof { assert(blocks_of(v).take(v.len() as int) =~= blocks_of(v)); assert(d.edged(h, fa.states@, v, 0)); }
//@ loop 4
    invariant
      n_ <= v.len(), d.edged(h, fa.states@, v, n_ as int), fa.init == fp.init, fa.finals == fp.finals, fa.states@.dom() == fp.states@.dom(),
    decreases v.len() - n_,
//@ loopbody 4
      let ghost st0 = fa.states@;
      let ghost gb = v[n_ as int].0;
      proof { assert(part[n_ as int] == gb) by { assert(blocks_of(v)[n_ as int] == gb); } }
//@ after let mut added_edges = HashSet::new();
      proof { assert(state.outs@.len() == 0); assert(d.row_to(h, gb@, state.outs@, added_edges@)); }
//@ loop 5
    invariant
      members(derefs(it5.seq()), gb@), d.row_to(h, gb@, state.outs@, added_edges@),
      forall|i: int| 0 <= i < it5.index@ ==> d.has_all(*#[trigger] it5.seq()[i], added_edges@),
      it5.index@ == it5.seq().len() ==> d.block_row(h, gb@, state.outs@),
//@ loopbody 5
        let ghost a5 = added_edges@;
        proof {
          assert(it5.seq()[it5.index@] == id); assert(derefs(it5.seq())[it5.index@] == *id); assert(gb@.contains(*id));
          assert(covers(part, *id));
          d.first_none(*id, added_edges@, syms@);
          if syms@.len() == 0 { d.first_all(*id, added_edges@, syms@); }
        }
//@ loop 6
    invariant
      derefs(it6.seq()) == syms@, d.row_to(h, gb@, state.outs@, added_edges@), a5.subset_of(added_edges@),
      d.has_first(*id, added_edges@, syms@, it6.index@),
      it6.index@ == it6.seq().len() ==> d.has_all(*id, added_edges@),
//@ loopbody 6
          let ghost a6 = added_edges@;
          let ghost o6 = state.outs@;
          proof { assert(it6.seq()[it6.index@] == s); assert(derefs(it6.seq())[it6.index@] == *s); }
//@ after let next = dfa.state(*id).unwrap().next_state(s);
          proof { if next is Some { assert(d.edge(*id, *s, next->0)); assert(covers(part, next->0)); d.row_push(h, gb@, o6, a6, *id, *s, next->0); } }
//@ loopend 6
          proof {
            assert(added_edges@.contains(*s) || forall|p: usize| !#[trigger] d.edge(*id, *s, p));
            d.first_next(*id, a6, added_edges@, syms@, it6.index@);
            if it6.index@ + 1 == syms@.len() { d.first_all(*id, added_edges@, syms@); }
          }
//@ loopend 5
        proof {
          assert forall|i: int| 0 <= i < it5.index@ implies d.has_all(*#[trigger] it5.seq()[i], added_edges@) by { d.all_more(*it5.seq()[i], a5, added_edges@); }
          d.rows_done(it5.seq(), it5.index@ + 1, h, gb@, state.outs@, added_edges@);
        }
//@ after let q_ = $s_e;
    proof { d.imaged(&q_, h, v, fp, syms@); reveal(DFA::some_image); }
//@ end
