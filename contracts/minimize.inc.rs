// ------------------------------------------------------------ merging of states that behave alike
//@ rewrite the global counter as a parameter :: fn rebuild(dfa: ==> fn rebuild(c_: &mut Ids, dfa:
//@ rewrite iterator adapters to a loop :: tags.iter().fold(HashMap::new(), |mut m: HashMap<_, HashSet<_>>, (id, tag)| { $s_b m } $o_c).into_values().collect::<VecDeque<_>>() ==> { let mut m: HashMap<&T, HashSet<usize>> = HashMap::new(); for (id, tag) in tags.entries_() { $s_b } let m_ = m; let p_ = VecDeque::of_(m_.into_values_()); p_ }
//@ rewrite iterator adapters to a loop :: fa.states().keys().filter_map(|id| ($c).then_some($e)).collect() ==> { let mut m_ = HashSet::new(); for id in fa.states().keys_() { if $c { m_.insert($e); } } m_ }
//@ rewrite iterator adapters to loops :: partition.iter().enumerate().flat_map(|(i, ids)| ids.iter().map(move |id| $e)).collect() ==> { let mut m_ = HashMap::new(); let mut i = 0; while i < partition.len() { for id in partition.nth_(i).items_() { let (k_, v_) = $e; m_.insert(k_, v_); } i = i + 1; } m_ }
//@ rewrite iterator adapters to a loop :: syms.iter().filter_map(|s| { $s_b index.map(|i| $e) }).collect() ==> { let mut m_ = BTreeSet::new(); let mut j_ = 0; while j_ < syms.len() { let s = &syms[j_]; $s_b if let Some(i) = index { m_.insert($e); } j_ = j_ + 1; } m_ }
//@ rewrite Option::and_then to a match :: next.and_then(|next| $e) ==> match next { Some(next) => $e, None => None }
//@ rewrite Option::copied :: index_map.get(&next).copied() ==> copied_(index_map.get(&next))
//@ rewrite extend to a loop :: partition.extend(division.into_values()); ==> let vals_ = division.into_values_(); for v_ in vals_ { partition.push_back(v_); }
//@ rewrite members of a set in some order :: for id in states { ==> for id in states.into_items_() {
//@ rewrite type annotation :: let mut division: HashMap<_, HashSet<usize>> ==> let mut division: HashMap<BTreeSet<(&Vec<(S, S)>, usize)>, HashSet<usize>>
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VecDeque<T> { v: T }
impl<T> VecDeque<T> {
  pub uninterp spec fn view(&self) -> Seq<T>;
  #[verifier::external_body]
  pub fn of_(v: Vec<T>) -> (r: Self) ensures r@ == v@ { unimplemented!() }
  #[verifier::external_body]
  pub fn into_vec_(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body]
  pub fn nth_(&self, i: usize) -> (r: &T) requires i < self@.len(), ensures *r == self@[i as int] { unimplemented!() }
  #[verifier::external_body]
  pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
  #[verifier::external_body]
  pub fn pop_front(&mut self) -> (r: Option<T>)
    ensures
      old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
      old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
  { unimplemented!() }
}
#[verifier::external_body]
fn copied_(x: Option<&usize>) -> (r: Option<usize>) ensures r == match x { Some(v) => Some(*v), None => None } { unimplemented!() }

pub type Blocks = Seq<HashSet<usize>>;
pub open spec fn covers(p: Blocks, q: usize) -> bool { exists|i: int| 0 <= i < p.len() && (#[trigger] p[i])@.contains(q) }
pub open spec fn disjoint(p: Blocks) -> bool { forall|i: int, j: int, q: usize| 0 <= i < p.len() && 0 <= j < p.len() && i != j ==> !(#[trigger] p[i]@.contains(q) && #[trigger] p[j]@.contains(q)) }
pub open spec fn nonempty(p: Blocks) -> bool { forall|i: int| 0 <= i < p.len() ==> inhabited((#[trigger] p[i])@) }
pub open spec fn inhabited(s: Set<usize>) -> bool { exists|q: usize| #[trigger] s.contains(q) }
pub open spec fn under(s: Set<usize>, p: Blocks, n: int) -> bool { exists|j: int| 0 <= j < n && s.subset_of(#[trigger] p[j]@) }
pub open spec fn together(p: Blocks, a: usize, b: usize) -> bool { exists|i: int| 0 <= i < p.len() && (#[trigger] p[i])@.contains(a) && p[i]@.contains(b) }
impl<S, T> DFA<S, T> {
  /// One edge for a key at most, to a state; the keys are those of the list.
  pub open spec fn over(&self, syms: Seq<Key<S>>) -> bool {
    &&& forall|q: usize| #[trigger] self.is_state(q) ==> one_edge(self.outs(q))
    &&& forall|q: usize, k: Key<S>, p: usize| #[trigger] self.edge(q, k, p) ==> self.is_state(p) && syms.contains(k)
  }
  /// The blocks are parts of the set of states, with one tag each.
  pub open spec fn blocks(&self, p: Blocks) -> bool {
    &&& forall|q: usize| #[trigger] covers(p, q) == self.is_state(q)
    &&& disjoint(p)
    &&& nonempty(p)
    &&& forall|i: int, a: usize, b: usize| 0 <= i < p.len() && #[trigger] p[i]@.contains(a) && #[trigger] p[i]@.contains(b) ==> at(self.tags@, a) == at(self.tags@, b)
  }
  pub open spec fn goes_together(&self, p: Blocks, a: usize, b: usize, k: Key<S>) -> bool { forall|a2: usize| #[trigger] self.edge(a, k, a2) ==> exists|b2: usize| #[trigger] self.edge(b, k, b2) && together(p, a2, b2) }
  pub open spec fn goes_alike(&self, idx: Map<usize, usize>, a: usize, b: usize, k: Key<S>) -> bool { forall|a2: usize| #[trigger] self.edge(a, k, a2) ==> exists|b2: usize| #[trigger] self.edge(b, k, b2) && at(idx, a2) == at(idx, b2) }
  /// States of one block go to states of one block.
  #[verifier::opaque]
  pub open spec fn stable(&self, p: Blocks) -> bool {
forall|a: usize, b: usize, k: Key<S>| together(p, a, b) ==> #[trigger] self.goes_together(p, a, b, k)
  }
  /// The same for one set of states, with the blocks given by their numbers.
  #[verifier::opaque]
  pub open spec fn alike(&self, idx: Map<usize, usize>, s: Set<usize>) -> bool {
forall|a: usize, b: usize, k: Key<S>| s.contains(a) && s.contains(b) && self.is_state(b) ==> #[trigger] self.goes_alike(idx, a, b, k)
  }
}
pub open spec fn indexed(p: Blocks, idx: Map<usize, usize>) -> bool {
  &&& forall|q: usize| #[trigger] idx.contains_key(q) == covers(p, q)
  &&& forall|i: int, q: usize| 0 <= i < p.len() && #[trigger] p[i]@.contains(q) ==> idx[q] == i
}
/// The states with a tag, by tag.
pub open spec fn by_tag<T>(m: Map<&T, HashSet<usize>>, tags: Map<usize, T>) -> bool {
  forall|t: &T| #[trigger] m.contains_key(t) ==> inhabited(m[t]@) && forall|q: usize| #[trigger] m[t]@.contains(q) ==> tags.contains_key(q) && tags[q] == *t
}
pub open spec fn all_tags<T>(m: Map<&T, HashSet<usize>>, tags: Map<usize, T>) -> bool { forall|q: usize| #[trigger] tags.contains_key(q) ==> m.contains_key(&tags[q]) && m[&tags[q]]@.contains(q) }
pub open spec fn tag_blocks<T>(p: Blocks, tags: Map<usize, T>) -> bool {
  &&& forall|q: usize| #[trigger] covers(p, q) == tags.contains_key(q)
  &&& disjoint(p)
  &&& nonempty(p)
  &&& forall|i: int, a: usize, b: usize| 0 <= i < p.len() && #[trigger] p[i]@.contains(a) && #[trigger] p[i]@.contains(b) ==> at(tags, a) == at(tags, b)
}
proof fn tag_values<T>(m: Map<&T, HashSet<usize>>, tags: Map<usize, T>, p: Blocks)
  requires by_tag(m, tags), all_tags(m, tags), values(p, m),
  ensures tag_blocks(p, tags),
{
  let e = choose|e: Seq<(&T, HashSet<usize>)>| #[trigger] lists(e, m) && p.len() == e.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] == e[i].1;
  assert forall|q: usize| #[trigger] covers(p, q) == tags.contains_key(q) by {
    if covers(p, q) { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i])@.contains(q); assert(m.contains_key(e[i].0)); }
    if tags.contains_key(q) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == &tags[q]; assert(p[i]@.contains(q)); }
  }
  assert forall|i: int, j: int, q: usize| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies !(#[trigger] p[i]@.contains(q) && #[trigger] p[j]@.contains(q)) by {
    assert(m.contains_key(e[i].0) && m.contains_key(e[j].0));
    if i < j { assert(e[i].0 != e[j].0); } else { assert(e[j].0 != e[i].0); }
  }
  assert forall|i: int| 0 <= i < p.len() implies inhabited((#[trigger] p[i])@) by { assert(m.contains_key(e[i].0)); }
  assert forall|i: int, a: usize, b: usize| 0 <= i < p.len() && #[trigger] p[i]@.contains(a) && #[trigger] p[i]@.contains(b) implies at(tags, a) == at(tags, b) by { assert(m.contains_key(e[i].0)); }
}
proof fn tags_done<T>(e: Seq<(&usize, &T)>, m: Map<&T, HashSet<usize>>, tags: Map<usize, T>)
  requires lists(derefs2(e), tags),
  ensures (forall|i: int| 0 <= i < e.len() ==> m.contains_key((#[trigger] e[i]).1) && m[e[i].1]@.contains(*e[i].0)) ==> all_tags(m, tags),
{
  if forall|i: int| 0 <= i < e.len() ==> m.contains_key((#[trigger] e[i]).1) && m[e[i].1]@.contains(*e[i].0) {
    let d = derefs2(e);
    assert forall|q: usize| #[trigger] tags.contains_key(q) implies m.contains_key(&tags[q]) && m[&tags[q]]@.contains(q) by {
      let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == q;
      assert(*e[i].1 == tags[q]);
    }
  }
}
proof fn covers_push(p: Blocks, x: HashSet<usize>, q: usize)
  ensures covers(p.push(x), q) == (covers(p, q) || x@.contains(q)),
{
  let r = p.push(x);
  if covers(r, q) { let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i])@.contains(q); if i < p.len() { assert(p[i]@.contains(q)); } }
  if covers(p, q) { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i])@.contains(q); assert(r[i]@.contains(q)); }
  if x@.contains(q) { assert(r[p.len() as int]@.contains(q)); }
}
impl<S, T> DFA<S, T> {
  proof fn first_blocks(&self, p: Blocks, others: HashSet<usize>)
    requires
      self.sound(), tag_blocks(p, self.tags@),
      forall|q: usize| #[trigger] others@.contains(q) == (self.is_state(q) && !self.fa.finals@.contains(q)),
    ensures
      others@ == Set::<usize>::empty() ==> self.blocks(p),
      others@ != Set::<usize>::empty() ==> self.blocks(p.push(others)),
  {
    if others@ == Set::<usize>::empty() {
      assert forall|q: usize| #[trigger] covers(p, q) == self.is_state(q) by { assert(others@.contains(q) == (self.is_state(q) && !self.fa.finals@.contains(q))); }
    } else {
      let r = p.push(others);
      assert forall|q: usize| #[trigger] covers(r, q) == self.is_state(q) by { covers_push(p, others, q); }
      assert(inhabited(others@)) by { if forall|q: usize| !others@.contains(q) { assert(others@ =~= Set::<usize>::empty()); } }
      assert(nonempty(r));
      assert forall|i: int, q: usize| 0 <= i < p.len() && #[trigger] p[i]@.contains(q) implies !others@.contains(q) by { assert(covers(p, q)); }
      assert(disjoint(r));
      assert(forall|q: usize| #[trigger] others@.contains(q) ==> at(self.tags@, q) is None);
    }
  }
  pub open spec fn sig_at(&self, idx: Map<usize, usize>, q: usize, k: Key<S>, b: usize) -> bool { exists|p: usize| #[trigger] self.edge(q, k, p) && at(idx, p) == Some(b) }
  /// The first n symbols with which a state goes somewhere, with the block it goes to.
  #[verifier::opaque]
  pub open spec fn is_sig(&self, syms: Seq<Key<S>>, n: int, idx: Map<usize, usize>, x: Set<(&Key<S>, usize)>, q: usize) -> bool {
    forall|k: Key<S>, b: usize| #[trigger] x.contains((&k, b)) == (syms.take(n).contains(k) && self.sig_at(idx, q, k, b))
  }
  proof fn sig_next(&self, syms: Seq<Key<S>>, n: int, idx: Map<usize, usize>, x: Set<(&Key<S>, usize)>, q: usize, next: Option<usize>)
    requires
      0 <= n < syms.len(), self.over(syms), self.is_state(q), self.is_sig(syms, n, idx, x, q),
      next is Some ==> self.edge(q, syms[n], next->0),
      next is None ==> forall|p: usize| !self.edge(q, syms[n], p),
    ensures
      next is Some && idx.contains_key(next->0) ==> self.is_sig(syms, n + 1, idx, x.insert((&syms[n], idx[next->0])), q),
      next is None || !idx.contains_key(next->0) ==> self.is_sig(syms, n + 1, idx, x, q),
  {
    reveal(DFA::is_sig);
    let y = if next is Some && idx.contains_key(next->0) { x.insert((&syms[n], idx[next->0])) } else { x };
    assert forall|p: usize| #[trigger] self.edge(q, syms[n], p) implies next == Some(p) by {
      assert(one_edge(self.outs(q)));
      assert(self.edge(q, syms[n], next->0));
    }
    assert(syms.take(n + 1) =~= syms.take(n).push(syms[n]));
    assert forall|k: Key<S>, b: usize| #[trigger] y.contains((&k, b)) == (syms.take(n + 1).contains(k) && self.sig_at(idx, q, k, b)) by {
      vstd::seq_lib::lemma_seq_contains_after_push(syms.take(n), syms[n], k);
      assert(x.contains((&k, b)) == (syms.take(n).contains(k) && self.sig_at(idx, q, k, b)));
    }
  }
  pub open spec fn sorted_out(&self, syms: Seq<Key<S>>, idx: Map<usize, usize>, m: Map<BTreeSet<(&Key<S>, usize)>, HashSet<usize>>) -> bool {
    forall|x: BTreeSet<(&Key<S>, usize)>| #[trigger] m.contains_key(x) ==> inhabited(m[x]@) && forall|q: usize| #[trigger] m[x]@.contains(q) ==> self.is_sig(syms, syms.len() as int, idx, x@, q)
  }
  /// The parts of a block.
  pub open spec fn split(&self, idx: Map<usize, usize>, s: Set<usize>, r: Blocks) -> bool {
    &&& r.len() >= 1
    &&& nonempty(r) && disjoint(r)
    &&& forall|q: usize| #[trigger] covers(r, q) == s.contains(q)
    &&& r.len() == 1 ==> self.alike(idx, s)
  }
  proof fn alone(&self, idx: Map<usize, usize>, s: HashSet<usize>)
    requires s@.len() <= 1, s@ != Set::<usize>::empty(),
    ensures self.split(idx, s@, seq![s]),
  {
    let r = seq![s];
    assert(inhabited(s@)) by { if forall|q: usize| !s@.contains(q) { assert(s@ =~= Set::<usize>::empty()); } }
    assert forall|q: usize| #[trigger] covers(r, q) == s@.contains(q) by { if s@.contains(q) { assert(r[0]@.contains(q)); } }
    assert forall|a: usize, b: usize| s@.contains(a) && s@.contains(b) implies a == b by {
      if a != b { let t = set![a, b]; assert(t.subset_of(s@)); vstd::set_lib::lemma_len_subset(t, s@); assert(t.len() == 2); }
    }
    assert(self.alike(idx, s@)) by { reveal(DFA::alike); assert(forall|a: usize, k: Key<S>| #[trigger] self.goes_alike(idx, a, a, k)); }
  }
  proof fn sig_none(&self, syms: Seq<Key<S>>, idx: Map<usize, usize>, x: Set<(&Key<S>, usize)>, q: usize)
    requires x == Set::<(&Key<S>, usize)>::empty(),
    ensures self.is_sig(syms, 0, idx, x, q),
  {
    reveal(DFA::is_sig);
    assert(syms.take(0) =~= Seq::<Key<S>>::empty());
  }
  proof fn sig_unique(&self, syms: Seq<Key<S>>, idx: Map<usize, usize>, x: Set<(&Key<S>, usize)>, y: Set<(&Key<S>, usize)>, q: usize)
    requires self.is_sig(syms, syms.len() as int, idx, x, q), self.is_sig(syms, syms.len() as int, idx, y, q),
    ensures x == y,
  {
    reveal(DFA::is_sig);
    assert forall|z: (&Key<S>, usize)| #[trigger] x.contains(z) == y.contains(z) by { let k = *z.0; assert(x.contains((&k, z.1)) == y.contains((&k, z.1))); }
    assert(x =~= y);
  }
  proof fn divided(&self, syms: Seq<Key<S>>, idx: Map<usize, usize>, s: Set<usize>, m: Map<BTreeSet<(&Key<S>, usize)>, HashSet<usize>>, r: Blocks)
    requires
      self.over(syms), self.sorted_out(syms, idx, m), values(r, m),
      forall|q: usize| s.contains(q) ==> placed(m, q), within_set(m, s),
      forall|q: usize, k: Key<S>, p: usize| s.contains(q) && #[trigger] self.edge(q, k, p) ==> idx.contains_key(p),
      s != Set::<usize>::empty(),
    ensures self.split(idx, s, r),
  {
    assert forall|x: BTreeSet<(&Key<S>, usize)>, y: BTreeSet<(&Key<S>, usize)>, q: usize| #[trigger] at_place(m, x, q) && #[trigger] at_place(m, y, q) implies x == y by {
      self.sig_one_set(syms, idx, m, x, y, q);
    }
    let e = value_blocks(m, r);
    assert(inhabited(s)) by { if forall|q: usize| !s.contains(q) { assert(s =~= Set::<usize>::empty()); } }
    let q0 = choose|q: usize| #[trigger] s.contains(q);
    assert(placed(m, q0));
    assert(covers(r, q0));
    assert forall|q: usize| #[trigger] covers(r, q) == s.contains(q) by { if placed(m, q) { let x = choose|x: BTreeSet<(&Key<S>, usize)>| #[trigger] m.contains_key(x) && m[x]@.contains(q); assert(s.contains(q)); } }
    if r.len() == 1 {
      let x = e[0].0;
      assert(m.contains_key(x) && m[x] == r[0]);
      assert forall|a: usize| #[trigger] s.contains(a) implies self.is_sig(syms, syms.len() as int, idx, x@, a) by { assert(covers(r, a)); assert(r[0]@.contains(a)); assert(m[x]@.contains(a)); }
      self.one_sig(syms, idx, s, x@);
    }
  }
  proof fn sig_one_set(&self, syms: Seq<Key<S>>, idx: Map<usize, usize>, m: Map<BTreeSet<(&Key<S>, usize)>, HashSet<usize>>, x: BTreeSet<(&Key<S>, usize)>, y: BTreeSet<(&Key<S>, usize)>, q: usize)
    requires self.sorted_out(syms, idx, m), at_place(m, x, q), at_place(m, y, q),
    ensures x == y,
  {
    assert(m.contains_key(x) && m.contains_key(y));
    assert(m[x]@.contains(q) && m[y]@.contains(q));
    self.sig_unique(syms, idx, x@, y@, q);
    se::set_ext(x, y);
  }
  proof fn one_sig(&self, syms: Seq<Key<S>>, idx: Map<usize, usize>, s: Set<usize>, x: Set<(&Key<S>, usize)>)
    requires
      self.over(syms), forall|a: usize| #[trigger] s.contains(a) ==> self.is_sig(syms, syms.len() as int, idx, x, a),
      forall|q: usize, k: Key<S>, p: usize| s.contains(q) && #[trigger] self.edge(q, k, p) ==> idx.contains_key(p),
    ensures self.alike(idx, s),
  {
    reveal(DFA::is_sig);
    assert(syms.take(syms.len() as int) =~= syms);
    assert forall|a: usize, b: usize, k: Key<S>| s.contains(a) && s.contains(b) && self.is_state(b) implies #[trigger] self.goes_alike(idx, a, b, k) by {
      assert forall|a2: usize| #[trigger] self.edge(a, k, a2) implies exists|b2: usize| #[trigger] self.edge(b, k, b2) && at(idx, a2) == at(idx, b2) by {
        assert(syms.contains(k));
        assert(self.sig_at(idx, a, k, idx[a2]));
        assert(x.contains((&k, idx[a2])));
        assert(self.sig_at(idx, b, k, idx[a2]));
      }
    }
    reveal(DFA::alike);
  }
  /// What a pass has done after i blocks.
  pub open spec fn progress(&self, idx: Map<usize, usize>, old: Blocks, out: Blocks, i: int) -> bool {
    &&& 0 <= i <= old.len() && out.len() >= i
    &&& nonempty(out) && disjoint(out)
    &&& forall|q: usize| #[trigger] covers(out, q) == covers(old.take(i), q)
    &&& forall|a: int| 0 <= a < out.len() ==> under((#[trigger] out[a])@, old, i)
    &&& out.len() == i ==> forall|j: int| 0 <= j < i ==> (#[trigger] old[j])@ == out[j]@ && self.alike(idx, old[j]@)
  }
  proof fn progress_next(&self, idx: Map<usize, usize>, old: Blocks, out: Blocks, i: int, r: Blocks)
    requires self.progress(idx, old, out, i), i < old.len(), disjoint(old), self.split(idx, old[i]@, r),
    ensures self.progress(idx, old, out + r, i + 1),
  {
    let o2 = out + r;
    assert(old.take(i + 1) =~= old.take(i).push(old[i]));
    assert forall|q: usize| #[trigger] covers(o2, q) == covers(old.take(i + 1), q) by {
      covers_push(old.take(i), old[i], q);
      assert(covers(out, q) == covers(old.take(i), q));
      assert(covers(r, q) == old[i]@.contains(q));
      if covers(o2, q) { let a = choose|a: int| 0 <= a < o2.len() && (#[trigger] o2[a])@.contains(q); if a < out.len() { assert(out[a]@.contains(q)); } else { assert(r[a - out.len()]@.contains(q)); } }
      if covers(out, q) { let a = choose|a: int| 0 <= a < out.len() && (#[trigger] out[a])@.contains(q); assert(o2[a]@.contains(q)); }
      if covers(r, q) { let a = choose|a: int| 0 <= a < r.len() && (#[trigger] r[a])@.contains(q); assert(o2[a + out.len()]@.contains(q)); }
    }
    assert forall|a: int, q: usize| 0 <= a < r.len() && #[trigger] r[a]@.contains(q) implies old[i]@.contains(q) && !covers(out, q) by {
      assert(covers(r, q));
      if covers(out, q) { assert(covers(old.take(i), q)); let j = choose|j: int| 0 <= j < i && (#[trigger] old.take(i)[j])@.contains(q); assert(old[j]@.contains(q)); assert(old[i]@.contains(q)); }
    }
    assert forall|a: int, b: int, q: usize| 0 <= a < o2.len() && 0 <= b < o2.len() && a != b implies !(#[trigger] o2[a]@.contains(q) && #[trigger] o2[b]@.contains(q)) by {
      if o2[a]@.contains(q) && o2[b]@.contains(q) {
        let n = out.len();
        if a < n && b < n { assert(out[a]@.contains(q) && out[b]@.contains(q)); }
        else if a >= n && b >= n { assert(r[a - n]@.contains(q) && r[b - n]@.contains(q)); }
        else if a < n { assert(out[a]@.contains(q)); assert(r[b - n]@.contains(q)); assert(covers(out, q)); }
        else { assert(out[b]@.contains(q)); assert(r[a - n]@.contains(q)); assert(covers(out, q)); }
      }
    }
    assert forall|a: int| 0 <= a < o2.len() implies under((#[trigger] o2[a])@, old, i + 1) by {
      if a < out.len() { let j = choose|j: int| 0 <= j < i && out[a]@.subset_of(#[trigger] old[j]@); assert(o2[a]@.subset_of(old[j]@)); }
      else { assert(o2[a] == r[a - out.len()]); assert(o2[a]@.subset_of(old[i]@)); }
    }
    assert forall|a: int| 0 <= a < o2.len() implies inhabited((#[trigger] o2[a])@) by {
      if a < out.len() { assert(out[a] == o2[a]); } else { assert(o2[a] == r[a - out.len()]); }
    }
    if o2.len() == i + 1 {
      assert(o2[i] == r[0]);
      assert forall|q: usize| r[0]@.contains(q) == old[i]@.contains(q) by { assert(covers(r, q) == old[i]@.contains(q)); if r[0]@.contains(q) { assert(covers(r, q)); } }
      assert(r[0]@ =~= old[i]@);
      assert(forall|j: int| 0 <= j < i ==> (#[trigger] old[j])@ == out[j]@ && o2[j] == out[j]);
    }
  }
  proof fn progress_done(&self, idx: Map<usize, usize>, old: Blocks, out: Blocks, syms: Seq<Key<S>>)
    requires self.progress(idx, old, out, old.len() as int), self.blocks(old), indexed(old, idx), self.over(syms),
    ensures self.blocks(out), out.len() == old.len() ==> self.stable(out),
  {
    assert(old.take(old.len() as int) =~= old);
    assert forall|i: int, a: usize, b: usize| 0 <= i < out.len() && #[trigger] out[i]@.contains(a) && #[trigger] out[i]@.contains(b) implies at(self.tags@, a) == at(self.tags@, b) by {
      assert(under(out[i]@, old, old.len() as int)); let j = choose|j: int| 0 <= j < old.len() && out[i]@.subset_of(#[trigger] old[j]@);
      assert(old[j]@.contains(a) && old[j]@.contains(b));
    }
    if out.len() == old.len() {
      assert(forall|j: int| 0 <= j < old.len() ==> (#[trigger] old[j])@ == out[j]@ && self.alike(idx, old[j]@));
      self.all_alike(idx, old, out, syms);
    }
  }
  proof fn all_alike(&self, idx: Map<usize, usize>, old: Blocks, out: Blocks, syms: Seq<Key<S>>)
    requires
      self.blocks(old), indexed(old, idx), self.over(syms), old.len() == out.len(),
      forall|j: int| 0 <= j < old.len() ==> (#[trigger] old[j])@ == out[j]@ && self.alike(idx, old[j]@),
    ensures self.stable(out),
  {
    assert forall|a: usize, b: usize, k: Key<S>| together(out, a, b) implies #[trigger] self.goes_together(out, a, b, k) by {
      assert forall|a2: usize| #[trigger] self.edge(a, k, a2) implies exists|b2: usize| #[trigger] self.edge(b, k, b2) && together(out, a2, b2) by {
        self.one_alike(idx, old, out, syms, a, b, k, a2);
      }
    }
    reveal(DFA::stable);
  }
  proof fn one_alike(&self, idx: Map<usize, usize>, old: Blocks, out: Blocks, syms: Seq<Key<S>>, a: usize, b: usize, k: Key<S>, a2: usize)
    requires
      self.blocks(old), indexed(old, idx), self.over(syms), old.len() == out.len(),
      forall|j: int| 0 <= j < old.len() ==> (#[trigger] old[j])@ == out[j]@ && self.alike(idx, old[j]@),
      together(out, a, b), self.edge(a, k, a2),
    ensures exists|b2: usize| #[trigger] self.edge(b, k, b2) && together(out, a2, b2),
  {
    let i = choose|i: int| 0 <= i < out.len() && (#[trigger] out[i])@.contains(a) && out[i]@.contains(b);
    assert(old[i]@ == out[i]@);
    assert(self.alike(idx, old[i]@));
    assert(covers(old, b));
    assert(self.is_state(b));
    let b2 = self.alike_at(idx, old[i]@, a, b, k, a2);
    assert(self.is_state(a2) && self.is_state(b2));
    assert(covers(old, a2) && covers(old, b2));
    let x = choose|x: int| 0 <= x < old.len() && (#[trigger] old[x])@.contains(a2);
    let y = choose|x: int| 0 <= x < old.len() && (#[trigger] old[x])@.contains(b2);
    assert(idx[a2] == x && idx[b2] == y);
    assert(out[x]@ == old[x]@);
    assert(together(out, a2, b2));
  }
  proof fn alike_at(&self, idx: Map<usize, usize>, s: Set<usize>, a: usize, b: usize, k: Key<S>, a2: usize) -> (b2: usize)
    requires self.alike(idx, s), s.contains(a), s.contains(b), self.edge(a, k, a2), self.is_state(b),
    ensures self.edge(b, k, b2), at(idx, a2) == at(idx, b2),
  {
    reveal(DFA::alike);
    assert(self.goes_alike(idx, a, b, k));
    choose|b2: usize| #[trigger] self.edge(b, k, b2) && at(idx, a2) == at(idx, b2)
  }
}
/// The index of the first i blocks.
pub open spec fn indexed_to(p: Blocks, i: int, idx: Map<usize, usize>) -> bool {
  &&& forall|q: usize| #[trigger] idx.contains_key(q) == covers(p.take(i), q)
  &&& forall|j: int, q: usize| 0 <= j < i && #[trigger] p[j]@.contains(q) ==> idx[q] == j
}
pub open spec fn index_added(m0: Map<usize, usize>, s: Set<usize>, i: usize, m: Map<usize, usize>) -> bool {
  &&& forall|q: usize| #[trigger] m.contains_key(q) == (m0.contains_key(q) || s.contains(q))
  &&& forall|q: usize| #[trigger] m.contains_key(q) ==> m[q] == if s.contains(q) { i } else { m0[q] }
}
proof fn index_next(p: Blocks, i: int, m0: Map<usize, usize>, m: Map<usize, usize>)
  requires 0 <= i < p.len(), i <= usize::MAX, disjoint(p), indexed_to(p, i, m0), index_added(m0, p[i]@, i as usize, m),
  ensures indexed_to(p, i + 1, m),
{
  assert(p.take(i + 1) =~= p.take(i).push(p[i]));
  assert forall|q: usize| #[trigger] m.contains_key(q) == covers(p.take(i + 1), q) by { covers_push(p.take(i), p[i], q); assert(m0.contains_key(q) == covers(p.take(i), q)); }
  assert forall|j: int, q: usize| 0 <= j < i + 1 && #[trigger] p[j]@.contains(q) implies m[q] == j by {
    if j < i { assert(p.take(i)[j]@.contains(q)); assert(covers(p.take(i), q)); assert(m0.contains_key(q)); assert(m.contains_key(q)); } else { assert(m.contains_key(q)); }
  }
}
pub open spec fn at_place<X>(m: Map<X, HashSet<usize>>, x: X, q: usize) -> bool { m.contains_key(x) && m[x]@.contains(q) }
/// The values of a map whose sets have no members in common.
proof fn value_blocks<X>(m: Map<X, HashSet<usize>>, r: Blocks) -> (e: Seq<(X, HashSet<usize>)>)
  requires
    values(r, m), forall|x: X| #[trigger] m.contains_key(x) ==> inhabited(m[x]@),
    forall|x: X, y: X, q: usize| #[trigger] at_place(m, x, q) && #[trigger] at_place(m, y, q) ==> x == y,
  ensures
    lists(e, m), e.len() == r.len(), forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == e[i].1,
    forall|q: usize| #[trigger] covers(r, q) == placed(m, q),
    nonempty(r), disjoint(r),
{
  let e = choose|e: Seq<(X, HashSet<usize>)>| #[trigger] lists(e, m) && r.len() == e.len() && forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == e[i].1;
  assert forall|i: int| 0 <= i < r.len() implies m.contains_key((#[trigger] e[i]).0) && m[e[i].0] == r[i] by {}
  assert forall|q: usize| #[trigger] covers(r, q) == placed(m, q) by {
    if covers(r, q) { let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i])@.contains(q); assert(m.contains_key(e[i].0)); }
    if placed(m, q) {
      let x = choose|x: X| #[trigger] m.contains_key(x) && m[x]@.contains(q);
      let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == x;
      assert(r[i]@.contains(q));
    }
  }
  assert forall|i: int| 0 <= i < r.len() implies inhabited((#[trigger] r[i])@) by { assert(m.contains_key(e[i].0)); }
  assert forall|i: int, j: int, q: usize| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies !(#[trigger] r[i]@.contains(q) && #[trigger] r[j]@.contains(q)) by {
    if r[i]@.contains(q) && r[j]@.contains(q) {
      assert(at_place(m, e[i].0, q) && at_place(m, e[j].0, q));
      if i < j { assert(e[i].0 != e[j].0); } else { assert(e[j].0 != e[i].0); }
    }
  }
  e
}
pub open spec fn placed<X>(m: Map<X, HashSet<usize>>, q: usize) -> bool { exists|x: X| #[trigger] m.contains_key(x) && m[x]@.contains(q) }
pub open spec fn within_set<X>(m: Map<X, HashSet<usize>>, s: Set<usize>) -> bool { forall|x: X, q: usize| #[trigger] m.contains_key(x) && #[trigger] m[x]@.contains(q) ==> s.contains(q) }
impl<S, T> DFA<S, T> {
  proof fn sorted_next(&self, syms: Seq<Key<S>>, idx: Map<usize, usize>, s: Set<usize>, m0: Map<BTreeSet<(&Key<S>, usize)>, HashSet<usize>>, m: Map<BTreeSet<(&Key<S>, usize)>, HashSet<usize>>, x: BTreeSet<(&Key<S>, usize)>, q: usize)
    requires
      self.sorted_out(syms, idx, m0), within_set(m0, s), s.contains(q), self.is_sig(syms, syms.len() as int, idx, x@, q),
      m.contains_key(x), m == m0.insert(x, m[x]),
      m[x]@ == (if m0.contains_key(x) { m0[x]@.insert(q) } else { set![q] }),
    ensures
      self.sorted_out(syms, idx, m), within_set(m, s), placed(m, q),
      forall|p: usize| placed(m0, p) ==> placed(m, p),
  {
    assert(m[x]@.contains(q));
    assert forall|y: BTreeSet<(&Key<S>, usize)>| #[trigger] m.contains_key(y) implies inhabited(m[y]@) && forall|q: usize| #[trigger] m[y]@.contains(q) ==> self.is_sig(syms, syms.len() as int, idx, y@, q) by {
      if y != x { assert(m0.contains_key(y)); assert(m[y] == m0[y]); } else if m0.contains_key(x) {}
    }
    assert forall|y: BTreeSet<(&Key<S>, usize)>, p: usize| #[trigger] m.contains_key(y) && #[trigger] m[y]@.contains(p) implies s.contains(p) by {
      if y != x { assert(m0.contains_key(y)); assert(m[y] == m0[y]); } else if m0.contains_key(x) && p != q { assert(m0[x]@.contains(p)); }
    }
    assert forall|p: usize| placed(m0, p) implies placed(m, p) by {
      let y = choose|y: BTreeSet<(&Key<S>, usize)>| #[trigger] m0.contains_key(y) && m0[y]@.contains(p);
      assert(m.contains_key(y));
    }
  }
}
// A partition has no more blocks than there are states.
proof fn few_blocks(p: Blocks, s: Set<usize>)
  requires disjoint(p), nonempty(p), forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i])@.subset_of(s),
  ensures p.len() <= s.len(),
  decreases p.len(),
{
  if p.len() > 0 {
    let n = p.len() - 1;
    assert(inhabited(p[n]@));
    let q = choose|q: usize| #[trigger] p[n]@.contains(q);
    let r = p.take(n);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i])@.subset_of(s.remove(q)) by { assert(r[i] == p[i]); assert(p[i]@.subset_of(s)); }
    assert forall|i: int, j: int, q: usize| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies !(#[trigger] r[i]@.contains(q) && #[trigger] r[j]@.contains(q)) by { assert(r[i] == p[i] && r[j] == p[j]); }
    assert forall|i: int| 0 <= i < r.len() implies inhabited((#[trigger] r[i])@) by { assert(r[i] == p[i]); }
    few_blocks(r, s.remove(q));
    assert(p[n]@.subset_of(s));
    assert(s.contains(q));
  }
}
impl<S, T> DFA<S, T> {
  /// How many more blocks there can be.
  pub open spec fn spare(&self, p: Blocks) -> nat { if p.len() <= self.fa.states@.dom().len() { (self.fa.states@.dom().len() - p.len()) as nat } else { 0 } }
  proof fn spare_less(&self, p: Blocks, o: Blocks)
    requires self.blocks(o), p.len() < o.len(),
    ensures self.spare(o) < self.spare(p),
  {
    assert forall|i: int| 0 <= i < o.len() implies (#[trigger] o[i])@.subset_of(self.fa.states@.dom()) by {
      assert forall|q: usize| o[i]@.contains(q) implies self.fa.states@.dom().contains(q) by { assert(covers(o, q)); assert(self.is_state(q)); }
    }
    few_blocks(o, self.fa.states@.dom());
  }
}
//@ item laps_regex/src/dfa.rs impl DFA#0
//@ drop new new_from_nfa rebuild into_fa_tags dump
//@ fn minimize attr=loop_isolation(false)
    requires dfa.sound(), dfa.over(syms@),
    ensures dfa.blocks(r@), dfa.stable(r@),
//@ loop 0
    invariant
      lists(derefs2(it0.seq()), dfa.tags@), by_tag(m@, dfa.tags@),
      forall|i: int| 0 <= i < it0.index@ ==> m@.contains_key((#[trigger] it0.seq()[i]).1) && m@[it0.seq()[i].1]@.contains(*it0.seq()[i].0),
      it0.index@ == it0.seq().len() ==> all_tags(m@, dfa.tags@),
//@ loopbody 0
      let ghost m0 = m@;
      proof { let d = derefs2(it0.seq()); assert(it0.seq()[it0.index@] == (id, tag)); assert(d[it0.index@] == (*id, *tag)); assert(dfa.tags@.contains_key(*id)); }
//@ loopend 0
      proof {
        assert forall|t: &T| #[trigger] m@.contains_key(t) implies (exists|q: usize| m@[t]@.contains(q)) && forall|q: usize| #[trigger] m@[t]@.contains(q) ==> dfa.tags@.contains_key(q) && dfa.tags@[q] == *t by {
          if t == tag { assert(m@[t]@.contains(*id)); if m0.contains_key(t) {} } else { assert(m0.contains_key(t)); assert(m@[t] == m0[t]); }
        }
        tags_done(it0.seq(), m@, dfa.tags@);
      }
//@ after let p_ = $s_e;
      proof { tag_values(m_@, dfa.tags@, p_@); }
//@ loop 1
    invariant
      members(derefs(it1.seq()), dfa.fa.states@.dom()),
      forall|q: usize| #[trigger] m_@.contains(q) ==> dfa.is_state(q) && !dfa.fa.finals@.contains(q),
      forall|i: int| 0 <= i < it1.index@ && !dfa.fa.finals@.contains(*#[trigger] it1.seq()[i]) ==> m_@.contains(*it1.seq()[i]),
      it1.index@ == it1.seq().len() ==> forall|q: usize| #[trigger] m_@.contains(q) == (dfa.is_state(q) && !dfa.fa.finals@.contains(q)),
//@ loopbody 1
      proof { let d = derefs(it1.seq()); assert(it1.seq()[it1.index@] == id); assert(d[it1.index@] == *id); }
//@ loopend 1
      proof { some_deref(it1.seq(), dfa.fa.states@.dom()); assert(forall|q: usize| dfa.is_state(q) == dfa.fa.states@.dom().contains(q)); }
//@ after let others: HashSet<_> = $s_e;
    proof {
      dfa.first_blocks(partition@, others);
    }
//@ loop 2
    invariant dfa.blocks(partition@), num_states == partition@.len(),
    decreases dfa.spare(partition@),
//@ loopend 2
      proof { dfa.spare_less(gold, partition@); }
//@ loop 3
    invariant i <= partition@.len(), indexed_to(partition@, i as int, m_@),
    decreases partition@.len() - i,
//@ loopbody 3
      let ghost m0 = m_@;
//@ loop 4
    invariant
      members(derefs(it4.seq()), partition@[i as int]@),
      forall|q: usize| #[trigger] m_@.contains_key(q) == (m0.contains_key(q) || exists|j: int| 0 <= j < it4.index@ && *(#[trigger] it4.seq()[j]) == q),
      forall|q: usize| #[trigger] m_@.contains_key(q) && (exists|j: int| 0 <= j < it4.index@ && *(#[trigger] it4.seq()[j]) == q) ==> m_@[q] == i,
      forall|q: usize| #[trigger] m0.contains_key(q) && !(exists|j: int| 0 <= j < it4.index@ && *(#[trigger] it4.seq()[j]) == q) ==> m_@[q] == m0[q],
      it4.index@ == it4.seq().len() ==> index_added(m0, partition@[i as int]@, i, m_@),
//@ loopbody 4
        let ghost m1 = m_@;
        proof { assert(it4.seq()[it4.index@] == id); assert(derefs(it4.seq())[it4.index@] == *id); }
//@ loopend 4
        proof {
          assert(m_@ == m1.insert(*id, i));
          some_deref(it4.seq(), partition@[i as int]@);
        }
//@ loopend 3
      proof { index_next(partition@, i - 1, m0, m_@); }
//@ after let index_map: HashMap<_, _> = $s_e;
      let ghost gold = partition@;
      let ghost idx = index_map@;
      let ghost mut gout: Blocks = Seq::empty();
      proof { assert(gold.take(gold.len() as int) =~= gold); assert(indexed(gold, idx)); assert(dfa.progress(idx, gold, gout, 0)); assert(gold.skip(0) + gout =~= gold); assert(covers(gold, dfa.fa.init)); }
//@ loop 5
    invariant
      it5.seq().len() == gold.len(), dfa.blocks(gold), indexed(gold, idx), idx == index_map@,
      partition@ == gold.skip(it5.index@) + gout, dfa.progress(idx, gold, gout, it5.index@),
      it5.index@ == it5.seq().len() ==> partition@ == gout && dfa.blocks(gout) && (gout.len() == gold.len() ==> dfa.stable(gout)),
//@ loopbody 5
        let ghost mut gr: Blocks = Seq::empty();
        let ghost gi = it5.index@;
//@ after let states = partition.pop_front().unwrap();
        let ghost gs = states;
        proof {
          assert(gs == gold[gi]);
          assert(partition@ =~= gold.skip(gi + 1) + gout);
          assert(gs@ != Set::<usize>::empty()) by { let q = choose|q: usize| gold[gi]@.contains(q); assert(gs@.contains(q)); }
        }
        let ghost pre = partition@;
//@ after partition.push_back(states);
          proof { dfa.alone(idx, gs); gr = seq![gs]; assert(partition@ =~= pre + gr); }
//@ loop 6
    invariant
      members(it6.seq(), gs@), dfa.sorted_out(syms@, idx, division@), partition@ == pre,
      within_set(division@, gs@),
      forall|i: int| 0 <= i < it6.index@ ==> placed(division@, #[trigger] it6.seq()[i]),
      it6.index@ == it6.seq().len() ==> forall|q: usize| gs@.contains(q) ==> placed(division@, q),
//@ loopbody 6
          let ghost d0 = division@;
          proof { assert(it6.seq()[it6.index@] == id); assert(gs@.contains(id)); assert(covers(gold, id)); }
//@ after let mut m_ = BTreeSet::new();
          proof { dfa.sig_none(syms@, idx, m_@, id); }
//@ loop 7
    invariant j_ <= syms@.len(), dfa.is_sig(syms@, j_ as int, idx, m_@, id),
    decreases syms@.len() - j_,
//@ loopbody 7
            let ghost x0 = m_@;
//@ after let next = fa.state(id).unwrap().next_state(s);
            let ghost gn = next;
            proof { dfa.sig_next(syms@, j_ as int, idx, x0, id, next); }
//@ after let div_id: BTreeSet<_> = $s_e;
          let ghost gx = div_id;
//@ loopend 6
          proof {
            dfa.sorted_next(syms@, idx, gs@, d0, division@, gx, id);
            assert forall|i: int| 0 <= i < it6.index@ + 1 implies placed(division@, #[trigger] it6.seq()[i]) by {}
          }
//@ after let vals_ = division.into_values_();
          proof {
            dfa.divided(syms@, idx, gs@, division@, vals_@);
            gr = vals_@;
            assert(gr.take(0) =~= Seq::<HashSet<usize>>::empty());
            assert(partition@ =~= pre + gr.take(0));
          }
//@ loop 8
    invariant it8.seq() == gr, partition@ == pre + gr.take(it8.index@),
//@ loopbody 8
            let ghost pb = partition@;
            proof { assert(it8.seq()[it8.index@] == v_); }
//@ loopend 8
            proof { assert(gr.take(it8.index@ + 1) =~= gr.take(it8.index@).push(gr[it8.index@])); assert(partition@ =~= pre + gr.take(it8.index@ + 1)); }
//@ loopend 5
        proof {
          assert(gr.take(gr.len() as int) =~= gr);
          dfa.progress_next(idx, gold, gout, gi, gr);
          assert(partition@ =~= gold.skip(gi + 1) + (gout + gr));
          gout = gout + gr;
          if gi + 1 == gold.len() { dfa.progress_done(idx, gold, gout, syms@); assert(partition@ =~= gout); }
        }
//@ end
