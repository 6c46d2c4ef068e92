// ------------------------------------------------------------ the powerset construction
//@ rewrite the global counter as a parameter :: fn new_from_nfa(nfa: ==> fn new_from_nfa(c_: &mut Ids, nfa:
//@ rewrite the global counter as a parameter :: fn construct(self, ==> fn construct(self, c_: &mut Ids,
//@ rewrite the global counter as a parameter :: fn construct_normal(self, ==> fn construct_normal(self, c_: &mut Ids,
//@ rewrite the global counter as a parameter :: fn construct_par(self, ==> fn construct_par(self, c_: &mut Ids,
//@ rewrite the global counter as a parameter :: fn add_to_fa(&mut self, cur_id ==> fn add_to_fa(&mut self, c_: &mut Ids, cur_id
//@ rewrite the global counter as a parameter :: .add_to_fa(cur_id, ==> .add_to_fa(c_, cur_id,
//@ rewrite the global counter as a parameter :: self.construct_par(cached ==> self.construct_par(c_, cached
//@ rewrite the global counter as a parameter :: self.construct_normal(cached ==> self.construct_normal(c_, cached
//@ rewrite the global counter as a parameter :: constructor.construct(init_cached ==> constructor.construct(c_, init_cached
//@ rewrite iterator adapters to a loop :: self.nfa_tags.iter().find_map(|(tag, id)| $c.then(|| tag.clone())) ==> { let mut r_ = None; let mut i_ = 0; while i_ < self.nfa_tags.len() && r_.is_none() { let (tag, id) = &self.nfa_tags[i_]; if $c { r_ = Some(clone_(tag)); } i_ = i_ + 1; } r_ }
//@ rewrite iterator adapters to a loop :: nfa_tags.iter().find_map(|(tag, id)| $c.then(|| tag.clone())) ==> { let mut r_ = None; let mut i_ = 0; while i_ < nfa_tags.len() && r_.is_none() { let (tag, id) = &nfa_tags[i_]; if $c { r_ = Some(clone_(tag)); } i_ = i_ + 1; } r_ }
//@ rewrite iterator adapters to a loop :: nfa_tags.into_iter().map(|(id, tag)| $e).collect(); ==> { let mut v_ = Vec::new(); for (id, tag) in nfa_tags.into_entries_() { v_.push($e); } v_ };
//@ rewrite sort_unstable to a function that permutes :: nfa_tags.sort_unstable() ==> sort_tags_(&mut nfa_tags)
//@ rewrite the choice whether to run in parallel is arbitrary :: self.enable_par.unwrap_or_else(|| $s_b) ==> match self.enable_par { Some(b_) => b_, None => any_bool_() }
//@ rewrite members of a set in some order :: cb.symbol_set().into_iter().collect() ==> cb.symbol_set().into_items_()
//@ rewrite conversion at the call :: &mut init_cached, [init_id]) ==> &mut init_cached, BTreeSet::one_(init_id))
//@ rewrite map of an array :: HashMap::from([($k, $v)]) ==> { let mut m_ = HashMap::new(); m_.insert($k, $v); m_ }
//@ rewrite index of a map :: self_.ids[&cur] ==> *self_.ids.index_(&cur)
//@ rewrite clone to a function with its contract :: s.clone() ==> clone_(s)
//@ rewrite a parallel iterator to a loop over its elements :: syms.par_iter().zip(&mut cached_epsilons).map(|(s, c)| $e).collect_into_vec(&mut nexts); ==> { nexts = Vec::new(); let mut i_ = 0; while i_ < syms.len() && i_ < cached_epsilons.len() { let s = &syms[i_]; let c = at_mut_(&mut cached_epsilons, i_); nexts.push($e); i_ = i_ + 1; } }
//@ rewrite type annotation :: let mut nexts = Vec::new(); ==> let mut nexts: Vec<Closure> = Vec::new();
//@ rewrite vector of copies :: vec![cached; $n] ==> copies_(cached, $n)
//@ rewrite two lists in step :: syms.iter().zip(nexts.drain(..)) ==> zip_(syms, drain_(&mut nexts))
//@ rewrite drop a use of a trait :: use rayon::prelude::*; ==>
//@ rewrite vector of one value :: vec![init.clone()] ==> one_(init.clone())
//@ rewrite value in a block, to state a fact about it :: ($e.into_dfa(), syms) ==> { let t_ = $e; let d_ = t_.into_dfa(); (d_, syms) }
//@ inline laps_regex/src/dfa.rs first_tag
//@ assume rayon's parallel map of a list yields the results in the order of the list (documented for collect_into_vec of an indexed iterator); the closures run without effects on each other but through their own cache
#[verifier::external_body]
fn any_bool_() -> bool { unimplemented!() }
#[verifier::external_body]
fn one_<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { unimplemented!() }
#[verifier::external_body]
fn copies_<T>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }
#[verifier::external_body]
fn drain_<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
#[verifier::external_body]
fn zip_<A, B>(a: &[A], b: Vec<B>) -> (r: Vec<(&A, B)>)
  ensures r@.len() == if a@.len() < b@.len() { a@.len() } else { b@.len() }, forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == a@[i] && r@[i].1 == b@[i],
{ unimplemented!() }
#[verifier::external_body]
fn at_mut_<T>(v: &mut Vec<T>, i: usize) -> (r: &mut T)
  requires i < old(v)@.len(),
  ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)),
{ unimplemented!() }
/// Order of the tags: what `Ord` of the tag type compares.
pub uninterp spec fn le<T>(a: T, b: T) -> bool;
#[verifier::external_body]
fn sort_tags_<T>(v: &mut Vec<(T, usize)>)
  ensures
    final(v)@.to_multiset() == old(v)@.to_multiset(),
    forall|i: int, j: int| 0 <= i <= j < final(v)@.len() ==> le((#[trigger] final(v)@[i]).0, (#[trigger] final(v)@[j]).0),
{ unimplemented!() }
//@ item laps_regex/src/nfa.rs type FATags only=1
//@ header pub type NFATags<S, T> =
//@ end
//@ item laps_regex/src/nfa.rs impl NFA#0 only=1
//@ fn into_fa_tags
    ensures r.0 == self.fa, r.1 == self.tags,
//@ end
//@ item laps_regex/src/dfa.rs struct Constructor attr=reject_recursive_types(S)
//@ end
/// The smallest tag of the states.
pub open spec fn best<T>(tags: Map<usize, T>, a: Set<usize>, r: Option<T>) -> bool {
  match r {
    Some(t) => (exists|q: usize| a.contains(q) && #[trigger] tags.contains_key(q) && tags[q] == t) && forall|q: usize| a.contains(q) && #[trigger] tags.contains_key(q) ==> le(t, tags[q]),
    None => forall|q: usize| a.contains(q) ==> !#[trigger] tags.contains_key(q),
  }
}
/// The list is the map, in the order of the tags.
pub open spec fn listed<T>(l: Seq<(T, usize)>, tags: Map<usize, T>) -> bool {
  &&& forall|i: int| 0 <= i < l.len() ==> tags.contains_key((#[trigger] l[i]).1) && tags[l[i].1] == l[i].0
  &&& forall|q: usize| #[trigger] tags.contains_key(q) ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).1 == q
  &&& forall|i: int, j: int| 0 <= i <= j < l.len() ==> le((#[trigger] l[i]).0, (#[trigger] l[j]).0)
}
pub open spec fn unsorted<T>(e: Seq<(T, usize)>, tags: Map<usize, T>) -> bool {
  &&& forall|i: int| 0 <= i < e.len() ==> tags.contains_key((#[trigger] e[i]).1) && tags[e[i].1] == e[i].0
  &&& forall|q: usize| #[trigger] tags.contains_key(q) ==> exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).1 == q
}
proof fn pairs<T>(s: Seq<(usize, T)>, e: Seq<(T, usize)>, tags: Map<usize, T>)
  requires lists(s, tags), e.len() <= s.len(), forall|i: int| 0 <= i < e.len() ==> #[trigger] e[i] == (s[i].1, s[i].0),
  ensures e.len() == s.len() ==> unsorted(e, tags),
{
  if e.len() == s.len() {
    assert forall|i: int| 0 <= i < e.len() implies tags.contains_key((#[trigger] e[i]).1) && tags[e[i].1] == e[i].0 by { assert(tags.contains_key(s[i].0)); }
    assert forall|q: usize| #[trigger] tags.contains_key(q) implies exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).1 == q by {
      let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == q;
      assert(e[i].1 == q);
    }
  }
}
proof fn listed_sorted<T>(e: Seq<(T, usize)>, l: Seq<(T, usize)>, tags: Map<usize, T>)
  requires
    e.to_multiset() == l.to_multiset(), unsorted(e, tags),
    forall|i: int, j: int| 0 <= i <= j < l.len() ==> le((#[trigger] l[i]).0, (#[trigger] l[j]).0),
  ensures listed(l, tags),
{
  e.to_multiset_ensures();
  l.to_multiset_ensures();
  assert forall|i: int| 0 <= i < l.len() implies tags.contains_key((#[trigger] l[i]).1) && tags[l[i].1] == l[i].0 by {
    assert(l.to_multiset().count(l[i]) > 0);
    assert(e.contains(l[i]));
  }
  assert forall|q: usize| #[trigger] tags.contains_key(q) implies exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).1 == q by {
    let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).1 == q;
    assert(e.to_multiset().count(e[i]) > 0);
    assert(l.contains(e[i]));
  }
}
/// The first of the list that is in the set, if it is among the first n.
pub open spec fn first<T>(l: Seq<(T, usize)>, n: int, a: Set<usize>, r: Option<T>) -> bool {
  match r {
    Some(t) => exists|i: int| 0 <= i < n && a.contains((#[trigger] l[i]).1) && l[i].0 == t && forall|j: int| 0 <= j < i ==> !a.contains((#[trigger] l[j]).1),
    None => forall|i: int| 0 <= i < n ==> !a.contains((#[trigger] l[i]).1),
  }
}
proof fn first_best<T>(l: Seq<(T, usize)>, n: int, tags: Map<usize, T>, a: Set<usize>, r: Option<T>)
  requires listed(l, tags), first(l, n, a, r), 0 <= n <= l.len(), r is None ==> n == l.len(),
  ensures best(tags, a, r),
{
  match r {
    Some(t) => {
      let i = choose|i: int| 0 <= i < n && a.contains((#[trigger] l[i]).1) && l[i].0 == t && forall|j: int| 0 <= j < i ==> !a.contains((#[trigger] l[j]).1);
      assert(tags.contains_key(l[i].1));
      assert forall|q: usize| a.contains(q) && #[trigger] tags.contains_key(q) implies le(t, tags[q]) by {
        let j = choose|j: int| 0 <= j < l.len() && (#[trigger] l[j]).1 == q;
        assert(i <= j);
        assert(le(l[i].0, l[j].0));
      }
    }
    None => {
      assert forall|q: usize| a.contains(q) implies !#[trigger] tags.contains_key(q) by {
        if tags.contains_key(q) { let j = choose|j: int| 0 <= j < l.len() && (#[trigger] l[j]).1 == q; }
      }
    }
  }
}
impl<S> ClosureBuilder<S> {
  /// The closures of equal sets are equal.
  proof fn goes_once(&self, a: Set<usize>, k: S, b: Set<usize>, c: Set<usize>)
    requires self.goes(a, k, b), self.goes(a, k, c),
    ensures b == c,
  {
    let m = choose|m: Set<usize>| (forall|q: usize| #[trigger] m.contains(q) == self.moves(a, k, q)) && #[trigger] self.is_closure(m, b);
    let n = choose|m: Set<usize>| (forall|q: usize| #[trigger] m.contains(q) == self.moves(a, k, q)) && #[trigger] self.is_closure(m, c);
    assert(m =~= n);
    assert(b =~= c);
  }
}
/// The edges of a state, labelled a, for the first n symbols.
pub open spec fn row<S>(cb: ClosureBuilder<Key<S>>, ids: Map<Closure, usize>, a: Closure, outs: Seq<(Key<S>, usize)>, syms: Seq<Key<S>>, n: int) -> bool {
  &&& one_edge(outs)
  &&& forall|k: Key<S>, p: usize| #[trigger] has_edge(outs, k, p) ==> exists|b: Closure| #[trigger] ids.contains_key(b) && ids[b] == p && b@ != Set::<usize>::empty() && cb.goes(a@, k, b@)
  &&& forall|k: Key<S>, p: usize| #[trigger] has_edge(outs, k, p) ==> exists|i: int| 0 <= i < n && #[trigger] syms[i] == k
  &&& forall|i: int| 0 <= i < n ==> row_at(cb, ids, a, outs, #[trigger] syms[i])
}
/// The edge of a state, labelled a, for a symbol.
pub open spec fn row_at<S>(cb: ClosureBuilder<Key<S>>, ids: Map<Closure, usize>, a: Closure, outs: Seq<(Key<S>, usize)>, k: Key<S>) -> bool {
  exists|b: Closure| #[trigger] cb.goes(a@, k, b@) && (b@ != Set::<usize>::empty() ==> ids.contains_key(b) && has_edge(outs, k, ids[b]))
}
impl<S, T> Constructor<S, T> {
  pub open spec fn outs(&self, a: Closure) -> Seq<(Key<S>, usize)> { self.fa.states@[self.ids@[a]].outs@ }
  /// Every closure met has a state of its own, with its tag.
  pub open spec fn based(&self, n: nat) -> bool {
    &&& self.fa.ok(n)
    &&& forall|a: Closure| #[trigger] self.ids@.contains_key(a) ==> self.fa.has(self.ids@[a])
    &&& forall|a: Closure, b: Closure| #[trigger] self.ids@.contains_key(a) && #[trigger] self.ids@.contains_key(b) && a != b ==> self.ids@[a] != self.ids@[b]
    &&& forall|q: usize| #[trigger] self.fa.has(q) ==> exists|a: Closure| #[trigger] self.ids@.contains_key(a) && self.ids@[a] == q
    &&& forall|q: usize| #[trigger] self.tags@.contains_key(q) ==> self.fa.has(q)
    &&& forall|q: usize| #[trigger] self.tags@.contains_key(q) == self.fa.finals@.contains(q)
  }
  pub open spec fn tagged(&self, tags: Map<usize, T>) -> bool {
    &&& listed(self.nfa_tags@, tags)
    &&& forall|a: Closure| #[trigger] self.ids@.contains_key(a) ==> best(tags, a@, at(self.tags@, self.ids@[a]))
  }
  pub open spec fn listed_once(&self) -> bool {
    &&& self.states@.no_duplicates()
    &&& forall|i: int| 0 <= i < self.states@.len() ==> self.ids@.contains_key(#[trigger] self.states@[i]) && self.outs(self.states@[i]).len() == 0
  }
  /// All states but those in the list and cur have their edges.
  pub open spec fn rows(&self, syms: Seq<Key<S>>, cur: Option<Closure>) -> bool {
    forall|a: Closure| #[trigger] self.ids@.contains_key(a) && !self.states@.contains(a) && cur != Some(a) ==> row(self.cb, self.ids@, a, self.outs(a), syms, syms.len() as int)
  }
}
impl<S, T> Constructor<S, T> {
  /// What a call of add_to_fa does.
  pub open spec fn added(&self, cur_id: usize, s: Key<S>, next: Closure, r: &Self) -> bool {
    &&& r.cb == self.cb && r.nfa_tags == self.nfa_tags
    &&& r.ids@.contains_key(next)
    &&& self.ids@.contains_key(next) ==> r.ids@ == self.ids@ && r.states@ == self.states@
    &&& !self.ids@.contains_key(next) ==> r.ids@ == self.ids@.insert(next, r.ids@[next]) && r.states@ == self.states@.push(next) && r.fa.states@[r.ids@[next]].outs@.len() == 0 && r.ids@[next] != cur_id
    &&& r.fa.init == self.fa.init
    &&& forall|q: usize| #[trigger] self.fa.has(q) ==> r.fa.states@[q].outs@ == if q == cur_id { self.fa.states@[q].outs@.push((s, r.ids@[next])) } else { self.fa.states@[q].outs@ }
  }
}
/// How many sets of states have not been met.
pub open spec fn unmet(ids: Map<Closure, usize>) -> nat { rooms(ids.dom().map(|a: Closure| a@)) }
proof fn unmet_less(a: Map<Closure, usize>, b: Map<Closure, usize>, s: Closure, x: usize)
  requires !a.contains_key(s), b == a.insert(s, x),
  ensures unmet(b) < unmet(a),
{
  let f = |a: Closure| a@;
  let c = a.dom().map(f);
  if c.contains(s@) { let t = choose|t: Closure| a.contains_key(t) && #[trigger] t@ == s@; assert(t == s); }
  assert(b.dom() =~= a.dom().insert(s));
  assert(b.dom().map(f) =~= c.insert(s@)) by {
    assert forall|z: Set<usize>| #[trigger] c.insert(s@).contains(z) implies b.dom().map(f).contains(z) by {
      if z == s@ { assert(b.dom().contains(s)); } else { let t = choose|t: Closure| a.dom().contains(t) && #[trigger] f(t) == z; assert(b.dom().contains(t)); }
    }
  }
  fin::rooms_less(c, s@);
}
/// The work left: sets not met, then states without edges.
pub open spec fn unfinished(ids: Map<Closure, usize>, n: nat, ids1: Map<Closure, usize>, n1: nat) -> bool { unmet(ids1) < unmet(ids) || ids1 == ids && n1 == n }
pub open spec fn extends<K, V>(a: Map<K, V>, b: Map<K, V>) -> bool { forall|k: K| #[trigger] a.contains_key(k) ==> b.contains_key(k) && b[k] == a[k] }
proof fn row_more<S>(cb: ClosureBuilder<Key<S>>, ids: Map<Closure, usize>, ids2: Map<Closure, usize>, a: Closure, outs: Seq<(Key<S>, usize)>, syms: Seq<Key<S>>, n: int)
  requires row(cb, ids, a, outs, syms, n), extends(ids, ids2),
  ensures row(cb, ids2, a, outs, syms, n),
{
  assert forall|k: Key<S>, p: usize| #[trigger] has_edge(outs, k, p) implies exists|b: Closure| #[trigger] ids2.contains_key(b) && ids2[b] == p && b@ != Set::<usize>::empty() && cb.goes(a@, k, b@) by {
    let b = choose|b: Closure| #[trigger] ids.contains_key(b) && ids[b] == p && b@ != Set::<usize>::empty() && cb.goes(a@, k, b@);
    assert(ids2.contains_key(b));
  }
  assert forall|i: int| 0 <= i < n implies row_at(cb, ids2, a, outs, #[trigger] syms[i]) by {
    assert(row_at(cb, ids, a, outs, syms[i]));
    let b = choose|b: Closure| #[trigger] cb.goes(a@, syms[i], b@) && (b@ != Set::<usize>::empty() ==> ids.contains_key(b) && has_edge(outs, syms[i], ids[b]));
    assert(cb.goes(a@, syms[i], b@));
    if b@ != Set::<usize>::empty() { assert(ids2.contains_key(b)); }
  }
}
proof fn row_push<S>(cb: ClosureBuilder<Key<S>>, ids: Map<Closure, usize>, a: Closure, outs: Seq<(Key<S>, usize)>, syms: Seq<Key<S>>, n: int, next: Closure)
  requires row(cb, ids, a, outs, syms, n), ids.contains_key(next), cb.goes(a@, syms[n], next@), next@ != Set::<usize>::empty(), 0 <= n < syms.len(), syms.no_duplicates(),
  ensures row(cb, ids, a, outs.push((syms[n], ids[next])), syms, n + 1),
{
  let o2 = outs.push((syms[n], ids[next]));
  assert forall|k: Key<S>, p: usize| #[trigger] has_edge(o2, k, p) implies has_edge(outs, k, p) || (k == syms[n] && p == ids[next]) by {
    let i = choose|i: int| 0 <= i < o2.len() && #[trigger] o2[i] == (k, p);
    if i < outs.len() { assert(outs[i] == (k, p)); }
  }
  assert forall|k: Key<S>, p: usize| #[trigger] has_edge(outs, k, p) implies has_edge(o2, k, p) by {
    let i = choose|i: int| 0 <= i < outs.len() && #[trigger] outs[i] == (k, p);
    assert(o2[i] == (k, p));
  }
  assert(o2[outs.len() as int] == (syms[n], ids[next]));
  assert(has_edge(o2, syms[n], ids[next]));
  assert forall|i: int| 0 <= i < outs.len() implies (#[trigger] outs[i]).0 != syms[n] by {
    assert(has_edge(outs, outs[i].0, outs[i].1));
  }
  assert forall|i: int| 0 <= i < n + 1 implies row_at(cb, ids, a, o2, #[trigger] syms[i]) by {
    if i == n { assert(cb.goes(a@, syms[n], next@)); } else {
      assert(row_at(cb, ids, a, outs, syms[i]));
      let b = choose|b: Closure| #[trigger] cb.goes(a@, syms[i], b@) && (b@ != Set::<usize>::empty() ==> ids.contains_key(b) && has_edge(outs, syms[i], ids[b]));
      assert(cb.goes(a@, syms[i], b@));
      if b@ != Set::<usize>::empty() { assert(has_edge(o2, syms[i], ids[b])); }
    }
  }
}
proof fn row_skip<S>(cb: ClosureBuilder<Key<S>>, ids: Map<Closure, usize>, a: Closure, outs: Seq<(Key<S>, usize)>, syms: Seq<Key<S>>, n: int, next: Closure)
  requires row(cb, ids, a, outs, syms, n), cb.goes(a@, syms[n], next@), next@ == Set::<usize>::empty(), 0 <= n < syms.len(),
  ensures row(cb, ids, a, outs, syms, n + 1),
{
  assert forall|i: int| 0 <= i < n + 1 implies row_at(cb, ids, a, outs, #[trigger] syms[i]) by {
    if i == n { assert(cb.goes(a@, syms[n], next@)); } else { assert(row_at(cb, ids, a, outs, syms[i])); }
  }
}
impl<S, T> Constructor<S, T> {
  /// The state cur has its edges for the first n symbols, those not in the list have all.
  pub open spec fn upto(&self, syms: Seq<Key<S>>, cur: Closure, n: int) -> bool {
    &&& self.listed_once()
    &&& self.ids@.contains_key(cur) && !self.states@.contains(cur)
    &&& self.rows(syms, Some(cur))
    &&& row(self.cb, self.ids@, cur, self.outs(cur), syms, n)
  }
  proof fn opened(o: &Self, r: &Self, syms: Seq<Key<S>>)
    requires
      o.listed_once(), o.rows(syms, None), o.states@.len() > 0,
      r.states@ == o.states@.drop_last(), r.ids == o.ids, r.fa == o.fa, r.cb == o.cb,
    ensures r.upto(syms, o.states@.last(), 0),
  {
    let cur = o.states@.last();
    assert forall|a: Closure| !r.states@.contains(a) && a != cur implies !o.states@.contains(a) by {
      if o.states@.contains(a) { let j = choose|j: int| 0 <= j < o.states@.len() && o.states@[j] == a; assert(r.states@[j] == a); }
    }
    assert(forall|i: int| 0 <= i < r.states@.len() ==> #[trigger] r.states@[i] == o.states@[i]);
    assert(o.ids@.contains_key(o.states@[o.states@.len() - 1]));
    if r.states@.contains(cur) { let j = choose|j: int| 0 <= j < r.states@.len() && r.states@[j] == cur; assert(o.states@[j] == cur); }
  }
  proof fn skipped(&self, syms: Seq<Key<S>>, cur: Closure, n: int, next: Closure)
    requires self.upto(syms, cur, n), 0 <= n < syms.len(), self.cb.goes(cur@, syms[n], next@), next@ == Set::<usize>::empty(),
    ensures self.upto(syms, cur, n + 1),
  { row_skip(self.cb, self.ids@, cur, self.outs(cur), syms, n, next); }
  proof fn stepped(o: &Self, r: &Self, syms: Seq<Key<S>>, cur: Closure, n: int, next: Closure, m: nat)
    requires
      o.upto(syms, cur, n), 0 <= n < syms.len(), o.added(o.ids@[cur], syms[n], next, r), o.based(m), syms.no_duplicates(),
      o.cb.goes(cur@, syms[n], next@), next@ != Set::<usize>::empty(),
    ensures r.upto(syms, cur, n + 1), extends(o.ids@, r.ids@),
  {
    assert(extends(o.ids@, r.ids@));
    assert forall|a: Closure| #[trigger] o.ids@.contains_key(a) implies r.outs(a) == if a == cur { o.outs(a).push((syms[n], r.ids@[next])) } else { o.outs(a) } by {
      assert(o.fa.has(o.ids@[a]));
    }
    assert forall|i: int| 0 <= i < r.states@.len() implies r.ids@.contains_key(#[trigger] r.states@[i]) && r.outs(r.states@[i]).len() == 0 by {
      if i < o.states@.len() { assert(r.states@[i] == o.states@[i]); assert(o.ids@.contains_key(o.states@[i])); assert(o.states@.contains(o.states@[i])); }
      else { assert(r.states@[i] == next); }
    }
    assert(r.states@.no_duplicates()) by {
      if !o.ids@.contains_key(next) { assert forall|i: int| 0 <= i < o.states@.len() implies #[trigger] o.states@[i] != next by { assert(o.ids@.contains_key(o.states@[i])); } }
    }
    if r.states@.contains(cur) { let j = choose|j: int| 0 <= j < r.states@.len() && r.states@[j] == cur; if j < o.states@.len() { assert(o.states@[j] == cur); } else { assert(cur == next); } }
    assert forall|a: Closure| #[trigger] r.ids@.contains_key(a) && !r.states@.contains(a) && Some(cur) != Some(a) implies row(r.cb, r.ids@, a, r.outs(a), syms, syms.len() as int) by {
      if o.ids@.contains_key(a) {
        if o.states@.contains(a) { let j = choose|j: int| 0 <= j < o.states@.len() && o.states@[j] == a; assert(r.states@[j] == a); }
        row_more(o.cb, o.ids@, r.ids@, a, o.outs(a), syms, syms.len() as int);
      } else {
        assert(a == next);
        assert(r.states@[o.states@.len() as int] == a);
      }
    }
    row_more(o.cb, o.ids@, r.ids@, cur, o.outs(cur), syms, n);
    row_push(o.cb, r.ids@, cur, o.outs(cur), syms, n, next);
  }
  pub open spec fn constructed(&self, syms: Seq<Key<S>>, r: &Self, n: nat) -> bool {
    &&& r.based(n) && r.rows(syms, None) && r.states@.len() == 0
    &&& r.cb == self.cb && r.fa.init == self.fa.init && extends(self.ids@, r.ids@)
    &&& forall|tags: Map<usize, T>| #[trigger] self.tagged(tags) ==> r.tagged(tags)
  }
  proof fn closed_(&self, syms: Seq<Key<S>>, cur: Closure)
    requires self.upto(syms, cur, syms.len() as int),
    ensures self.rows(syms, None), self.listed_once(),
  {}
}
//@ item laps_regex/src/dfa.rs impl Constructor
//@ fn add_to_fa attr=loop_isolation(false)
    requires
      old(self).based(old(c_)@), old(self).fa.has(cur_id),
    ensures
      old(self).added(cur_id, s, next, final(self)),
      final(self).based(final(c_)@),
      forall|tags: Map<usize, T>| #[trigger] old(self).tagged(tags) ==> final(self).tagged(tags),
//@ entry
    let ghost o = *self;
//@ loop 0
    invariant i_ <= self.nfa_tags.len(), first(self.nfa_tags@, i_ as int, next@, r_), r_ is None || i_ <= self.nfa_tags.len(),
    decreases self.nfa_tags.len() - i_,
//@ after self.ids.insert(next, id);
      let ghost m = *self;
      proof {
        assert(m.fa.has(id) && !o.fa.has(id));
        assert forall|q: usize| #[trigger] m.fa.has(q) implies exists|a: Closure| #[trigger] m.ids@.contains_key(a) && m.ids@[a] == q by {
          if q == id { assert(m.ids@.contains_key(next)); } else {
            assert(o.fa.has(q));
            let a = choose|a: Closure| #[trigger] o.ids@.contains_key(a) && o.ids@[a] == q;
            assert(m.ids@.contains_key(a));
          }
        }
        assert(forall|q: usize| #[trigger] m.tags@.contains_key(q) == m.fa.finals@.contains(q));
        assert(m.based(c_@));
      }
//@ after let id = $s_e;
    let ghost m1 = *self;
    proof { assert(m1.based(c_@)); }
//@ after self.fa.state_mut(cur_id).unwrap().add(s, id);
    proof { assert(forall|q: usize| #[trigger] self.fa.has(q) == m1.fa.has(q)); }
//@ fn construct
    requires
      self.based(old(c_)@), self.listed_once(), self.rows(syms@, None), self.cb.cache_ok(cached), syms@.no_duplicates(),
    ensures
      self.constructed(syms@, &r, final(c_)@),
//@ fn construct_normal attr=loop_isolation(false)
    requires
      self.based(old(c_)@), self.listed_once(), self.rows(syms@, None), self.cb.cache_ok(cached), syms@.no_duplicates(),
    ensures
      self.constructed(syms@, &r, final(c_)@),
//@ loop 0
    invariant
      self_.based(c_@), self_.listed_once(), self_.rows(syms@, None), self_.cb.cache_ok(cached), self_.cb == self.cb, self_.fa.init == self.fa.init, extends(self.ids@, self_.ids@),
      forall|tags: Map<usize, T>| #[trigger] self.tagged(tags) ==> self_.tagged(tags),
      g == self_,
    decreases unmet(self_.ids@), self_.states@.len(),
//@ after let mut self_ = self;
    let ghost mut g = self_;
//@ loopbody 0
      proof { Self::opened(&g, &self_, syms@); assert(cur == g.states@.last()); }
      let ghost cur0 = cur;
//@ loop 1
    invariant
      self_.based(c_@), self_.upto(syms@, cur0, it1.index@), self_.cb.cache_ok(cached), self_.cb == self.cb, self_.fa.init == self.fa.init, extends(self.ids@, self_.ids@),
      forall|tags: Map<usize, T>| #[trigger] self.tagged(tags) ==> self_.tagged(tags),
      unfinished(g.ids@, (g.states@.len() - 1) as nat, self_.ids@, self_.states@.len()),
      cur_id == self_.ids@[cur0], derefs(it1.seq()) == syms@,
      it1.index@ == it1.seq().len() ==> self_.rows(syms@, None) && self_.listed_once(),
//@ loopend 0
      proof { g = self_; }
//@ loopbody 1
        let ghost o = self_;
        let ghost s0 = *s;
        proof { assert(derefs(it1.seq())[it1.index@] == s0); }
//@ loopend 1
        proof {
          let n = it1.index@;
          if next0@ != Set::<usize>::empty() { Self::stepped(&o, &self_, syms@, cur0, n, next0, m0); if !o.ids@.contains_key(next0) { unmet_less(o.ids@, self_.ids@, next0, self_.ids@[next0]); } }
          if n + 1 == syms@.len() { self_.closed_(syms@, cur0); }
        }
//@ after let next = $s_e;
        let ghost next0 = next;
        let ghost m0 = c_@;
        proof { if next0@ == Set::<usize>::empty() { o.skipped(syms@, cur0, it1.index@, next0); if it1.index@ + 1 == syms@.len() { self_.closed_(syms@, cur0); } } }
//@ fn construct_par attr=loop_isolation(false)
    requires
      self.based(old(c_)@), self.listed_once(), self.rows(syms@, None), self.cb.cache_ok(cached), syms@.no_duplicates(),
    ensures
      self.constructed(syms@, &r, final(c_)@),
//@ after let mut self_ = self;
    let ghost mut g = self_;
//@ loop 0
    invariant
      self_.based(c_@), self_.listed_once(), self_.rows(syms@, None), self_.cb == self.cb, self_.fa.init == self.fa.init, extends(self.ids@, self_.ids@),
      forall|tags: Map<usize, T>| #[trigger] self.tagged(tags) ==> self_.tagged(tags),
      cached_epsilons@.len() == syms@.len(), forall|i: int| 0 <= i < syms@.len() ==> self.cb.cache_ok(#[trigger] cached_epsilons@[i]),
      g == self_,
    decreases unmet(self_.ids@), self_.states@.len(),
//@ loopbody 0
      proof { Self::opened(&g, &self_, syms@); assert(cur == g.states@.last()); }
      let ghost cur0 = cur;
      let ghost s1 = self_;
//@ loop 1
    invariant
      self_ == s1, i_ <= syms@.len(), nexts@.len() == i_,
      cached_epsilons@.len() == syms@.len(), forall|i: int| 0 <= i < syms@.len() ==> self.cb.cache_ok(#[trigger] cached_epsilons@[i]),
      forall|i: int| 0 <= i < i_ ==> self.cb.goes(cur0@, syms@[i], (#[trigger] nexts@[i])@),
    decreases syms@.len() - i_,
//@ loop 2
    invariant
      self_.based(c_@), self_.upto(syms@, cur0, it2.index@), self_.cb == self.cb, self_.fa.init == self.fa.init, extends(self.ids@, self_.ids@),
      forall|tags: Map<usize, T>| #[trigger] self.tagged(tags) ==> self_.tagged(tags),
      unfinished(g.ids@, (g.states@.len() - 1) as nat, self_.ids@, self_.states@.len()),
      cur_id == self_.ids@[cur0], it2.seq().len() == syms@.len(),
      forall|i: int| 0 <= i < syms@.len() ==> *(#[trigger] it2.seq()[i]).0 == syms@[i] && self.cb.goes(cur0@, syms@[i], it2.seq()[i].1@),
      it2.index@ == it2.seq().len() ==> self_.rows(syms@, None) && self_.listed_once(),
//@ loopbody 2
        let ghost o = self_;
        let ghost next0 = next;
        let ghost m0 = c_@;
        proof { assert(it2.seq()[it2.index@] == (s, next)); if next0@ == Set::<usize>::empty() { o.skipped(syms@, cur0, it2.index@, next0); if it2.index@ + 1 == syms@.len() { self_.closed_(syms@, cur0); } } }
//@ loopend 2
        proof {
          let n = it2.index@;
          if next0@ != Set::<usize>::empty() { Self::stepped(&o, &self_, syms@, cur0, n, next0, m0); if !o.ids@.contains_key(next0) { unmet_less(o.ids@, self_.ids@, next0, self_.ids@[next0]); } }
          if n + 1 == syms@.len() { self_.closed_(syms@, cur0); }
        }
//@ loopend 0
      proof { g = self_; }
//@ fn into_dfa
    ensures r.fa == self.fa, r.tags == self.tags,
//@ end
/// A deterministic automaton whose states are the closures met from the initial state.
pub open spec fn subset_by<S, T>(d: DFA<S, T>, cb: ClosureBuilder<Key<S>>, init: usize, tags: Map<usize, T>, syms: Seq<Key<S>>, ids: Map<Closure, usize>) -> bool {
  &&& forall|a: Closure| #[trigger] ids.contains_key(a) ==> d.is_state(ids[a]) && best(tags, a@, at(d.tags@, ids[a])) && row(cb, ids, a, d.outs(ids[a]), syms, syms.len() as int)
  &&& forall|a: Closure, b: Closure| #[trigger] ids.contains_key(a) && #[trigger] ids.contains_key(b) && a != b ==> ids[a] != ids[b]
  &&& forall|q: usize| #[trigger] d.is_state(q) ==> exists|a: Closure| #[trigger] ids.contains_key(a) && ids[a] == q
  &&& exists|a: Closure| #[trigger] ids.contains_key(a) && ids[a] == d.fa.init && cb.is_closure(set![init], a@)
}
pub open spec fn keys_of<S>(cb: ClosureBuilder<Key<S>>, syms: Seq<Key<S>>) -> bool { syms.no_duplicates() && forall|k: Key<S>| #[trigger] syms.contains(k) == cb.has_key(k) }
impl<S, T> DFA<S, T> {
  pub open spec fn subset(&self, nfa: NFA<S, T>, syms: Seq<Key<S>>) -> bool where S: Eq + Hash {
    exists|cb: ClosureBuilder<Key<S>>, ids: Map<Closure, usize>| #[trigger] subset_by(*self, cb, nfa.fa.init, nfa.tags@, syms, ids) && cb.of(nfa.fa) && keys_of(cb, syms)
  }
}
//@ item laps_regex/src/dfa.rs impl DFA#0
//@ drop new minimize rebuild into_fa_tags dump
//@ fn new_from_nfa attr=loop_isolation(false)
    ensures
      r.0.sound(), r.0.subset(nfa, r.1@), r.1@.no_duplicates(),
//@ entry
    let ghost nfa0 = nfa;
//@ loop 0
    invariant
      lists(it0.seq(), nfa0.tags@), v_@.len() == it0.index@,
      forall|i: int| 0 <= i < it0.index@ ==> #[trigger] v_@[i] == (it0.seq()[i].1, it0.seq()[i].0),
      it0.index@ == it0.seq().len() ==> unsorted(v_@, nfa0.tags@),
//@ loopbody 0
      proof { assert(it0.seq()[it0.index@] == (id, tag)); }
//@ loopend 0
      proof { pairs(it0.seq(), v_@, nfa0.tags@); }
//@ after sort_tags_(&mut nfa_tags);
    proof { listed_sorted(v0, nfa_tags@, nfa0.tags@); }
    let ghost nfa_tags0 = nfa_tags@;
//@ after let mut nfa_tags: Vec<_> = $s_e;
    let ghost v0 = nfa_tags@;
    proof { assert(unsorted(v0, nfa0.tags@)); }
//@ loop 1
    invariant i_ <= nfa_tags.len(), first(nfa_tags@, i_ as int, init@, r_), r_ is None || i_ <= nfa_tags.len(),
    decreases nfa_tags.len() - i_,
//@ after let init = cb.epsilon_closure($s_e);
    let ghost cb0 = cb;
    let ghost a0 = init;
//@ after let constructor = $s_e;
    let ghost k0 = constructor;
    proof {
      first_best(nfa_tags0, nfa_tags0.len() as int, nfa0.tags@, a0@, at(k0.tags@, k0.fa.init));
      assert(k0.ids@.contains_key(a0));
      assert(k0.based(c_@));
      assert(k0.states@[0] == a0);
      assert(k0.tagged(nfa0.tags@));
    }
//@ after let t_ = $s_e;
    let ghost t0 = t_;
    proof { assert(cb0.of(nfa0.fa)); assert(t0.tagged(nfa0.tags@)); }
//@ after let d_ = $s_e;
    proof {
      assert(t0.ids@.contains_key(a0));
      assert forall|a: Closure| #[trigger] t0.ids@.contains_key(a) implies d_.is_state(t0.ids@[a]) && best(nfa0.tags@, a@, at(d_.tags@, t0.ids@[a])) && row(cb0, t0.ids@, a, d_.outs(t0.ids@[a]), syms@, syms@.len() as int) by {
        assert(t0.fa.has(t0.ids@[a]));
      }
      assert(forall|q: usize| #[trigger] d_.is_state(q) ==> t0.fa.has(q));
      assert(keys_of(cb0, syms@));
      assert(subset_by(d_, cb0, nfa0.fa.init, nfa0.tags@, syms@, t0.ids@));
    }
//@ end
