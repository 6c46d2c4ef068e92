// ------------------------------------------------------------ the nondeterministic automaton of an expression
//@ rewrite iterator adapters to a loop :: c.into_iter().map(Self::new).reduce(Self::concat).unwrap() ==> { let mut r_: Option<Self> = None; for e_ in c { let n_ = Self::new(c_, e_); let x_ = match r_ { None => n_, Some(a_) => Self::concat(c_, a_, n_) }; r_ = Some(x_); } let l_ = r_.unwrap(); l_ }
//@ rewrite iterator adapters to a loop :: a.into_iter().map(|(mir, tag)| (Self::new(mir), tag)).reduce(Self::alter).unwrap().0 ==> { let mut r_: Option<(Self, Option<T>)> = None; for (mir, tag) in a { let n_ = Self::new(c_, mir); let y_ = match r_ { None => (n_, tag), Some(a_) => Self::alter(c_, a_, (n_, tag)) }; r_ = Some(y_); } let p_ = r_.unwrap(); p_.0 }
//@ rewrite the global counter as a parameter :: fn new(mir: ==> fn new(c_: &mut Ids, mir:
//@ rewrite the global counter as a parameter :: fn new_nfa_with_symbol(sym: ==> fn new_nfa_with_symbol(c_: &mut Ids, sym:
//@ rewrite the global counter as a parameter :: fn concat(mut nfa1: Self, nfa2: Self) -> Self { $s_b } ==> fn concat(c_: &mut Ids, nfa1_: Self, nfa2: Self) -> Self { let mut nfa1 = nfa1_; $s_b }
//@ rewrite the global counter as a parameter :: fn normalize(&mut self) ==> fn normalize(&mut self, c_: &mut Ids)
//@ rewrite the global counter as a parameter :: .normalize() ==> .normalize(c_)
//@ rewrite the global counter as a parameter :: Self::new(mir) ==> Self::new(c_, mir)
//@ rewrite the global counter as a parameter, contents of a box :: Self::new(*k) ==> Self::new(c_, unbox_(k))
//@ rewrite value in a block, to state a fact about it :: Mir::Empty => Self::new_nfa_with_symbol(None) ==> Mir::Empty => { let e_ = Self::new_nfa_with_symbol(c_, None); e_ }
//@ rewrite value in a block, to state a fact about it :: Mir::Ranges(rs) => Self::new_nfa_with_symbol(Some(rs)) ==> Mir::Ranges(rs) => { let g_ = Self::new_nfa_with_symbol(c_, Some(rs)); g_ }
//@ rewrite the global counter as a parameter :: Self::new_nfa_with_symbol(None) ==> Self::new_nfa_with_symbol(c_, None)
//@ rewrite the global counter as a parameter :: Self::new_nfa_with_symbol(Some(rs)) ==> Self::new_nfa_with_symbol(c_, Some(rs))
//@ rewrite the pairs as parameters :: fn alter( (mut nfa1, tag1): (Self, Option<T>), (mut nfa2, tag2): (Self, Option<T>), ) -> (Self, Option<T>) { $s_b } ==> fn alter(c_: &mut Ids, pair1_: (Self, Option<T>), pair2_: (Self, Option<T>)) -> (Self, Option<T>) { let (nfa1_, tag1) = pair1_; let mut nfa1 = nfa1_; let (nfa2_, tag2) = pair2_; let mut nfa2 = nfa2_; $s_b }
//@ rewrite iterator adapters to a loop :: self.fa.finals().iter().copied().find(|id| !self.tags.contains_key(id)) ==> { let l_ = self.fa.finals().items_(); let mut r_: Option<usize> = None; let mut i_ = 0; while i_ < l_.len() && r_.is_none() { let id = *l_[i_]; if !self.tags.contains_key(&id) { r_ = Some(id); } i_ = i_ + 1; } r_ }
//@ rewrite value in a block, to state a fact about it :: Self { fa, tags: HashMap::new()$o_c } ==> { let t_ = Self { tags: HashMap::new(), fa }; t_ }
//@ rewrite members of a set in some order :: for id in self.fa.finals().clone() { $s_b } ==> for id in self.fa.finals().copied_() { $s_b }
//@ rewrite extend of a map by another :: nfa1.tags.extend(nfa2.tags) ==> nfa1.tags.extend_(nfa2.tags)
//@ rewrite extend of a map by another :: kleene.tags.extend(nfa.tags) ==> kleene.tags.extend_(nfa.tags)
//@ rewrite pattern with mut to a let :: Mir::Alter(mut a) => { $s_b } ==> Mir::Alter(a_) => { let mut a = a_; $s_b }
#[verifier::external_body]
fn unbox_<T>(b: Box<T>) -> (r: T) ensures r == *b { unimplemented!() }
impl<K> HashSet<K> {
  /// The members of a clone, in some order.
  #[verifier::external_body]
  fn copied_(&self) -> (r: Vec<K>) ensures self@.finite(), members(r@, self@) { unimplemented!() }
}
//@ assume every map of finitely many entries is what some HashMap holds (a ghost value in `alter`)
#[verifier::external_body]
proof fn some_map<K, V>(m: Map<K, V>) -> (r: HashMap<K, V>) ensures r@ == m { unimplemented!() }
pub proof fn reads_ind<K: Eq + Hash>(f: MultiFA<Option<K>>, p: usize, u: Seq<K>, q: usize, inv: spec_fn(Seq<K>, usize) -> bool)
  requires reads(f, p, u, q), inv(Seq::empty(), p), forall|u: Seq<K>, m: usize, k: Option<K>, x: usize| #[trigger] inv(u, m) && #[trigger] link(f, m, k, x) ==> inv(more(u, k), x),
  ensures inv(u, q),
{
  reveal(reads);
  let w = choose|w: Trace<K>| #[trigger] walk(f, p, w) && word(w) == u && dst(p, w) == q;
  walk_ind(f, p, w, inv);
}
pub proof fn walk_ind<K: Eq + Hash>(f: MultiFA<Option<K>>, p: usize, w: Trace<K>, inv: spec_fn(Seq<K>, usize) -> bool)
  requires walk(f, p, w), inv(Seq::empty(), p), forall|u: Seq<K>, m: usize, k: Option<K>, x: usize| #[trigger] inv(u, m) && #[trigger] link(f, m, k, x) ==> inv(more(u, k), x),
  ensures inv(word(w), dst(p, w)),
  decreases w.len(),
{
  if w.len() > 0 {
    walk_pop(f, p, w);
    walk_ind(f, p, w.drop_last(), inv);
    assert(inv(word(w.drop_last()), dst(p, w.drop_last())));
    assert(link(f, dst(p, w.drop_last()), w.last().0, w.last().1));
  }
}
pub proof fn reads_sub<K: Eq + Hash>(f1: MultiFA<Option<K>>, f: MultiFA<Option<K>>, p: usize, u: Seq<K>, q: usize)
  requires reads(f1, p, u, q), forall|a: usize, k: Option<K>, b: usize| #[trigger] link(f1, a, k, b) ==> link(f, a, k, b),
  ensures reads(f, p, u, q),
{
  let inv = |w: Seq<K>, x: usize| reads(f, p, w, x);
  reads_nil(f, p);
  assert forall|w: Seq<K>, m: usize, k: Option<K>, x: usize| #[trigger] inv(w, m) && #[trigger] link(f1, m, k, x) implies inv(more(w, k), x) by { reads_link(f, p, w, m, k, x); }
  reads_ind(f1, p, u, q, inv);
}
pub open spec fn closed<K: Eq + Hash>(f: MultiFA<Option<K>>) -> bool { forall|p: usize, k: Option<K>, q: usize| #[trigger] link(f, p, k, q) ==> f.has(q) }
/// Nothing leads to the initial state, which is not final.
pub open spec fn rooted<K: Eq + Hash>(f: MultiFA<Option<K>>) -> bool {
  &&& !f.finals@.contains(f.init)
  &&& forall|p: usize, k: Option<K>, q: usize| #[trigger] link(f, p, k, q) ==> q != f.init
}
/// From q nothing is read, and no other tag is found.
#[verifier::opaque]
pub open spec fn quiet<K: Eq + Hash, T>(f: MultiFA<Option<K>>, tags: Map<usize, T>, q: usize) -> bool {
  forall|u: Seq<K>, x: usize| #[trigger] reads(f, q, u, x) ==> u.len() == 0 && (x == q || !tags.contains_key(x))
}
pub proof fn rooted_reads<K: Eq + Hash>(f: MultiFA<Option<K>>, s: usize, u: Seq<K>)
  requires rooted(f), reads(f, s, u, f.init),
  ensures u.len() == 0, s == f.init,
{
  let inv = |w: Seq<K>, x: usize| x == f.init ==> w.len() == 0 && s == f.init;
  assert forall|w: Seq<K>, m: usize, k: Option<K>, x: usize| #[trigger] inv(w, m) && #[trigger] link(f, m, k, x) implies inv(more(w, k), x) by {}
  reads_ind(f, s, u, f.init, inv);
}
/// All links of a state that does not link.
pub proof fn silent<K: Eq + Hash, T>(f: MultiFA<Option<K>>, tags: Map<usize, T>, q: usize)
  requires forall|k: Option<K>, x: usize| !#[trigger] link(f, q, k, x),
  ensures quiet(f, tags, q), forall|u: Seq<K>, x: usize| #[trigger] reads(f, q, u, x) ==> u.len() == 0 && x == q,
{
  reveal(quiet);
  let inv = |w: Seq<K>, x: usize| w.len() == 0 && x == q;
  assert forall|w: Seq<K>, m: usize, k: Option<K>, x: usize| #[trigger] inv(w, m) && #[trigger] link(f, m, k, x) implies inv(more(w, k), x) by {}
  assert forall|u: Seq<K>, x: usize| #[trigger] reads(f, q, u, x) implies u.len() == 0 && x == q by { reads_ind(f, q, u, x, inv); }
}
pub proof fn reads_in<K: Eq + Hash>(f: MultiFA<Option<K>>, p: usize, u: Seq<K>, q: usize)
  requires reads(f, p, u, q), closed(f), f.has(p),
  ensures f.has(q),
{
  let inv = |w: Seq<K>, x: usize| f.has(x);
  reads_ind(f, p, u, q, inv);
}
// ---- an edge from every final state to one state
pub open spec fn routed<K: Eq + Hash>(f0: MultiFA<Option<K>>, target: usize, f: MultiFA<Option<K>>) -> bool {
  &&& f.init == f0.init
  &&& forall|a: usize, k: Option<K>, b: usize| #[trigger] link(f, a, k, b) == (link(f0, a, k, b) || k is None && b == target && a != target && f0.finals@.contains(a))
  &&& forall|a: usize| #[trigger] f.has(a) == (f0.has(a) || a == target)
}
/// A final state without tag, or a new one.
pub open spec fn goal<K: Eq + Hash, T>(f0: MultiFA<Option<K>>, tags: Map<usize, T>, target: usize) -> bool {
  !tags.contains_key(target) && (f0.finals@.contains(target) || !f0.has(target))
}
impl<S: Eq + Hash, T> NFA<S, T> {
  /// The words it accepts.
  pub open spec fn ends(&self, u: Keys<S>) -> bool { exists|q: usize| self.fa.finals@.contains(q) && #[trigger] reads(self.fa, self.fa.init, u, q) }
  /// The words it gives a tag.
  pub open spec fn says(&self, u: Keys<S>, t: T) -> bool { exists|q: usize| #[trigger] reads(self.fa, self.fa.init, u, q) && self.tags@.contains_key(q) && self.tags@[q] == t }
  pub open spec fn whole(&self, n: nat) -> bool {
    &&& self.fa.ok(n)
    &&& closed(self.fa)
    &&& rooted(self.fa)
    &&& forall|q: usize| #[trigger] self.tags@.contains_key(q) ==> self.fa.finals@.contains(q)
    &&& forall|q: usize| #[trigger] self.fa.finals@.contains(q) ==> quiet(self.fa, self.tags@, q)
  }
  pub open spec fn tagless(&self) -> bool { self.tags@ == Map::<usize, T>::empty() }
  /// The keys of r are keys of a or b.
  pub open spec fn keyed(&self, a: Self, b: Self) -> bool { forall|p: usize, k: Key<S>, q: usize| #[trigger] link(self.fa, p, Some(k), q) ==> has_sym(a, k) || has_sym(b, k) }
  pub open spec fn apart(&self, b: Self) -> bool { forall|q: usize| !(#[trigger] self.fa.has(q) && b.fa.has(q)) }
}
pub open spec fn has_sym<S: Eq + Hash, T>(nfa: NFA<S, T>, k: Key<S>) -> bool { exists|p: usize, q: usize| #[trigger] link(nfa.fa, p, Some(k), q) }
pub proof fn routed_reads<S: Eq + Hash, T>(a: NFA<S, T>, n: nat, target: usize, b: NFA<S, T>)
  requires a.whole(n), goal(a.fa, a.tags@, target), routed(a.fa, target, b.fa), a.tags@ == b.tags@, forall|q: usize| #[trigger] b.fa.finals@.contains(q) ==> a.fa.finals@.contains(q) && q != target,
  ensures
    forall|u: Keys<S>| #[trigger] reads(b.fa, b.fa.init, u, target) == a.ends(u),
    forall|u: Keys<S>, q: usize| a.tags@.contains_key(q) ==> #[trigger] reads(b.fa, b.fa.init, u, q) == reads(a.fa, a.fa.init, u, q),
    forall|q: usize| q == target || a.fa.finals@.contains(q) ==> #[trigger] quiet(b.fa, b.tags@, q),
    closed(b.fa), rooted(b.fa),
{
  let f0 = a.fa; let f = b.fa; let s = f.init;
  assert(quiet(f0, a.tags@, target)) by { if !f0.has(target) { silent(f0, a.tags@, target); } }
  assert(forall|u: Keys<S>, x: usize| #[trigger] reads(f0, target, u, x) ==> u.len() == 0 && (x == target || !a.tags@.contains_key(x))) by { reveal(quiet); }
  assert forall|u: Keys<S>, x: usize| #[trigger] reads(f, s, u, x) implies reads(f0, s, u, x) || a.ends(u) && reads(f0, target, Seq::empty(), x) by {
    let inv = |w: Keys<S>, x: usize| reads(f0, s, w, x) || a.ends(w) && reads(f0, target, Seq::empty(), x);
    reads_nil(f0, s); reads_nil(f0, target);
    assert forall|w: Keys<S>, m: usize, k: Option<Key<S>>, x: usize| #[trigger] inv(w, m) && #[trigger] link(f, m, k, x) implies inv(more(w, k), x) by {
      if link(f0, m, k, x) {
        if reads(f0, s, w, m) { reads_link(f0, s, w, m, k, x); } else {
          reads_link(f0, target, Seq::empty(), m, k, x);
          assert(more(Seq::<Key<S>>::empty(), k).len() == 0);
          assert(k is None);
        }
      }
    }
    reads_ind(f, s, u, x, inv);
  }
  assert forall|p: usize, u: Keys<S>, x: usize| #[trigger] reads(f0, p, u, x) implies reads(f, p, u, x) by { reads_sub(f0, f, p, u, x); }
  assert forall|u: Keys<S>| #[trigger] reads(f, s, u, target) == a.ends(u) by {
    if reads(f, s, u, target) && !a.ends(u) { assert(reads(f0, s, u, target)); reads_in(f0, s, u, target); assert(f0.finals@.contains(target)); }
    if a.ends(u) {
      let q = choose|q: usize| f0.finals@.contains(q) && #[trigger] reads(f0, s, u, q);
      if q != target { assert(link(f, q, None, target)); reads_link(f, s, u, q, None, target); }
    }
  }
  assert forall|q: usize| q == target || a.fa.finals@.contains(q) implies #[trigger] quiet(f, b.tags@, q) by {
    reveal(quiet);
    let inv = |w: Keys<S>, x: usize| w.len() == 0 && (reads(f0, q, Seq::empty(), x) || reads(f0, target, Seq::empty(), x));
    reads_nil(f0, q); reads_nil(f0, target);
    assert forall|w: Keys<S>, m: usize, k: Option<Key<S>>, x: usize| #[trigger] inv(w, m) && #[trigger] link(f, m, k, x) implies inv(more(w, k), x) by {
      if link(f0, m, k, x) {
        if reads(f0, q, Seq::empty(), m) {
          reads_link(f0, q, Seq::empty(), m, k, x);
        } else {
          reads_link(f0, target, Seq::empty(), m, k, x);
        }
        assert(more(Seq::<Key<S>>::empty(), k).len() == 0);
        assert(k is None);
      }
    }
    assert forall|u: Keys<S>, x: usize| #[trigger] reads(f, q, u, x) implies u.len() == 0 && (x == q || !b.tags@.contains_key(x)) by { reads_ind(f, q, u, x, inv); }
  }
}
// ---- two automata and an edge from one to the other
pub open spec fn bridged<K: Eq + Hash>(f1: MultiFA<Option<K>>, p: usize, f2: MultiFA<Option<K>>, f: MultiFA<Option<K>>) -> bool {
  &&& f.init == f1.init
  &&& forall|a: usize, k: Option<K>, b: usize| #[trigger] link(f, a, k, b) == (link(f1, a, k, b) || link(f2, a, k, b) || k is None && a == p && b == f2.init)
  &&& forall|a: usize| #[trigger] f.has(a) == (f1.has(a) || f2.has(a))
  &&& forall|a: usize| !(#[trigger] f1.has(a) && f2.has(a))
  &&& closed(f1) && closed(f2) && f1.has(p) && f2.has(f2.init)
}
pub open spec fn split<K: Eq + Hash>(f1: MultiFA<Option<K>>, s: usize, p: usize, f2: MultiFA<Option<K>>, u: Seq<K>, x: usize) -> bool {
  exists|i: int| 0 <= i <= u.len() && reads(f1, s, #[trigger] u.take(i), p) && reads(f2, f2.init, u.skip(i), x)
}
pub proof fn split_more<K: Eq + Hash>(f1: MultiFA<Option<K>>, s: usize, p: usize, f2: MultiFA<Option<K>>, u: Seq<K>, m: usize, k: Option<K>, x: usize)
  requires split(f1, s, p, f2, u, m), link(f2, m, k, x),
  ensures split(f1, s, p, f2, more(u, k), x),
{
  let i = choose|i: int| 0 <= i <= u.len() && reads(f1, s, #[trigger] u.take(i), p) && reads(f2, f2.init, u.skip(i), m);
  reads_link(f2, f2.init, u.skip(i), m, k, x);
  assert(more(u, k).take(i) =~= u.take(i));
  assert(more(u, k).skip(i) =~= more(u.skip(i), k));
}
pub proof fn split_start<K: Eq + Hash>(f1: MultiFA<Option<K>>, s: usize, p: usize, f2: MultiFA<Option<K>>, u: Seq<K>)
  requires reads(f1, s, u, p),
  ensures split(f1, s, p, f2, u, f2.init),
{
  assert(u.take(u.len() as int) =~= u);
  assert(u.skip(u.len() as int) =~= Seq::<K>::empty());
  reads_nil(f2, f2.init);
}
pub proof fn bridge_reads<K: Eq + Hash>(f1: MultiFA<Option<K>>, p: usize, f2: MultiFA<Option<K>>, f: MultiFA<Option<K>>, s: usize, u: Seq<K>, x: usize)
  requires bridged(f1, p, f2, f), f1.has(s),
  ensures reads(f, s, u, x) == (f1.has(x) && reads(f1, s, u, x) || f2.has(x) && split(f1, s, p, f2, u, x)),
{
  if reads(f, s, u, x) {
    let inv = |w: Seq<K>, x: usize| f1.has(x) && reads(f1, s, w, x) || f2.has(x) && split(f1, s, p, f2, w, x);
    reads_nil(f1, s);
    assert forall|w: Seq<K>, m: usize, k: Option<K>, x: usize| #[trigger] inv(w, m) && #[trigger] link(f, m, k, x) implies inv(more(w, k), x) by {
      if link(f1, m, k, x) { assert(f1.has(m) && f1.has(x)); reads_link(f1, s, w, m, k, x); }
      else if link(f2, m, k, x) { assert(f2.has(m) && f2.has(x)); split_more(f1, s, p, f2, w, m, k, x); }
      else { split_start(f1, s, p, f2, w); }
    }
    reads_ind(f, s, u, x, inv);
  }
  if f1.has(x) && reads(f1, s, u, x) { reads_sub(f1, f, s, u, x); }
  if f2.has(x) && split(f1, s, p, f2, u, x) {
    let i = choose|i: int| 0 <= i <= u.len() && reads(f1, s, #[trigger] u.take(i), p) && reads(f2, f2.init, u.skip(i), x);
    reads_sub(f1, f, s, u.take(i), p);
    reads_sub(f2, f, f2.init, u.skip(i), x);
    assert(link(f, p, None, f2.init));
    reads_link(f, s, u.take(i), p, None, f2.init);
    reads_cat(f, s, u.take(i), f2.init, u.skip(i), x);
    assert(u.take(i) + u.skip(i) =~= u);
  }
}
pub proof fn bridge_far<K: Eq + Hash>(f1: MultiFA<Option<K>>, p: usize, f2: MultiFA<Option<K>>, f: MultiFA<Option<K>>, s: usize, u: Seq<K>, x: usize)
  requires bridged(f1, p, f2, f), f2.has(s),
  ensures reads(f, s, u, x) == reads(f2, s, u, x),
{
  if reads(f, s, u, x) {
    let inv = |w: Seq<K>, x: usize| f2.has(x) && reads(f2, s, w, x);
    reads_nil(f2, s);
    assert forall|w: Seq<K>, m: usize, k: Option<K>, x: usize| #[trigger] inv(w, m) && #[trigger] link(f, m, k, x) implies inv(more(w, k), x) by {
      assert(!f1.has(m));
      assert(!link(f1, m, k, x));
      reads_link(f2, s, w, m, k, x);
    }
    reads_ind(f, s, u, x, inv);
  }
  if reads(f2, s, u, x) { reads_sub(f2, f, s, u, x); }
}
pub proof fn bridge_quiet<K: Eq + Hash, T>(f1: MultiFA<Option<K>>, p: usize, f2: MultiFA<Option<K>>, f: MultiFA<Option<K>>, t2: Map<usize, T>, t: Map<usize, T>, q: usize)
  requires bridged(f1, p, f2, f), f2.has(q), quiet(f2, t2, q), forall|x: usize| #[trigger] f2.has(x) && t.contains_key(x) ==> t2.contains_key(x),
  ensures quiet(f, t, q),
{
  reveal(quiet);
  assert forall|u: Seq<K>, x: usize| #[trigger] reads(f, q, u, x) implies u.len() == 0 && (x == q || !t.contains_key(x)) by { bridge_far(f1, p, f2, f, q, u, x); reads_in(f2, q, u, x); }
}
pub proof fn bridged_rooted<K: Eq + Hash>(f1: MultiFA<Option<K>>, p: usize, f2: MultiFA<Option<K>>, f: MultiFA<Option<K>>)
  requires bridged(f1, p, f2, f), rooted(f1), f1.has(f1.init),
  ensures closed(f), forall|p: usize, k: Option<K>, q: usize| #[trigger] link(f, p, k, q) ==> q != f.init,
{
  assert forall|p: usize, k: Option<K>, q: usize| #[trigger] link(f, p, k, q) implies q != f.init && f.has(q) by { if link(f2, p, k, q) { assert(f2.has(q)); assert(f1.has(f1.init)); } }
}
/// One after the other.
pub open spec fn then_ends<S: Eq + Hash, T>(a: NFA<S, T>, b: NFA<S, T>, u: Keys<S>) -> bool { exists|i: int| 0 <= i <= u.len() && a.ends(#[trigger] u.take(i)) && b.ends(u.skip(i)) }
pub open spec fn then_says<S: Eq + Hash, T>(a: NFA<S, T>, b: NFA<S, T>, u: Keys<S>, t: T) -> bool { exists|i: int| 0 <= i <= u.len() && a.ends(#[trigger] u.take(i)) && b.says(u.skip(i), t) }
pub proof fn concat_reads<S: Eq + Hash, T>(a: NFA<S, T>, n: NFA<S, T>, p: usize, b: NFA<S, T>, r: NFA<S, T>, c: nat)
  requires
    bridged(n.fa, p, b.fa, r.fa), rooted(n.fa), b.whole(c), r.fa.ok(c), r.fa.finals@ == b.fa.finals@, r.tags@ == b.tags@,
    forall|u: Keys<S>| #[trigger] reads(n.fa, n.fa.init, u, p) == a.ends(u), n.fa.has(n.fa.init),
  ensures r.whole(c), forall|u: Keys<S>| #[trigger] r.ends(u) == then_ends(a, b, u), forall|u: Keys<S>, t: T| #[trigger] r.says(u, t) == then_says(a, b, u, t),
{
  bridged_rooted(n.fa, p, b.fa, r.fa);
  let s = n.fa.init;
  assert(!r.fa.finals@.contains(s));
  assert forall|u: Keys<S>, x: usize| b.fa.has(x) implies #[trigger] reads(r.fa, s, u, x) == split(n.fa, s, p, b.fa, u, x) by { bridge_reads(n.fa, p, b.fa, r.fa, s, u, x); }
  assert forall|u: Keys<S>| #[trigger] r.ends(u) == then_ends(a, b, u) by {
    if r.ends(u) {
      let q = choose|q: usize| r.fa.finals@.contains(q) && #[trigger] reads(r.fa, s, u, q);
      assert(b.fa.has(q));
      let i = choose|i: int| 0 <= i <= u.len() && reads(n.fa, s, #[trigger] u.take(i), p) && reads(b.fa, b.fa.init, u.skip(i), q);
      assert(a.ends(u.take(i)) && b.ends(u.skip(i)));
    }
    if then_ends(a, b, u) {
      let i = choose|i: int| 0 <= i <= u.len() && a.ends(#[trigger] u.take(i)) && b.ends(u.skip(i));
      let q = choose|q: usize| b.fa.finals@.contains(q) && #[trigger] reads(b.fa, b.fa.init, u.skip(i), q);
      assert(reads(n.fa, s, u.take(i), p));
      assert(b.fa.has(q));
      assert(reads(r.fa, s, u, q));
    }
  }
  assert forall|u: Keys<S>, t: T| #[trigger] r.says(u, t) == then_says(a, b, u, t) by {
    if r.says(u, t) {
      let q = choose|q: usize| #[trigger] reads(r.fa, s, u, q) && r.tags@.contains_key(q) && r.tags@[q] == t;
      assert(b.fa.finals@.contains(q));
      assert(b.fa.has(q));
      let i = choose|i: int| 0 <= i <= u.len() && reads(n.fa, s, #[trigger] u.take(i), p) && reads(b.fa, b.fa.init, u.skip(i), q);
      assert(a.ends(u.take(i)) && b.says(u.skip(i), t));
    }
    if then_says(a, b, u, t) {
      let i = choose|i: int| 0 <= i <= u.len() && a.ends(#[trigger] u.take(i)) && b.says(u.skip(i), t);
      let q = choose|q: usize| #[trigger] reads(b.fa, b.fa.init, u.skip(i), q) && b.tags@.contains_key(q) && b.tags@[q] == t;
      assert(b.fa.finals@.contains(q));
      assert(reads(n.fa, s, u.take(i), p));
      assert(b.fa.has(q));
      assert(reads(r.fa, s, u, q));
    }
  }
  assert forall|q: usize| #[trigger] r.fa.finals@.contains(q) implies quiet(r.fa, r.tags@, q) by { bridge_quiet(n.fa, p, b.fa, r.fa, b.tags@, r.tags@, q); }
}
/// Either of the two.
pub proof fn alter_reads<S: Eq + Hash, T>(a: NFA<S, T>, b: NFA<S, T>, r: NFA<S, T>, c: nat)
  requires
    bridged(a.fa, a.fa.init, b.fa, r.fa), a.whole(c), b.whole(c), r.fa.ok(c), r.fa.finals@ == a.fa.finals@.union(b.fa.finals@), r.tags@ == a.tags@.union_prefer_right(b.tags@),
  ensures r.whole(c), forall|u: Keys<S>| #[trigger] r.ends(u) == (a.ends(u) || b.ends(u)), forall|u: Keys<S>, t: T| #[trigger] r.says(u, t) == (a.says(u, t) || b.says(u, t)),
{
  bridged_rooted(a.fa, a.fa.init, b.fa, r.fa);
  let s = a.fa.init;
  assert forall|u: Keys<S>, x: usize| b.fa.has(x) implies #[trigger] reads(r.fa, s, u, x) == reads(b.fa, b.fa.init, u, x) by {
    bridge_reads(a.fa, s, b.fa, r.fa, s, u, x);
    assert(!a.fa.has(x));
    if split(a.fa, s, s, b.fa, u, x) {
      let i = choose|i: int| 0 <= i <= u.len() && reads(a.fa, s, #[trigger] u.take(i), s) && reads(b.fa, b.fa.init, u.skip(i), x);
      rooted_reads(a.fa, s, u.take(i));
      assert(u.skip(0) =~= u);
    }
    if reads(b.fa, b.fa.init, u, x) {
      reads_nil(a.fa, s);
      assert(u.take(0) =~= Seq::<Key<S>>::empty());
      assert(u.skip(0) =~= u);
    }
  }
  assert forall|u: Keys<S>, x: usize| a.fa.has(x) implies #[trigger] reads(r.fa, s, u, x) == reads(a.fa, s, u, x) by { bridge_reads(a.fa, s, b.fa, r.fa, s, u, x); }
  assert forall|u: Keys<S>| #[trigger] r.ends(u) == (a.ends(u) || b.ends(u)) by {
    if r.ends(u) {
      let q = choose|q: usize| r.fa.finals@.contains(q) && #[trigger] reads(r.fa, s, u, q);
      if a.fa.finals@.contains(q) { assert(reads(a.fa, s, u, q)); } else { assert(reads(b.fa, b.fa.init, u, q)); }
    }
    if a.ends(u) { let q = choose|q: usize| a.fa.finals@.contains(q) && #[trigger] reads(a.fa, s, u, q); assert(reads(r.fa, s, u, q)); }
    if b.ends(u) { let q = choose|q: usize| b.fa.finals@.contains(q) && #[trigger] reads(b.fa, b.fa.init, u, q); assert(reads(r.fa, s, u, q)); }
  }
  assert forall|u: Keys<S>, t: T| #[trigger] r.says(u, t) == (a.says(u, t) || b.says(u, t)) by {
    if r.says(u, t) {
      let q = choose|q: usize| #[trigger] reads(r.fa, s, u, q) && r.tags@.contains_key(q) && r.tags@[q] == t;
      if b.tags@.contains_key(q) { assert(b.fa.finals@.contains(q)); assert(reads(b.fa, b.fa.init, u, q)); } else { assert(a.fa.finals@.contains(q)); assert(reads(a.fa, s, u, q)); }
    }
    if a.says(u, t) {
      let q = choose|q: usize| #[trigger] reads(a.fa, s, u, q) && a.tags@.contains_key(q) && a.tags@[q] == t;
      assert(a.fa.finals@.contains(q));
      assert(!b.tags@.contains_key(q)) by { if b.tags@.contains_key(q) { assert(b.fa.finals@.contains(q)); assert(a.fa.has(q)); } }
      assert(reads(r.fa, s, u, q));
    }
    if b.says(u, t) {
      let q = choose|q: usize| #[trigger] reads(b.fa, b.fa.init, u, q) && b.tags@.contains_key(q) && b.tags@[q] == t;
      assert(b.fa.finals@.contains(q));
      assert(reads(r.fa, s, u, q));
    }
  }
  assert(!r.fa.finals@.contains(s)) by { assert(a.fa.has(s)); }
  assert forall|q: usize| #[trigger] r.fa.finals@.contains(q) implies quiet(r.fa, r.tags@, q) by {
    if b.fa.finals@.contains(q) {
      assert forall|x: usize| #[trigger] b.fa.has(x) && r.tags@.contains_key(x) implies b.tags@.contains_key(x) by { if !b.tags@.contains_key(x) { assert(a.fa.finals@.contains(x)); assert(a.fa.has(x)); } }
      bridge_quiet(a.fa, s, b.fa, r.fa, b.tags@, r.tags@, q);
    } else { alter_quiet(a, b, r, c, q); }
  }
}
proof fn alter_quiet<S: Eq + Hash, T>(a: NFA<S, T>, b: NFA<S, T>, r: NFA<S, T>, c: nat, q: usize)
  requires
    bridged(a.fa, a.fa.init, b.fa, r.fa), a.whole(c), b.whole(c), a.fa.finals@.contains(q), r.tags@ == a.tags@.union_prefer_right(b.tags@),
  ensures quiet(r.fa, r.tags@, q),
{
  reveal(quiet);
  let s = a.fa.init;
  assert forall|u: Keys<S>, x: usize| #[trigger] reads(r.fa, q, u, x) implies u.len() == 0 && (x == q || !r.tags@.contains_key(x)) by {
    assert(quiet(a.fa, a.tags@, q));
    assert(a.fa.has(q));
    bridge_reads(a.fa, s, b.fa, r.fa, q, u, x);
    if split(a.fa, q, s, b.fa, u, x) {
      let i = choose|i: int| 0 <= i <= u.len() && reads(a.fa, q, #[trigger] u.take(i), s) && reads(b.fa, b.fa.init, u.skip(i), x);
      rooted_reads(a.fa, q, u.take(i));
    }
    assert(reads(a.fa, q, u, x));
    if b.tags@.contains_key(x) { assert(b.fa.finals@.contains(x)); assert(b.fa.has(x)); reads_in(a.fa, q, u, x); }
  }
}
// ---- repetition
pub open spec fn looped<K: Eq + Hash>(f1: MultiFA<Option<K>>, id: usize, s: usize, e: usize, f: MultiFA<Option<K>>) -> bool {
  &&& f.init == s
  &&& forall|a: usize, k: Option<K>, b: usize| #[trigger] link(f, a, k, b) == (link(f1, a, k, b) || k is None && (a == id || a == s) && (b == f1.init || b == e))
  &&& forall|a: usize| #[trigger] f.has(a) == (f1.has(a) || a == s || a == e)
  &&& closed(f1) && f1.has(id) && f1.has(f1.init) && !f1.has(s) && !f1.has(e) && s != e
}
pub open spec fn rounds<S: Eq + Hash, T>(f1: MultiFA<Option<Key<S>>>, m: Mir<S, T>, u: Keys<S>, x: usize) -> bool {
  exists|n: nat, i: int| 0 <= i <= u.len() && #[trigger] star(m, n, #[trigger] u.take(i)) && reads(f1, f1.init, u.skip(i), x)
}
pub open spec fn some_star<S, T>(m: Mir<S, T>, u: Keys<S>) -> bool { exists|n: nat| #[trigger] star(m, n, u) }
proof fn star_step<S: Eq + Hash, T>(m: Mir<S, T>, n: nat, u: Keys<S>, i: int)
  requires 0 <= i <= u.len(), star(m, n, u.take(i)), ends(m, u.skip(i)),
  ensures star(m, n + 1, u),
{}
proof fn rounds_start<S: Eq + Hash, T>(f1: MultiFA<Option<Key<S>>>, m: Mir<S, T>, n: nat, u: Keys<S>)
  requires star(m, n, u),
  ensures rounds(f1, m, u, f1.init),
{
  assert(u.take(u.len() as int) =~= u);
  assert(u.skip(u.len() as int) =~= Seq::<Key<S>>::empty());
  reads_nil(f1, f1.init);
}
proof fn rounds_end<S: Eq + Hash, T>(f1: MultiFA<Option<Key<S>>>, m: Mir<S, T>, id: usize, u: Keys<S>)
  requires rounds(f1, m, u, id), forall|u: Keys<S>| #[trigger] reads(f1, f1.init, u, id) == ends(m, u),
  ensures some_star(m, u),
{
  let (n, i) = choose|n: nat, i: int| 0 <= i <= u.len() && #[trigger] star(m, n, #[trigger] u.take(i)) && reads(f1, f1.init, u.skip(i), id);
  star_step(m, n, u, i);
}
proof fn rounds_more<S: Eq + Hash, T>(f1: MultiFA<Option<Key<S>>>, m: Mir<S, T>, u: Keys<S>, x: usize, k: Option<Key<S>>, y: usize)
  requires rounds(f1, m, u, x), link(f1, x, k, y),
  ensures rounds(f1, m, more(u, k), y),
{
  let (n, i) = choose|n: nat, i: int| 0 <= i <= u.len() && #[trigger] star(m, n, #[trigger] u.take(i)) && reads(f1, f1.init, u.skip(i), x);
  reads_link(f1, f1.init, u.skip(i), x, k, y);
  assert(more(u, k).take(i) =~= u.take(i));
  assert(more(u, k).skip(i) =~= more(u.skip(i), k));
}
proof fn star_reads<S: Eq + Hash, T>(f1: MultiFA<Option<Key<S>>>, m: Mir<S, T>, id: usize, s: usize, e: usize, f: MultiFA<Option<Key<S>>>, n: nat, u: Keys<S>)
  requires looped(f1, id, s, e, f), forall|u: Keys<S>| #[trigger] reads(f1, f1.init, u, id) == ends(m, u), star(m, n, u),
  ensures reads(f, s, u, f1.init), reads(f, s, u, e),
  decreases n,
{
  if n == 0 {
    reads_nil(f, s);
    assert(u =~= Seq::<Key<S>>::empty());
    assert(link(f, s, None, f1.init) && link(f, s, None, e));
    reads_link(f, s, u, s, None, f1.init);
    reads_link(f, s, u, s, None, e);
  } else {
    let i = choose|i: int| 0 <= i <= u.len() && star(m, (n - 1) as nat, #[trigger] u.take(i)) && ends(m, u.skip(i));
    star_reads(f1, m, id, s, e, f, (n - 1) as nat, u.take(i));
    assert(reads(f1, f1.init, u.skip(i), id));
    reads_sub(f1, f, f1.init, u.skip(i), id);
    reads_cat(f, s, u.take(i), f1.init, u.skip(i), id);
    assert(u.take(i) + u.skip(i) =~= u);
    assert(link(f, id, None, f1.init) && link(f, id, None, e));
    reads_link(f, s, u, id, None, f1.init);
    reads_link(f, s, u, id, None, e);
  }
}
proof fn loop_reads<S: Eq + Hash, T>(f1: MultiFA<Option<Key<S>>>, m: Mir<S, T>, id: usize, s: usize, e: usize, f: MultiFA<Option<Key<S>>>, u: Keys<S>)
  requires looped(f1, id, s, e, f), forall|u: Keys<S>| #[trigger] reads(f1, f1.init, u, id) == ends(m, u), 
  ensures reads(f, s, u, e) == some_star(m, u),
{
  if reads(f, s, u, e) {
    let inv = |w: Keys<S>, x: usize| x == s && w.len() == 0 || x == e && some_star(m, w) || f1.has(x) && rounds(f1, m, w, x);
    assert forall|w: Keys<S>, a: usize, k: Option<Key<S>>, b: usize| #[trigger] inv(w, a) && #[trigger] link(f, a, k, b) implies inv(more(w, k), b) by {
      if link(f1, a, k, b) { assert(f1.has(a) && f1.has(b)); rounds_more(f1, m, w, a, k, b); }
      else if a == s { assert(star(m, 0, w)); rounds_start(f1, m, 0, w); }
      else { rounds_end(f1, m, id, w); let n = choose|n: nat| #[trigger] star(m, n, w); rounds_start(f1, m, n, w); }
    }
    reads_ind(f, s, u, e, inv);
  }
  if some_star(m, u) { let n = choose|n: nat| #[trigger] star(m, n, u); star_reads(f1, m, id, s, e, f, n, u); }
}
proof fn loop_whole<S: Eq + Hash, T>(n: NFA<S, T>, m: Mir<S, T>, id: usize, s: usize, e: usize, r: NFA<S, T>, c: nat)
  requires looped(n.fa, id, s, e, r.fa), rooted(n.fa), forall|u: Keys<S>| #[trigger] reads(n.fa, n.fa.init, u, id) == ends(m, u), r.fa.finals@ == set![e], r.tagless(), r.fa.ok(c),
  ensures r.whole(c), forall|u: Keys<S>| #[trigger] r.ends(u) == some_star(m, u), forall|u: Keys<S>, t: T| !#[trigger] r.says(u, t),
{
  assert forall|u: Keys<S>| #[trigger] r.ends(u) == some_star(m, u) by {
    loop_reads(n.fa, m, id, s, e, r.fa, u);
    if reads(r.fa, s, u, e) { assert(r.fa.finals@.contains(e)); }
  }
  silent(r.fa, r.tags@, e);
}
// ---- one edge
proof fn edge_reads<S: Eq + Hash, T>(r: NFA<S, T>, k: Option<Key<S>>, e: usize, c: nat)
  requires
    r.fa.ok(c), e != r.fa.init, r.fa.finals@ == set![e], r.tagless(), forall|a: usize, x: Option<Key<S>>, b: usize| #[trigger] link(r.fa, a, x, b) == (a == r.fa.init && x == k && b == e),
  ensures r.whole(c), forall|u: Keys<S>| #[trigger] r.ends(u) == (u == more(Seq::<Key<S>>::empty(), k)), forall|u: Keys<S>, t: T| !#[trigger] r.says(u, t),
{
  let s = r.fa.init;
  assert(r.fa.finals@.contains(e));
  silent(r.fa, r.tags@, e);
  assert forall|u: Keys<S>| #[trigger] r.ends(u) == (u == more(Seq::<Key<S>>::empty(), k)) by {
    if r.ends(u) {
      let inv = |w: Keys<S>, x: usize| x == s && w == Seq::<Key<S>>::empty() || x == e && w == more(Seq::<Key<S>>::empty(), k);
      assert forall|w: Keys<S>, a: usize, y: Option<Key<S>>, b: usize| #[trigger] inv(w, a) && #[trigger] link(r.fa, a, y, b) implies inv(more(w, y), b) by {}
      assert(reads(r.fa, s, u, e));
      reads_ind(r.fa, s, u, e, inv);
    }
    if u == more(Seq::<Key<S>>::empty(), k) { reads_nil(r.fa, s); assert(link(r.fa, s, k, e)); reads_link(r.fa, s, Seq::empty(), s, k, e); }
  }
}
/// One link more.
pub open spec fn linked<K: Eq + Hash>(f0: MultiFA<Option<K>>, p: usize, k: Option<K>, q: usize, f: MultiFA<Option<K>>) -> bool {
  &&& forall|a: usize, x: Option<K>, b: usize| #[trigger] link(f, a, x, b) == (link(f0, a, x, b) || a == p && x == k && b == q)
  &&& forall|a: usize| #[trigger] f.has(a) == f0.has(a)
}
proof fn add_link<K: Eq + Hash>(f0: MultiFA<Option<K>>, p: usize, k: Option<K>, q: usize, f: MultiFA<Option<K>>)
  requires f0.has(p), f.states@ == f0.states@.insert(p, f.states@[p]), f0.states@[p].with(k, q, &f.states@[p]),
  ensures linked(f0, p, k, q, f),
{
  assert forall|a: usize, x: Option<K>, b: usize| #[trigger] link(f, a, x, b) == (link(f0, a, x, b) || a == p && x == k && b == q) by {
    if a == p { assert(f.states@[p].to(x, b) == (f0.states@[p].to(x, b) || x == k && b == q)); }
  }
}
/// Two automata side by side.
proof fn beside<K: Eq + Hash>(a: MultiFA<Option<K>>, b: MultiFA<Option<K>>, f: MultiFA<Option<K>>)
  requires f.states@ == a.states@.union_prefer_right(b.states@), forall|q: usize| !(#[trigger] a.has(q) && b.has(q)),
  ensures
    forall|p: usize, k: Option<K>, q: usize| #[trigger] link(f, p, k, q) == (link(a, p, k, q) || link(b, p, k, q)),
    forall|q: usize| #[trigger] f.has(q) == (a.has(q) || b.has(q)),
{
  assert forall|p: usize, k: Option<K>, q: usize| #[trigger] link(f, p, k, q) == (link(a, p, k, q) || link(b, p, k, q)) by { assert(!(a.has(p) && b.has(p))); }
}
// ---- a pair of an automaton and a tag
pub open spec fn pair_ok<S: Eq + Hash, T>(p: (NFA<S, T>, Option<T>), n: nat) -> bool { p.0.whole(n) && (p.1 is Some ==> p.0.tagless()) }
pub open spec fn pair_says<S: Eq + Hash, T>(p: (NFA<S, T>, Option<T>), u: Keys<S>, t: T) -> bool { p.1 == Some(t) && p.0.ends(u) || p.0.says(u, t) }
/// What becomes of an automaton by `normalize`.
pub open spec fn normal<S: Eq + Hash, T>(a: NFA<S, T>, r: usize, b: NFA<S, T>) -> bool {
  &&& goal(a.fa, a.tags@, r) && routed(a.fa, r, b.fa)
  &&& a.tags == b.tags
  &&& forall|q: usize| #[trigger] b.fa.finals@.contains(q) == (a.tags@.contains_key(q) && q != r)
}
/// The target is made final, with or without a tag.
proof fn settled<S: Eq + Hash, T>(a: NFA<S, T>, n: nat, tag: Option<T>, r: usize, b: NFA<S, T>, d: NFA<S, T>, c: nat)
  requires
    pair_ok((a, tag), n), normal(a, r, b), d.fa.states@ == b.fa.states@, d.fa.init == b.fa.init, d.fa.finals@ == b.fa.finals@.insert(r), b.fa.ok(c),
    d.tags@ == match tag { Some(t) => b.tags@.insert(r, t), None => b.tags@ },
  ensures
    d.whole(c), d.keyed(a, a), forall|q: usize| #[trigger] d.fa.has(q) == (a.fa.has(q) || q == r),
    forall|u: Keys<S>| #[trigger] d.ends(u) == a.ends(u), forall|u: Keys<S>, t: T| #[trigger] d.says(u, t) == pair_says((a, tag), u, t),
{
  routed_reads(a, n, r, b);
  let s = a.fa.init;
  assert(forall|p: usize, k: Option<Key<S>>, q: usize| #[trigger] link(d.fa, p, k, q) == link(b.fa, p, k, q));
  assert(forall|q: usize| #[trigger] d.fa.has(q) == b.fa.has(q));
  assert forall|p: usize, u: Keys<S>, q: usize| #[trigger] reads(d.fa, p, u, q) == reads(b.fa, p, u, q) by {
    if reads(d.fa, p, u, q) { reads_sub(d.fa, b.fa, p, u, q); }
    if reads(b.fa, p, u, q) { reads_sub(b.fa, d.fa, p, u, q); }
  }
  assert forall|p: usize, k: Key<S>, q: usize| #[trigger] link(d.fa, p, Some(k), q) implies has_sym(a, k) by { assert(link(a.fa, p, Some(k), q)); }
  assert forall|u: Keys<S>| #[trigger] d.ends(u) == a.ends(u) by {
    if d.ends(u) {
      let q = choose|q: usize| d.fa.finals@.contains(q) && #[trigger] reads(d.fa, s, u, q);
      assert(reads(b.fa, b.fa.init, u, q));
      if q != r { assert(b.fa.finals@.contains(q)); assert(a.tags@.contains_key(q)); assert(a.fa.finals@.contains(q)); assert(reads(a.fa, s, u, q)); }
    }
    if a.ends(u) { assert(reads(b.fa, b.fa.init, u, r)); assert(reads(d.fa, s, u, r)); assert(d.fa.finals@.contains(r)); }
  }
  assert forall|u: Keys<S>, t: T| #[trigger] d.says(u, t) == pair_says((a, tag), u, t) by {
    if d.says(u, t) {
      let q = choose|q: usize| #[trigger] reads(d.fa, s, u, q) && d.tags@.contains_key(q) && d.tags@[q] == t;
      assert(reads(b.fa, b.fa.init, u, q));
      if tag is None { assert(a.tags@.contains_key(q)); assert(reads(a.fa, s, u, q)); }
    }
    if a.says(u, t) {
      let q = choose|q: usize| #[trigger] reads(a.fa, s, u, q) && a.tags@.contains_key(q) && a.tags@[q] == t;
      assert(reads(b.fa, b.fa.init, u, q));
      assert(reads(d.fa, s, u, q));
    }
    if tag == Some(t) && a.ends(u) { assert(reads(b.fa, b.fa.init, u, r)); assert(reads(d.fa, s, u, r)); assert(d.tags@.contains_key(r)); }
  }
  assert forall|q: usize| #[trigger] d.fa.finals@.contains(q) implies quiet(d.fa, d.tags@, q) by {
    if q != r { assert(b.fa.finals@.contains(q)); assert(a.tags@.contains_key(q)); assert(a.fa.finals@.contains(q)); }
    assert(quiet(b.fa, b.tags@, q));
    reveal(quiet);
    assert forall|u: Keys<S>, x: usize| #[trigger] reads(d.fa, q, u, x) implies u.len() == 0 && (x == q || !d.tags@.contains_key(x)) by { assert(reads(b.fa, q, u, x)); }
  }
  assert(d.fa.init != r) by { if a.fa.finals@.contains(r) { } else { assert(a.fa.has(a.fa.init)); } }
}
/// The first i expressions of a list, one after the other, and the tags of the last of them.
pub open spec fn cat_says<S, T>(c: Vec<Mir<S, T>>, n: int, u: Keys<S>, t: T) -> bool { exists|i: int| 0 <= i <= u.len() && cat(c, (n - 1) as nat, #[trigger] u.take(i)) && says(c[n - 1], u.skip(i), t) }
/// An automaton of an expression.
pub open spec fn of<S: Eq + Hash, T>(a: NFA<S, T>, m: Mir<S, T>) -> bool {
  &&& forall|u: Keys<S>| #[trigger] a.ends(u) == ends(m, u)
  &&& forall|u: Keys<S>, t: T| #[trigger] a.says(u, t) == says(m, u, t)
  &&& untagged(m) ==> a.tagless()
  &&& forall|k: Key<S>| #[trigger] has_sym(a, k) ==> has_range(m, k)
}
pub open spec fn cat_of<S: Eq + Hash, T>(a: NFA<S, T>, c: Vec<Mir<S, T>>, i: int, n: nat, lo: nat) -> bool {
  &&& a.whole(n)
  &&& forall|q: usize| #[trigger] a.fa.has(q) ==> lo <= q
  &&& forall|u: Keys<S>| #[trigger] a.ends(u) == cat(c, i as nat, u)
  &&& forall|u: Keys<S>, t: T| #[trigger] a.says(u, t) == cat_says(c, i, u, t)
  &&& (forall|j: int| 0 <= j < i ==> untagged(#[trigger] c[j])) ==> a.tagless()
  &&& forall|k: Key<S>| #[trigger] has_sym(a, k) ==> exists|j: int| 0 <= j < i && has_range(#[trigger] c[j], k)
}
proof fn cat_first<S: Eq + Hash, T>(a: NFA<S, T>, c: Vec<Mir<S, T>>, n: nat, lo: nat)
  requires c.len() > 0, a.whole(n), of(a, c[0]), forall|q: usize| #[trigger] a.fa.has(q) ==> lo <= q,
  ensures cat_of(a, c, 1, n, lo),
{
  assert forall|u: Keys<S>| #[trigger] a.ends(u) == cat(c, 1, u) by {
    assert(u.take(0) =~= Seq::<Key<S>>::empty() && u.skip(0) =~= u);
    assert(cat(c, 0, u.take(0)));
    if cat(c, 1, u) {
      let i = choose|i: int| 0 <= i <= u.len() && cat(c, 0, #[trigger] u.take(i)) && ends(c[0], u.skip(i));
      assert(i == 0);
    }
  }
  assert forall|u: Keys<S>, t: T| #[trigger] a.says(u, t) == cat_says(c, 1, u, t) by {
    assert(u.take(0) =~= Seq::<Key<S>>::empty() && u.skip(0) =~= u);
    assert(cat(c, 0, u.take(0)));
    if cat_says(c, 1, u, t) {
      let i = choose|i: int| 0 <= i <= u.len() && cat(c, 0, #[trigger] u.take(i)) && says(c[0], u.skip(i), t);
      assert(i == 0);
    }
  }
}
proof fn cat_next<S: Eq + Hash, T>(a: NFA<S, T>, b: NFA<S, T>, r: NFA<S, T>, c: Vec<Mir<S, T>>, i: int, n0: nat, n: nat, lo: nat)
  requires
    0 < i < c.len(), cat_of(a, c, i, n0, lo), of(b, c[i]), r.whole(n), forall|q: usize| #[trigger] r.fa.has(q) ==> lo <= q, r.keyed(a, b), r.tags@ == b.tags@,
    forall|u: Keys<S>| #[trigger] r.ends(u) == then_ends(a, b, u), forall|u: Keys<S>, t: T| #[trigger] r.says(u, t) == then_says(a, b, u, t),
  ensures cat_of(r, c, i + 1, n, lo),
{
  assert forall|u: Keys<S>| #[trigger] r.ends(u) == cat(c, (i + 1) as nat, u) by {
    if r.ends(u) {
      let k = choose|k: int| 0 <= k <= u.len() && a.ends(#[trigger] u.take(k)) && b.ends(u.skip(k));
      assert(cat(c, i as nat, u.take(k)) && ends(c[i], u.skip(k)));
    }
    if cat(c, (i + 1) as nat, u) {
      let k = choose|k: int| 0 <= k <= u.len() && cat(c, i as nat, #[trigger] u.take(k)) && ends(c[i], u.skip(k));
      assert(a.ends(u.take(k)) && b.ends(u.skip(k)));
    }
  }
  assert forall|u: Keys<S>, t: T| #[trigger] r.says(u, t) == cat_says(c, i + 1, u, t) by {
    if r.says(u, t) {
      let k = choose|k: int| 0 <= k <= u.len() && a.ends(#[trigger] u.take(k)) && b.says(u.skip(k), t);
      assert(cat(c, i as nat, u.take(k)) && says(c[i], u.skip(k), t));
    }
    if cat_says(c, i + 1, u, t) {
      let k = choose|k: int| 0 <= k <= u.len() && cat(c, i as nat, #[trigger] u.take(k)) && says(c[i], u.skip(k), t);
      assert(a.ends(u.take(k)) && b.says(u.skip(k), t));
    }
  }
  if forall|j: int| 0 <= j < i + 1 ==> untagged(#[trigger] c[j]) { assert(untagged(c[i])); }
  assert forall|k: Key<S>| #[trigger] has_sym(r, k) implies exists|j: int| 0 <= j < i + 1 && has_range(#[trigger] c[j], k) by {
    if has_sym(a, k) { let j = choose|j: int| 0 <= j < i && has_range(#[trigger] c[j], k); assert(has_range(c[j], k)); } else { assert(has_sym(b, k)); assert(has_range(c[i], k)); }
  }
}
/// The first i expressions of an alternation and their tags.
pub open spec fn alt_ends<S, T>(a: Vec<(Mir<S, T>, Option<T>)>, i: int, u: Keys<S>) -> bool { exists|j: int| 0 <= j < i && ends((#[trigger] a[j]).0, u) }
pub open spec fn alt_says<S, T>(a: Vec<(Mir<S, T>, Option<T>)>, i: int, u: Keys<S>, t: T) -> bool { exists|j: int| 0 <= j < i && ((#[trigger] a[j]).1 == Some(t) && ends(a[j].0, u) || says(a[j].0, u, t)) }
pub open spec fn alt_of<S: Eq + Hash, T>(p: (NFA<S, T>, Option<T>), a: Vec<(Mir<S, T>, Option<T>)>, i: int, n: nat, lo: nat) -> bool {
  &&& pair_ok(p, n)
  &&& forall|q: usize| #[trigger] p.0.fa.has(q) ==> lo <= q
  &&& forall|u: Keys<S>| #[trigger] p.0.ends(u) == alt_ends(a, i, u)
  &&& forall|u: Keys<S>, t: T| #[trigger] pair_says(p, u, t) == alt_says(a, i, u, t)
  &&& (forall|j: int| 0 <= j < i ==> (#[trigger] a[j]).1 is None && untagged(a[j].0)) ==> p.0.tagless() && p.1 is None
  &&& forall|k: Key<S>| #[trigger] has_sym(p.0, k) ==> exists|j: int| 0 <= j < i && has_range((#[trigger] a[j]).0, k)
}
proof fn ends_alter<S, T>(a: Vec<(Mir<S, T>, Option<T>)>, u: Keys<S>)
  ensures ends(Mir::Alter(a), u) == alt_ends(a, a.len() as int, u),
{
  let m = Mir::Alter(a);
  let b = m->Alter_0;
  if ends(m, u) { let j = choose|j: int| 0 <= j < a.len() && ends((#[trigger] a[j]).0, u); assert(ends(a[j].0, u)); }
  if alt_ends(a, a.len() as int, u) { let j = choose|j: int| 0 <= j < a.len() && ends((#[trigger] a[j]).0, u); assert(ends(b[j].0, u)); }
}
proof fn alt_first<S: Eq + Hash, T>(p: (NFA<S, T>, Option<T>), a: Vec<(Mir<S, T>, Option<T>)>, n: nat, lo: nat)
  requires a.len() > 0, pair_ok(p, n), of(p.0, a[0].0), p.1 == a[0].1, forall|q: usize| #[trigger] p.0.fa.has(q) ==> lo <= q,
  ensures alt_of(p, a, 1, n, lo),
{
  assert forall|u: Keys<S>| #[trigger] p.0.ends(u) == alt_ends(a, 1, u) by { if p.0.ends(u) { assert(ends(a[0].0, u)); } }
  assert forall|u: Keys<S>, t: T| #[trigger] pair_says(p, u, t) == alt_says(a, 1, u, t) by { assert(p.0.says(u, t) == says(a[0].0, u, t)); assert(p.0.ends(u) == ends(a[0].0, u)); }
}
proof fn alt_next<S: Eq + Hash, T>(p: (NFA<S, T>, Option<T>), b: NFA<S, T>, r: (NFA<S, T>, Option<T>), a: Vec<(Mir<S, T>, Option<T>)>, i: int, n0: nat, n: nat, lo: nat)
  requires
    0 < i < a.len(), alt_of(p, a, i, n0, lo), of(b, a[i].0), r.1 is None, r.0.whole(n), forall|q: usize| #[trigger] r.0.fa.has(q) ==> lo <= q, r.0.keyed(p.0, b),
    forall|u: Keys<S>| #[trigger] r.0.ends(u) == (p.0.ends(u) || b.ends(u)), forall|u: Keys<S>, t: T| #[trigger] r.0.says(u, t) == (pair_says(p, u, t) || pair_says((b, a[i].1), u, t)),
    p.0.tagless() && p.1 is None && b.tagless() && a[i].1 is None ==> r.0.tagless(),
  ensures alt_of(r, a, i + 1, n, lo),
{
  assert forall|u: Keys<S>| #[trigger] r.0.ends(u) == alt_ends(a, i + 1, u) by {
    if p.0.ends(u) { let j = choose|j: int| 0 <= j < i && ends((#[trigger] a[j]).0, u); assert(ends(a[j].0, u)); }
    if b.ends(u) { assert(ends(a[i].0, u)); }
    if alt_ends(a, i + 1, u) { let j = choose|j: int| 0 <= j < i + 1 && ends((#[trigger] a[j]).0, u); if j < i { assert(alt_ends(a, i, u)); } }
  }
  assert forall|u: Keys<S>, t: T| #[trigger] pair_says(r, u, t) == alt_says(a, i + 1, u, t) by {
    assert(r.0.says(u, t) == (pair_says(p, u, t) || pair_says((b, a[i].1), u, t)));
    assert(pair_says(p, u, t) == alt_says(a, i, u, t));
    assert(b.says(u, t) == says(a[i].0, u, t)); assert(b.ends(u) == ends(a[i].0, u));
    if alt_says(a, i + 1, u, t) { let j = choose|j: int| 0 <= j < i + 1 && ((#[trigger] a[j]).1 == Some(t) && ends(a[j].0, u) || says(a[j].0, u, t)); if j < i { assert(alt_says(a, i, u, t)); } }
    if alt_says(a, i, u, t) { let j = choose|j: int| 0 <= j < i && ((#[trigger] a[j]).1 == Some(t) && ends(a[j].0, u) || says(a[j].0, u, t)); assert(a[j].0 == a[j].0); }
  }
  if forall|j: int| 0 <= j < i + 1 ==> (#[trigger] a[j]).1 is None && untagged(a[j].0) { assert(untagged(a[i].0)); }
  assert forall|k: Key<S>| #[trigger] has_sym(r.0, k) implies exists|j: int| 0 <= j < i + 1 && has_range((#[trigger] a[j]).0, k) by {
    if has_sym(p.0, k) { let j = choose|j: int| 0 <= j < i && has_range((#[trigger] a[j]).0, k); assert(has_range(a[j].0, k)); } else { assert(has_sym(b, k)); assert(has_range(a[i].0, k)); }
  }
}
proof fn alt_one<S: Eq + Hash, T>(b: NFA<S, T>, r: NFA<S, T>, a: Vec<(Mir<S, T>, Option<T>)>, n0: nat, n: nat)
  requires
    a.len() == 1, of(b, a[0].0), a[0].1 is None ==> r == b, r.keyed(b, b),
    forall|u: Keys<S>| #[trigger] r.ends(u) == b.ends(u), forall|u: Keys<S>, t: T| #[trigger] r.says(u, t) == pair_says((b, a[0].1), u, t),
  ensures of(r, Mir::Alter(a)),
{
  let m = Mir::Alter(a);
  assert forall|u: Keys<S>| #[trigger] r.ends(u) == ends(m, u) by { ends_alter(a, u); assert(b.ends(u) == ends(a[0].0, u)); if ends(m, u) { let j = choose|j: int| 0 <= j < a.len() && ends((#[trigger] a[j]).0, u); assert(j == 0); } }
  assert forall|u: Keys<S>, t: T| #[trigger] r.says(u, t) == says(m, u, t) by { assert(b.says(u, t) == says(a[0].0, u, t)); assert(b.ends(u) == ends(a[0].0, u)); }
  assert forall|k: Key<S>| #[trigger] has_sym(r, k) implies has_range(m, k) by { assert(has_sym(b, k)); assert(has_range(a[0].0, k)); }
}
proof fn leaf_of<S: Eq + Hash, T>(r: NFA<S, T>, m: Mir<S, T>)
  requires
    m is Empty || m is Ranges, r.tagless(), forall|u: Keys<S>, t: T| !#[trigger] r.says(u, t),
    forall|k: Key<S>| #[trigger] has_sym(r, k) ==> m == Mir::<S, T>::Ranges(k),
    forall|u: Keys<S>| #[trigger] r.ends(u) == (u == more(Seq::<Key<S>>::empty(), match m { Mir::Ranges(k) => Some(k), _ => None })),
  ensures of(r, m),
{
  assert forall|u: Keys<S>| #[trigger] r.ends(u) == ends(m, u) by {
    if m is Empty { if u.len() == 0 { assert(u =~= Seq::<Key<S>>::empty()); } } else { let k = m->Ranges_0; if u.len() == 1 && u[0] == k { assert(u =~= Seq::<Key<S>>::empty().push(k)); } }
  }
}
proof fn list_of<S: Eq + Hash, T>(r: NFA<S, T>, c: Vec<Mir<S, T>>, n: nat, lo: nat)
  requires c.len() > 0, cat_of(r, c, c.len() as int, n, lo),
  ensures of(r, Mir::Concat(c)),
{
  let m = Mir::Concat(c);
  assert forall|u: Keys<S>, t: T| #[trigger] r.says(u, t) == says(m, u, t) by { assert(r.says(u, t) == cat_says(c, c.len() as int, u, t)); }
  assert forall|k: Key<S>| #[trigger] has_sym(r, k) implies has_range(m, k) by { let j = choose|j: int| 0 <= j < c.len() && has_range(#[trigger] c[j], k); }
}
proof fn pair_of<S: Eq + Hash, T>(p: (NFA<S, T>, Option<T>), a: Vec<(Mir<S, T>, Option<T>)>, n: nat, lo: nat)
  requires a.len() > 0, alt_of(p, a, a.len() as int, n, lo), p.1 is None,
  ensures of(p.0, Mir::Alter(a)),
{
  let m = Mir::Alter(a); let r = p.0;
  assert forall|u: Keys<S>| #[trigger] r.ends(u) == ends(m, u) by { ends_alter(a, u); assert(r.ends(u) == alt_ends(a, a.len() as int, u)); }
  assert forall|u: Keys<S>, t: T| #[trigger] r.says(u, t) == says(m, u, t) by { assert(pair_says(p, u, t) == alt_says(a, a.len() as int, u, t)); }
  assert forall|k: Key<S>| #[trigger] has_sym(r, k) implies has_range(m, k) by { let j = choose|j: int| 0 <= j < a.len() && has_range((#[trigger] a[j]).0, k); }
}
proof fn kleene_of<S: Eq + Hash, T>(a: NFA<S, T>, r: NFA<S, T>, k: Box<Mir<S, T>>)
  requires of(a, *k), r.tagless(), r.keyed(a, a), forall|u: Keys<S>| #[trigger] r.ends(u) == some_star(*k, u), forall|u: Keys<S>, t: T| !#[trigger] r.says(u, t),
  ensures of(r, Mir::Kleene(k)),
{
  let m = Mir::Kleene(k);
  assert forall|u: Keys<S>| #[trigger] r.ends(u) == ends(m, u) by {
    if ends(m, u) { let n = choose|n: nat| #[trigger] times(n) && star(*k, n, u); assert(star(*k, n, u)); }
    if some_star(*k, u) { let n = choose|n: nat| #[trigger] star(*k, n, u); assert(times(n)); }
  }
  assert forall|u: Keys<S>, t: T| #[trigger] r.says(u, t) == says(m, u, t) by {}
  assert forall|x: Key<S>| #[trigger] has_sym(r, x) implies has_range(m, x) by { assert(has_sym(a, x)); assert(has_range(*k, x)); }
}
//@ item laps_regex/src/nfa.rs impl NFA#0
//@ drop into_fa_tags dump
//@ fn normalize attr=loop_isolation(false)
    requires old(self).whole(old(c_)@),
    ensures
      old(c_)@ <= final(c_)@, final(self).fa.ok(final(c_)@), normal(*old(self), r, *final(self)),
      old(self).fa.has(r) || old(c_)@ <= r,
//@ entry
    let ghost a = *self;
    let ghost n = c_@;
//@ loop 0
    invariant
      i_ <= l_@.len(), members(derefs(l_@), a.fa.finals@), r_ is Some ==> a.fa.finals@.contains(r_->0) && !a.tags@.contains_key(r_->0),
      r_ is None ==> forall|j: int| 0 <= j < i_ ==> a.tags@.contains_key(*(#[trigger] l_@[j])),
    decreases l_@.len() - i_,
//@ loopbody 0
      proof { assert(derefs(l_@)[i_ as int] == *l_@[i_ as int]); }
//@ after let target = $s_e;
    let ghost t0 = self.fa;
    proof { assert(goal(a.fa, a.tags@, target)); }
//@ loop 1
    invariant
      self.tags == a.tags, goal(a.fa, a.tags@, target), self.fa.init == a.fa.init, self.fa.ok(c_@), members(it1.seq(), t0.finals@),
      forall|p: usize, k: Option<Key<S>>, b: usize| #[trigger] link(self.fa, p, k, b) == (link(a.fa, p, k, b) || k is None && b == target && exists|j: int| 0 <= j < it1.index@ && #[trigger] it1.seq()[j] == p && p != target),
      forall|p: usize| #[trigger] self.fa.has(p) == (a.fa.has(p) || p == target),
      forall|q: usize| #[trigger] self.fa.finals@.contains(q) == (t0.finals@.contains(q) && (a.tags@.contains_key(q) || !exists|j: int| 0 <= j < it1.index@ && #[trigger] it1.seq()[j] == q && q != target)),
//@ loopbody 1
      let ghost f0 = self.fa;
//@ loopend 1
      proof {
        if id != target { add_link(f0, id, None, target, self.fa); } else { assert(forall|p: usize, k: Option<Key<S>>, b: usize| #[trigger] link(self.fa, p, k, b) == link(f0, p, k, b)); assert(forall|p: usize| #[trigger] self.fa.has(p) == f0.has(p)); }
        assert forall|p: usize, k: Option<Key<S>>, b: usize| #[trigger] link(self.fa, p, k, b) == (link(a.fa, p, k, b) || k is None && b == target && exists|j: int| 0 <= j < it1.index@ + 1 && #[trigger] it1.seq()[j] == p && p != target) by {
          assert(it1.seq()[it1.index@] == id);
        }
      }
//@ fn new_nfa_with_symbol
    ensures
      r.whole(final(c_)@), old(c_)@ <= final(c_)@, r.tagless(), forall|q: usize| #[trigger] r.fa.has(q) ==> old(c_)@ <= q,
      forall|u: Keys<S>| #[trigger] r.ends(u) == (u == more(Seq::<Key<S>>::empty(), sym)), forall|u: Keys<S>, t: T| !#[trigger] r.says(u, t),
      forall|k: Key<S>| #[trigger] has_sym(r, k) ==> sym == Some(k),
      exists|e: usize| r.fa.finals@ == set![e] && e != r.fa.init && r.fa.states@.dom() == set![r.fa.init, e] && forall|a: usize, x: Option<Key<S>>, b: usize| #[trigger] link(r.fa, a, x, b) == (a == r.fa.init && x == sym && b == e),
//@ after let fs = $s_e;
    let ghost f0 = fa;
//@ after fa.init_mut().add(sym, fs);
    proof {
      add_link(f0, fa.init, sym, fs, fa);
      assert forall|k: Option<Key<S>>, a: usize, b: usize| !#[trigger] link(f0, a, k, b) by { }
      assert(fa.finals@ =~= set![fs]);
    }
//@ after let t_ = $s_e;
    proof { assert(forall|a: usize, x: Option<Key<S>>, b: usize| #[trigger] link(t_.fa, a, x, b) == link(fa, a, x, b)); edge_reads(t_, sym, fs, c_@); }
//@ fn concat
    requires nfa1_.whole(old(c_)@), nfa2.whole(old(c_)@), nfa1_.tagless(), nfa1_.apart(nfa2),
    ensures
      r.whole(final(c_)@), old(c_)@ <= final(c_)@, forall|q: usize| #[trigger] r.fa.has(q) ==> nfa1_.fa.has(q) || nfa2.fa.has(q) || old(c_)@ <= q,
      forall|u: Keys<S>| #[trigger] r.ends(u) == then_ends(nfa1_, nfa2, u), forall|u: Keys<S>, t: T| #[trigger] r.says(u, t) == then_says(nfa1_, nfa2, u, t),
      r.tags@ == nfa2.tags@, r.keyed(nfa1_, nfa2),
//@ entry
    let ghost n = c_@;
//@ after let fs1 = $s_e;
    let ghost m = nfa1;
    proof { routed_reads(nfa1_, n, fs1, m); }
//@ after nfa1.fa.state_mut(fs1).unwrap().add(None, nfa2.fa.init_id());
    let ghost l = nfa1.fa;
    proof { add_link(m.fa, fs1, None, nfa2.fa.init, l); }
//@ after nfa1.tags.extend_(nfa2.tags);
    proof {
      beside(l, nfa2.fa, nfa1.fa);
      assert(nfa1.tags@ =~= nfa2.tags@);
      assert(m.fa.finals@ =~= Set::empty());
      assert(nfa1.fa.finals@ =~= nfa2.fa.finals@);
      assert(bridged(m.fa, fs1, nfa2.fa, nfa1.fa));
      concat_reads(nfa1_, m, fs1, nfa2, nfa1, c_@);
    }
//@ fn alter
    requires pair_ok(pair1_, old(c_)@), pair_ok(pair2_, old(c_)@), pair1_.0.apart(pair2_.0),
    ensures
      r.1 is None, r.0.whole(final(c_)@), old(c_)@ <= final(c_)@, forall|q: usize| #[trigger] r.0.fa.has(q) ==> pair1_.0.fa.has(q) || pair2_.0.fa.has(q) || old(c_)@ <= q,
      forall|u: Keys<S>| #[trigger] r.0.ends(u) == (pair1_.0.ends(u) || pair2_.0.ends(u)), forall|u: Keys<S>, t: T| #[trigger] r.0.says(u, t) == (pair_says(pair1_, u, t) || pair_says(pair2_, u, t)),
      pair1_.0.tagless() && pair1_.1 is None && pair2_.0.tagless() && pair2_.1 is None ==> r.0.tagless(), r.0.keyed(pair1_.0, pair2_.0),
//@ entry
    let ghost n = c_@;
//@ after let fs1 = $s_e;
    let ghost m1 = nfa1;
//@ after if let Some(tag1) = tag1 { $s_b }
    let ghost d1 = nfa1;
    let ghost a2 = nfa2;
    proof { settled(nfa1_, n, pair1_.1, fs1, m1, d1, c_@); }
//@ after nfa1.fa.init_mut().add(None, nfa2.fa.init_id());
    let ghost l1 = nfa1;
    let ghost mut d2 = nfa2;
    proof { add_link(d1.fa, d1.fa.init, None, nfa2.fa.init, l1.fa); }
//@ after let fs2 = $s_e;
      let ghost m2 = nfa2;
//@ after nfa1.tags.insert(fs2, tag2);
      proof {
        d2 = NFA { fa: nfa2.fa, tags: some_map(a2.tags@.insert(fs2, tag2)) };
        settled(a2, n, pair2_.1, fs2, m2, d2, c_@);
      }
//@ after nfa1.tags.extend_(nfa2.tags);
    proof {
      assert forall|q: usize| !(#[trigger] d1.fa.has(q) && d2.fa.has(q)) by { assert(!(nfa1_.fa.has(q) && a2.fa.has(q))); }
      beside(l1.fa, d2.fa, nfa1.fa);
      assert(nfa1.tags@ =~= d1.tags@.union_prefer_right(d2.tags@));
      assert(bridged(d1.fa, d1.fa.init, d2.fa, nfa1.fa));
      alter_reads(d1, d2, nfa1, c_@);
      if nfa1_.tagless() && pair1_.1 is None && a2.tagless() && pair2_.1 is None { assert(nfa1.tags@ =~= Map::empty()); }
      assert forall|p: usize, k: Key<S>, q: usize| #[trigger] link(nfa1.fa, p, Some(k), q) implies has_sym(pair1_.0, k) || has_sym(pair2_.0, k) by {
        assert(link(d1.fa, p, Some(k), q) || link(d2.fa, p, Some(k), q));
      }
    }
//@ fn new attr=loop_isolation(false)
    requires tails(mir),
    ensures r.whole(final(c_)@), of(r, mir), old(c_)@ <= final(c_)@, forall|q: usize| #[trigger] r.fa.has(q) ==> old(c_)@ <= q,
    decreases mir,
//@ entry
    let ghost m0 = mir;
    let ghost n = c_@;
//@ after let e_ = $s_e;
      proof { leaf_of(e_, m0); }
//@ after let g_ = $s_e;
      proof { leaf_of(g_, m0); }
//@ after let l_ = $s_e;
      proof { list_of(l_, m0->Concat_0, c_@, n);  }
//@ after let p_ = $s_e;
      proof { pair_of(p_, m0->Alter_0, c_@, n); }
//@ loop 0
    invariant
      m0 is Concat, tails(m0), it0.seq() == m0->Concat_0@, n <= c_@, it0.index@ == 0 ==> r_ is None,
      it0.index@ > 0 ==> r_ is Some && cat_of(r_->0, m0->Concat_0, it0.index@ as int, c_@, n),
//@ loopbody 0
      let ghost r0 = r_;
      let ghost n0 = c_@;
//@ after let x_ = $s_e;
      proof { if it0.index@ == 0 { cat_first(x_, m0->Concat_0, c_@, n); } else { cat_next(r0->0, n_, x_, m0->Concat_0, it0.index@ as int, n0, c_@, n); } }
//@ loop 1
    invariant
      m0 is Alter, tails(m0), it1.seq() == m0->Alter_0@, n <= c_@, it1.index@ == 0 ==> r_ is None,
      it1.index@ > 0 ==> r_ is Some && alt_of(r_->0, m0->Alter_0, it1.index@ as int, c_@, n), it1.index@ > 1 ==> (r_->0).1 is None,
//@ loopbody 1
      let ghost r0 = r_;
      let ghost n0 = c_@;
      proof { assert(m0->Alter_0[it1.index@ as int] == (mir, tag)); }
//@ after let y_ = $s_e;
      proof { if it1.index@ == 0 { alt_first(y_, m0->Alter_0, c_@, n); } else { alt_next(r0->0, n_, y_, m0->Alter_0, it1.index@ as int, n0, c_@, n); } }
//@ after let mut nfa = Self::new(c_, mir);
          let ghost a0 = nfa;
          let ghost n1 = c_@;
          proof { assert(m0->Alter_0[0] == (mir, tag)); }
//@ after let fs = nfa.normalize(c_);
            let ghost b0 = nfa;
//@ after nfa.tags.insert(fs, tag);
            proof { settled(a0, n1, Some(tag), fs, b0, nfa, c_@); }
//@ after if let Some(tag) = tag { $s_b }
          proof { alt_one(a0, nfa, m0->Alter_0, n1, c_@); }
//@ after let mut nfa = Self::new(c_, unbox_(k));
        let ghost a0 = nfa;
        let ghost n1 = c_@;
//@ after let id = nfa.normalize(c_);
        let ghost b0 = nfa;
        proof { routed_reads(a0, n1, id, b0); }
//@ after nfa.fa.state_mut(id).unwrap().add(None, init);
        let ghost l1 = nfa.fa;
        proof { add_link(b0.fa, id, None, init, l1); }
//@ after let mut kleene = $s_e;
        let ghost k0 = kleene;
        proof {
          let e = choose|e: usize| k0.fa.finals@ == set![e] && e != k0.fa.init && k0.fa.states@.dom() == set![k0.fa.init, e] && forall|a: usize, x: Option<Key<S>>, b: usize| #[trigger] link(k0.fa, a, x, b) == (a == k0.fa.init && x is None && b == e);
          assert(set![e].len() == 1);
        }
//@ after kleene.fa.init_mut().add(None, init);
        let ghost k1 = kleene.fa;
        proof { add_link(k0.fa, k0.fa.init, None, init, k1); }
//@ after nfa.fa.state_mut(id).unwrap().add(None, fs);
        proof { add_link(l1, id, None, fs, nfa.fa); }
//@ after kleene.tags.extend_(nfa.tags);
        proof {
          beside(k1, nfa.fa, kleene.fa);
          assert(kleene.tags@ =~= Map::empty());
          assert(b0.fa.finals@ =~= Set::empty());
          assert(kleene.fa.finals@ =~= set![fs]);
          assert(looped(b0.fa, id, k0.fa.init, fs, kleene.fa));
          loop_whole(b0, *(m0->Kleene_0), id, k0.fa.init, fs, kleene, c_@);
          assert forall|p: usize, k: Key<S>, q: usize| #[trigger] link(kleene.fa, p, Some(k), q) implies has_sym(a0, k) by { assert(link(b0.fa, p, Some(k), q)); assert(link(a0.fa, p, Some(k), q)); }
          kleene_of(a0, kleene, m0->Kleene_0);
        }
//@ end
