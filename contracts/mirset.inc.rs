// ------------------------------------------------------------ dividing the ranges of an expression into classes
pub type Classes<S> = Map<S, (S, Vec<(S, S)>)>;
pub type Work<S> = Seq<Vec<(S, S)>>;
/// A heap; which of its elements pop gives is left open.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct Heap<K> { k: K }
impl<K> Heap<K> {
  pub uninterp spec fn view(&self) -> Seq<K>;
  #[verifier::external_body]
  pub fn of_(s: HashSet<K>) -> (r: Self) ensures s@.finite(), members(r@, s@) { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body]
  pub fn pop_(&mut self) -> (r: K)
    requires old(self)@.len() > 0,
    ensures exists|i: int| 0 <= i < old(self)@.len() && #[trigger] old(self)@[i] == r && final(self)@ == old(self)@.remove(i),
  { unimplemented!() }
  #[verifier::external_body]
  pub fn push(&mut self, k: K) ensures final(self)@ == old(self)@.push(k) { unimplemented!() }
}
impl<K, V> BTreeMap<K, V> {
  /// `range_mut(..=x).next_back()`.
  #[verifier::external_body]
  pub fn last_upto_(&mut self, x: &K) -> (r: Option<(&K, &mut V)>)
    ensures
      r is None ==> final(self)@ == old(self)@ && forall|k: K| #[trigger] old(self)@.contains_key(k) ==> ord(k) > ord(*x),
      r is Some ==> old(self)@.contains_key(*(r->0).0) && ord(*(r->0).0) <= ord(*x) && *(r->0).1 == old(self)@[*(r->0).0]
        && (forall|k: K| #[trigger] old(self)@.contains_key(k) && ord(k) <= ord(*x) ==> ord(k) <= ord(*(r->0).0))
        && final(self)@ == old(self)@.insert(*(r->0).0, *final((r->0).1)),
  { unimplemented!() }
  /// `range(x..).next()`.
  #[verifier::external_body]
  pub fn first_from_(&self, x: &K) -> (r: Option<(&K, &V)>)
    ensures
      r is None ==> forall|k: K| #[trigger] self@.contains_key(k) ==> ord(k) < ord(*x),
      r is Some ==> self@.contains_key(*(r->0).0) && ord(*(r->0).0) >= ord(*x) && *(r->0).1 == self@[*(r->0).0]
        && forall|k: K| #[trigger] self@.contains_key(k) && ord(k) >= ord(*x) ==> ord(k) >= ord(*(r->0).0),
  { unimplemented!() }
}
#[verifier::external_body]
fn uncons_<T>(v: Vec<T>) -> (r: (T, Vec<T>)) requires v@.len() > 0 ensures r.0 == v@[0], r.1@ == v@.skip(1) { unimplemented!() }
pub open spec fn sub<S>(p: Seq<(S, S)>, q: Seq<(S, S)>) -> bool { forall|c: S| #[trigger] within(p, c) ==> within(q, c) }
pub open spec fn entry<S>(l: S, e: (S, Vec<(S, S)>)) -> bool { sorted(e.1@) && e.1@[0].0 == l && e.1@.last().1 == e.0 }
/// Every class stands at its first symbol with its last; none reaches into the next.
#[verifier::opaque]
pub open spec fn classes<S>(m: Classes<S>) -> bool {
  &&& forall|l: S| #[trigger] m.contains_key(l) ==> entry(l, m[l])
  &&& forall|a: S, b: S| #[trigger] m.contains_key(a) && #[trigger] m.contains_key(b) && ord(a) < ord(b) ==> ord(m[a].0) < ord(b)
}
pub open spec fn in_map<S>(m: Classes<S>, p: Seq<(S, S)>) -> bool { exists|l: S| #[trigger] m.contains_key(l) && m[l].1@ == p }
pub open spec fn in_work<S>(w: Work<S>, p: Seq<(S, S)>) -> bool { exists|j: int| 0 <= j < w.len() && (#[trigger] w[j])@ == p }
pub open spec fn piece<S>(m: Classes<S>, w: Work<S>, p: Seq<(S, S)>) -> bool { in_map(m, p) || in_work(w, p) }
/// Every symbol of p lies in a piece of p.
#[verifier::opaque]
pub open spec fn covered<S>(m: Classes<S>, w: Work<S>, p: Seq<(S, S)>) -> bool { forall|c: S| #[trigger] within(p, c) ==> exists|q: Seq<(S, S)>| #[trigger] piece(m, w, q) && within(q, c) && sub(q, p) }
#[verifier::opaque]
pub open spec fn refines<S>(m: Classes<S>, w: Work<S>, m2: Classes<S>, w2: Work<S>) -> bool { forall|p: Seq<(S, S)>| #[trigger] piece(m, w, p) ==> covered(m2, w2, p) }
proof fn covered_piece<S>(m: Classes<S>, w: Work<S>, p: Seq<(S, S)>)
  requires piece(m, w, p),
  ensures covered(m, w, p),
{ reveal(covered); }
proof fn covered_refines<S>(m: Classes<S>, w: Work<S>, m2: Classes<S>, w2: Work<S>, p: Seq<(S, S)>)
  requires covered(m, w, p), refines(m, w, m2, w2),
  ensures covered(m2, w2, p),
{
  reveal(covered); reveal(refines);
  assert forall|c: S| #[trigger] within(p, c) implies exists|q: Seq<(S, S)>| #[trigger] piece(m2, w2, q) && within(q, c) && sub(q, p) by {
    let q = choose|q: Seq<(S, S)>| #[trigger] piece(m, w, q) && within(q, c) && sub(q, p);
    assert(covered(m2, w2, q));
    let x = choose|x: Seq<(S, S)>| #[trigger] piece(m2, w2, x) && within(x, c) && sub(x, q);
    assert(sub(x, p));
  }
}
/// Two pieces make up p.
proof fn covered_two<S>(m: Classes<S>, w: Work<S>, p: Seq<(S, S)>, at: S, a: Seq<(S, S)>, b: Seq<(S, S)>)
  requires split(p, at, a, b), piece(m, w, a), piece(m, w, b),
  ensures covered(m, w, p),
{
  reveal(covered); reveal(split);
  assert forall|c: S| #[trigger] within(p, c) implies exists|q: Seq<(S, S)>| #[trigger] piece(m, w, q) && within(q, c) && sub(q, p) by {
    assert(sub(a, p)); assert(sub(b, p));
    assert(within(a, c) == (within(p, c) && ord(c) < ord(at))); assert(within(b, c) == (within(p, c) && ord(c) >= ord(at)));
    if ord(c) < ord(at) { assert(piece(m, w, a) && within(a, c)); } else { assert(piece(m, w, b) && within(b, c)); }
  }
}
/// The single ranges of p make up p.
proof fn covered_singles<S>(m: Classes<S>, w: Work<S>, p: Seq<(S, S)>)
  requires forall|i: int| 0 <= i < p.len() ==> piece(m, w, seq![#[trigger] p[i]]),
  ensures covered(m, w, p),
{
  reveal(covered);
  assert forall|c: S| #[trigger] within(p, c) implies exists|q: Seq<(S, S)>| #[trigger] piece(m, w, q) && within(q, c) && sub(q, p) by {
    let i = choose|i: int| 0 <= i < p.len() && in_one(#[trigger] p[i], c);
    let q = seq![p[i]];
    within_one(p[i], c);
    assert(sub(q, p)) by { assert forall|x: S| #[trigger] within(q, x) implies within(p, x) by { within_one(p[i], x); assert(in_one(p[i], x)); } }
    assert(piece(m, w, q));
  }
}
// ---- the measure of the work
pub open spec fn hull<S>(cs: Set<S>, p: Seq<(S, S)>) -> Set<S> { cs.filter(|c: S| ord(p[0].0) <= ord(c) <= ord(p.last().1)) }
pub open spec fn weight<S>(cs: Set<S>, p: Seq<(S, S)>) -> int { hull(cs, p).len() as int }
pub open spec fn cost<S>(cs: Set<S>, p: Seq<(S, S)>) -> int { 2 * weight(cs, p) - 1 }
pub open spec fn total<S>(cs: Set<S>, w: Work<S>) -> int decreases w.len() { if w.len() == 0 { 0 } else { total(cs, w.drop_last()) + cost(cs, w.last()@) } }
proof fn weight_pos<S>(cs: Set<S>, p: Seq<(S, S)>)
  requires cs.finite(), cutq(cs, p), sorted(p),
  ensures weight(cs, p) >= 1,
{
  reveal(cutq);
  assert(cs.contains(p[0].0));
  sorted_ends(p);
  assert(hull(cs, p).contains(p[0].0));
  assert(hull(cs, p).finite());
  if hull(cs, p).len() == 0 { assert(hull(cs, p) =~= Set::empty()); }
}
proof fn sorted_ends<S>(p: Seq<(S, S)>)
  requires sorted(p),
  ensures forall|i: int| 0 <= i < p.len() ==> ord(p[0].0) <= ord((#[trigger] p[i]).0) && ord(p[i].0) <= ord(p[i].1) && ord(p[i].1) <= ord(p.last().1),
{
  assert forall|i: int| 0 <= i < p.len() implies ord(p[0].0) <= ord((#[trigger] p[i]).0) && ord(p[i].0) <= ord(p[i].1) && ord(p[i].1) <= ord(p.last().1) by {
    let n = p.len() - 1;
    if i > 0 { assert(ord(p[0].1) < ord(p[i].0)); assert(ord(p[0].0) <= ord(p[0].1)); }
    if i < n { assert(ord(p[i].1) < ord(p[n].0)); assert(ord(p[n].0) <= ord(p[n].1)); }
  }
}
proof fn weight_two<S>(cs: Set<S>, p: Seq<(S, S)>, a: Seq<(S, S)>, b: Seq<(S, S)>)
  requires cs.finite(), ord(p[0].0) <= ord(a[0].0), ord(a.last().1) < ord(b[0].0), ord(b.last().1) <= ord(p.last().1), ord(a[0].0) <= ord(a.last().1), ord(b[0].0) <= ord(b.last().1),
  ensures weight(cs, a) + weight(cs, b) <= weight(cs, p),
{
  let x = hull(cs, a); let y = hull(cs, b); let z = hull(cs, p);
  vstd::set_lib::lemma_set_disjoint_lens(x, y);
  vstd::set_lib::lemma_len_subset(x.union(y), z);
}
proof fn weight_less<S>(cs: Set<S>, p: Seq<(S, S)>, b: Seq<(S, S)>)
  requires cs.finite(), cs.contains(p[0].0), ord(p[0].0) < ord(b[0].0), ord(b.last().1) <= ord(p.last().1), ord(p[0].0) <= ord(p.last().1),
  ensures weight(cs, b) < weight(cs, p),
{
  let y = hull(cs, b); let z = hull(cs, p);
  assert(z.contains(p[0].0) && !y.contains(p[0].0));
  vstd::set_lib::lemma_len_subset(y.insert(p[0].0), z);
}
proof fn total_push<S>(cs: Set<S>, w: Work<S>, x: Vec<(S, S)>)
  ensures total(cs, w.push(x)) == total(cs, w) + cost(cs, x@),
{ assert(w.push(x).drop_last() =~= w); }
proof fn total_remove<S>(cs: Set<S>, w: Work<S>, i: int)
  requires 0 <= i < w.len(),
  ensures total(cs, w.remove(i)) == total(cs, w) - cost(cs, w[i]@),
  decreases w.len(),
{
  if i == w.len() - 1 { assert(w.remove(i) =~= w.drop_last()); } else {
    total_remove(cs, w.drop_last(), i);
    assert(w.remove(i).drop_last() =~= w.drop_last().remove(i));
  }
}
pub open spec fn singles<S>(cs: Set<S>, q: Seq<(S, S)>) -> int decreases q.len() { if q.len() == 0 { 0 } else { singles(cs, q.drop_last()) + cost(cs, seq![q.last()]) } }
proof fn singles_less<S>(cs: Set<S>, q: Seq<(S, S)>)
  requires cs.finite(), sorted(q),
  ensures singles(cs, q) <= 2 * weight(cs, q) - q.len(),
  decreases q.len(),
{
  let r = seq![q.last()];
  if q.len() == 1 { assert(q =~= r); assert(q.drop_last() =~= Seq::<(S, S)>::empty()); assert(singles(cs, q.drop_last()) == 0); } else {
    let a = q.drop_last();
    let n = q.len() - 1;
    assert(sorted(a)) by { assert forall|i: int| 0 <= i < a.len() implies ord((#[trigger] a[i]).0) <= ord(a[i].1) by { assert(a[i] == q[i]); } assert forall|i: int, j: int| 0 <= i < j < a.len() implies ord((#[trigger] a[i]).1) < ord((#[trigger] a[j]).0) by { assert(a[i] == q[i] && a[j] == q[j]); } }
    singles_less(cs, a);
    sorted_ends(q); sorted_ends(a);
    assert(ord(q[n - 1].1) < ord(q[n].0));
    weight_two(cs, q, a, r);
  }
}
// ---- one step
/// Well-formed classes and work with their starts and ends in cs.
#[verifier::opaque]
pub open spec fn state<S>(cs: Set<S>, m: Classes<S>, w: Work<S>) -> bool {
  &&& cs.finite() && classes(m)
  &&& forall|l: S| #[trigger] m.contains_key(l) ==> cutq(cs, m[l].1@)
  &&& forall|j: int| 0 <= j < w.len() ==> sorted((#[trigger] w[j])@) && cutq(cs, w[j]@)
}
/// How many starts are not keys yet.
pub open spec fn room<S>(cs: Set<S>, m: Classes<S>) -> int { cs.difference(m.dom()).len() as int }
proof fn room_less<S>(cs: Set<S>, m: Classes<S>, m2: Classes<S>, x: S)
  requires cs.finite(), forall|k: S| #[trigger] m.contains_key(k) ==> m2.contains_key(k), cs.contains(x), !m.contains_key(x), m2.contains_key(x),
  ensures 0 <= room(cs, m2) < room(cs, m),
{
  let a = cs.difference(m.dom()); let b = cs.difference(m2.dom());
  assert(a.contains(x) && !b.contains(x));
  assert forall|k: S| b.insert(x).contains(k) implies a.contains(k) by { if k != x { assert(!m2.contains_key(k)); assert(!m.contains_key(k)); } }
  vstd::set_lib::lemma_len_subset(b.insert(x), a);
}
/// Work before and after taking cur from it.
pub open spec fn taken<S>(w: Work<S>, w1: Work<S>, cur: Vec<(S, S)>) -> bool { exists|i: int| 0 <= i < w.len() && #[trigger] w[i] == cur && w1 == w.remove(i) }
proof fn take_one<S>(cs: Set<S>, m: Classes<S>, w: Work<S>, w1: Work<S>, cur: Vec<(S, S)>)
  requires taken(w, w1, cur), state(cs, m, w),
  ensures
    state(cs, m, w1), sorted(cur@), cutq(cs, cur@), total(cs, w) == total(cs, w1) + cost(cs, cur@), cost(cs, cur@) >= 1, total(cs, w1) >= 0,
    forall|p: Seq<(S, S)>| #[trigger] piece(m, w, p) ==> piece(m, w1, p) || p == cur@,
{
  reveal(state);
  let i = choose|i: int| 0 <= i < w.len() && #[trigger] w[i] == cur && w1 == w.remove(i);
  assert forall|j: int| 0 <= j < w1.len() implies sorted((#[trigger] w1[j])@) && cutq(cs, w1[j]@) by { if j < i { assert(w1[j] == w[j]); } else { assert(w1[j] == w[j + 1]); } }
  total_remove(cs, w, i);
  weight_pos(cs, cur@);
  total_pos(cs, m, w1);
  assert forall|p: Seq<(S, S)>| #[trigger] piece(m, w, p) implies piece(m, w1, p) || p == cur@ by {
    if in_work(w, p) { let j = choose|j: int| 0 <= j < w.len() && (#[trigger] w[j])@ == p; if j < i { assert(w1[j]@ == p); } else if j > i { assert(w1[j - 1]@ == p); } }
  }
}
proof fn total_pos<S>(cs: Set<S>, m: Classes<S>, w: Work<S>)
  requires state(cs, m, w),
  ensures total(cs, w) >= 0,
  decreases w.len(),
{
  reveal(state);
  if w.len() > 0 {
    let x = w[w.len() - 1];
    weight_pos(cs, x@);
    let v = w.drop_last();
    assert forall|j: int| 0 <= j < v.len() implies sorted((#[trigger] v[j])@) && cutq(cs, v[j]@) by { assert(v[j] == w[j]); }
    total_pos(cs, m, v);
  }
}
proof fn state_push<S>(cs: Set<S>, m: Classes<S>, w: Work<S>, x: Vec<(S, S)>)
  requires state(cs, m, w), sorted(x@), cutq(cs, x@),
  ensures state(cs, m, w.push(x)), total(cs, w.push(x)) == total(cs, w) + cost(cs, x@), piece(m, w.push(x), x@), forall|p: Seq<(S, S)>| #[trigger] piece(m, w, p) ==> piece(m, w.push(x), p),
{
  reveal(state);
  total_push(cs, w, x);
  let v = w.push(x);
  assert(v[w.len() as int]@ == x@);
  assert forall|p: Seq<(S, S)>| #[trigger] piece(m, w, p) implies piece(m, v, p) by { if in_work(w, p) { let j = choose|j: int| 0 <= j < w.len() && (#[trigger] w[j])@ == p; assert(v[j]@ == p); } }
}
/// What one round does: everything stays covered, the measure decreases.
pub open spec fn round<S>(cs: Set<S>, m: Classes<S>, w: Work<S>, m2: Classes<S>, w2: Work<S>) -> bool {
  &&& state(cs, m2, w2)
  &&& refines(m, w, m2, w2)
  &&& total(cs, w2) >= 0 && room(cs, m2) >= 0
  &&& total(cs, w2) < total(cs, w) || total(cs, w2) == total(cs, w) && room(cs, m2) < room(cs, m)
}
/// cur is dropped: it is a class already.
proof fn round_drop<S>(cs: Set<S>, m: Classes<S>, w: Work<S>, w1: Work<S>, cur: Vec<(S, S)>, l: S)
  requires state(cs, m, w), taken(w, w1, cur), m.contains_key(l), m[l].1@ == cur@,
  ensures round(cs, m, w, m, w1),
{
  take_one(cs, m, w, w1, cur);
  reveal(refines);
  assert(in_map(m, cur@));
  assert forall|p: Seq<(S, S)>| #[trigger] piece(m, w, p) implies covered(m, w1, p) by { assert(piece(m, w1, p)); covered_piece(m, w1, p); }
  assert(cs.finite()) by { reveal(state); }
}
proof fn classes_add<S>(m: Classes<S>, l: S, e: (S, Vec<(S, S)>))
  requires classes(m), entry(l, e), forall|k: S| #[trigger] m.contains_key(k) && k != l ==> if ord(k) < ord(l) { ord(m[k].0) < ord(l) } else { ord(e.0) < ord(k) },
  ensures classes(m.insert(l, e)),
{ reveal(classes); }
/// The class at l is divided at a symbol.
proof fn round_split<S>(cs: Set<S>, m: Classes<S>, w: Work<S>, w1: Work<S>, cur: Vec<(S, S)>, l: S, at: S, a: Vec<(S, S)>, b: Vec<(S, S)>, m2: Classes<S>)
  requires
    state(cs, m, w), taken(w, w1, cur), m.contains_key(l), split(m[l].1@, at, a@, b@), cs.contains(at), ord(l) < ord(at) <= ord(m[l].0),
    m2 == m.insert(l, (a@.last().1, a)).insert(b@[0].0, (b@.last().1, b)),
  ensures round(cs, m, w, m2, w1.push(cur)), a@.len() > 0, b@.len() > 0,
{
  take_one(cs, m, w, w1, cur);
  let p0 = m[l].1@;
  let w2 = w1.push(cur);
  assert(entry(l, m[l]) && classes(m) && cutq(cs, p0) && cs.finite()) by { reveal(state); reveal(classes); }
  assert(a@.len() > 0 && b@.len() > 0 && sorted(a@) && sorted(b@) && a@[0].0 == l && ord(a@.last().1) < ord(at) && ord(at) <= ord(b@[0].0) && b@.last().1 == m[l].0 && cutq(cs, a@) && cutq(cs, b@)) by { reveal(split); }
  let x = b@[0].0;
  sorted_ends(a@); sorted_ends(b@);
  assert(ord(x) <= ord(m[l].0));
  assert(!m.contains_key(x)) by { reveal(classes); }
  assert(state(cs, m2, w1)) by {
    reveal(classes); reveal(state);
    let m1 = m.insert(l, (a@.last().1, a));
    assert forall|k: S| #[trigger] m.contains_key(k) && k != l implies if ord(k) < ord(l) { ord(m[k].0) < ord(l) } else { ord(m[l].0) < ord(k) } by { if ord(k) == ord(l) { ord_one(k, l); } }
    classes_add(m, l, (a@.last().1, a));
    classes_add(m1, x, (b@.last().1, b));
  }
  state_push(cs, m2, w1, cur);
  assert(m2[l].1@ == a@ && m2.contains_key(l)); assert(m2[x].1@ == b@ && m2.contains_key(x));
  assert(piece(m2, w2, a@)); assert(piece(m2, w2, b@));
  assert(refines(m, w, m2, w2)) by {
    reveal(refines);
    assert forall|p: Seq<(S, S)>| #[trigger] piece(m, w, p) implies covered(m2, w2, p) by {
      if p == cur@ { covered_piece(m2, w2, p); }
      else if p == p0 { covered_two(m2, w2, p, at, a@, b@); }
      else {
        assert(piece(m, w1, p));
        if in_map(m, p) { let k = choose|k: S| #[trigger] m.contains_key(k) && m[k].1@ == p; assert(m2.contains_key(k) && m2[k] == m[k]); assert(in_map(m2, p)); }
        assert(piece(m2, w1, p));
        covered_piece(m2, w2, p);
      }
    }
  }
  assert(cs.contains(x)) by { reveal(cutq); }
  room_less(cs, m, m2, x);
  assert(w2.len() == w.len());
}
/// cur is divided at a symbol behind its start.
proof fn round_cut<S>(cs: Set<S>, m: Classes<S>, w: Work<S>, w1: Work<S>, cur: Vec<(S, S)>, at: S, a: Vec<(S, S)>, b: Vec<(S, S)>)
  requires state(cs, m, w), taken(w, w1, cur), split(cur@, at, a@, b@), cs.contains(at), ord(cur@[0].0) < ord(at) <= ord(cur@.last().1),
  ensures round(cs, m, w, m, w1.push(a).push(b)), a@.len() > 0, b@.len() > 0,
{
  take_one(cs, m, w, w1, cur);
  let w2 = w1.push(a).push(b);
  assert(a@.len() > 0 && b@.len() > 0 && sorted(a@) && sorted(b@) && a@[0].0 == cur@[0].0 && ord(a@.last().1) < ord(at) && ord(at) <= ord(b@[0].0) && b@.last().1 == cur@.last().1 && cutq(cs, a@) && cutq(cs, b@)) by { reveal(split); }
  state_push(cs, m, w1, a); state_push(cs, m, w1.push(a), b);
  assert(refines(m, w, m, w2)) by {
    reveal(refines);
    assert forall|p: Seq<(S, S)>| #[trigger] piece(m, w, p) implies covered(m, w2, p) by {
      if p == cur@ { assert(piece(m, w1.push(a), a@)); assert(piece(m, w2, a@)); assert(piece(m, w2, b@)); covered_two(m, w2, p, at, a@, b@); }
      else { assert(piece(m, w1, p)); assert(piece(m, w1.push(a), p)); covered_piece(m, w2, p); }
    }
  }
  sorted_ends(a@); sorted_ends(b@);
  assert(cs.finite()) by { reveal(state); }
  weight_two(cs, cur@, a@, b@);
  total_pos(cs, m, w2);
}
/// cur becomes a class, up to the next one; the rest stays.
proof fn round_put<S>(cs: Set<S>, m: Classes<S>, w: Work<S>, w1: Work<S>, cur: Vec<(S, S)>, at: S, a: Vec<(S, S)>, b: Vec<(S, S)>, m2: Classes<S>)
  requires
    state(cs, m, w), taken(w, w1, cur), split(cur@, at, a@, b@), m.contains_key(at), ord(cur@[0].0) < ord(at) <= ord(cur@.last().1),
    forall|k: S| #[trigger] m.contains_key(k) ==> if ord(k) <= ord(cur@[0].0) { ord(m[k].0) < ord(cur@[0].0) } else { ord(k) >= ord(at) },
    m2 == m.insert(cur@[0].0, (a@.last().1, a)),
  ensures round(cs, m, w, m2, w1.push(b)), a@.len() > 0, b@.len() > 0,
{
  take_one(cs, m, w, w1, cur);
  let w2 = w1.push(b); let l = cur@[0].0;
  assert(entry(at, m[at]) && classes(m) && cutq(cs, m[at].1@) && cs.finite()) by { reveal(state); reveal(classes); }
  assert(cs.contains(at)) by { reveal(cutq); assert(cs.contains(m[at].1@[0].0)); }
  assert(a@.len() > 0 && b@.len() > 0 && sorted(a@) && sorted(b@) && a@[0].0 == l && ord(a@.last().1) < ord(at) && ord(at) <= ord(b@[0].0) && b@.last().1 == cur@.last().1 && cutq(cs, a@) && cutq(cs, b@)) by { reveal(split); }
  assert forall|k: S| #[trigger] m.contains_key(k) implies k != l && ord(k) != ord(l) by { reveal(classes); assert(entry(k, m[k])); sorted_ends(m[k].1@); if ord(k) == ord(l) { ord_one(k, l); } }
  assert(state(cs, m2, w1)) by {
    assert forall|k: S| #[trigger] m.contains_key(k) && k != l implies if ord(k) < ord(l) { ord(m[k].0) < ord(l) } else { ord(a@.last().1) < ord(k) } by { assert(ord(k) != ord(l)); }
    classes_add(m, l, (a@.last().1, a));
    reveal(state);
  }
  state_push(cs, m2, w1, b);
  assert(m2.contains_key(l) && m2[l].1@ == a@);
  assert(piece(m2, w2, a@)); 
  assert(refines(m, w, m2, w2)) by {
    reveal(refines);
    assert forall|p: Seq<(S, S)>| #[trigger] piece(m, w, p) implies covered(m2, w2, p) by {
      if p == cur@ { covered_two(m2, w2, p, at, a@, b@); }
      else {
        assert(piece(m, w1, p));
        if in_map(m, p) { let k = choose|k: S| #[trigger] m.contains_key(k) && m[k].1@ == p; assert(m2.contains_key(k) && m2[k] == m[k]); assert(in_map(m2, p)); }
        assert(piece(m2, w1, p));
        covered_piece(m2, w2, p);
      }
    }
  }
  sorted_ends(b@); sorted_ends(cur@);
  assert(cs.contains(l)) by { reveal(cutq); }
  weight_less(cs, cur@, b@);
  total_pos(cs, m2, w2);
}
/// cur becomes a class.
proof fn round_add<S>(cs: Set<S>, m: Classes<S>, w: Work<S>, w1: Work<S>, cur: Vec<(S, S)>, m2: Classes<S>)
  requires
    state(cs, m, w), taken(w, w1, cur),
    forall|k: S| #[trigger] m.contains_key(k) ==> if ord(k) <= ord(cur@[0].0) { ord(m[k].0) < ord(cur@[0].0) } else { ord(k) > ord(cur@.last().1) },
    m2 == m.insert(cur@[0].0, (cur@.last().1, cur)),
  ensures round(cs, m, w, m2, w1),
{
  take_one(cs, m, w, w1, cur);
  let l = cur@[0].0;
  assert(classes(m) && cs.finite()) by { reveal(state); }
  assert forall|k: S| #[trigger] m.contains_key(k) implies k != l && ord(k) != ord(l) by { reveal(classes); assert(entry(k, m[k])); sorted_ends(m[k].1@); if ord(k) == ord(l) { ord_one(k, l); } }
  assert(state(cs, m2, w1)) by {
    classes_add(m, l, (cur@.last().1, cur));
    reveal(state);
  }
  assert(m2.contains_key(l) && m2[l].1@ == cur@);
  assert(refines(m, w, m2, w1)) by {
    reveal(refines);
    assert forall|p: Seq<(S, S)>| #[trigger] piece(m, w, p) implies covered(m2, w1, p) by {
      if p == cur@ { assert(in_map(m2, p)); }
      else if in_map(m, p) { let k = choose|k: S| #[trigger] m.contains_key(k) && m[k].1@ == p; assert(m2.contains_key(k) && m2[k] == m[k]); assert(in_map(m2, p)); }
      assert(piece(m2, w1, p));
      covered_piece(m2, w1, p);
    }
  }
}
/// m2 has the single ranges of q besides m.
pub open spec fn with_singles<S>(m: Classes<S>, q: Seq<(S, S)>, m2: Classes<S>) -> bool {
  &&& forall|j: int| 0 <= j < q.len() ==> m2.contains_key((#[trigger] q[j]).0) && m2[q[j].0].0 == q[j].1 && m2[q[j].0].1@ == seq![q[j]]
  &&& forall|k: S| #[trigger] m.contains_key(k) ==> m2.contains_key(k) && ((forall|j: int| 0 <= j < q.len() ==> (#[trigger] q[j]).0 != k) ==> m2[k] == m[k])
  &&& forall|k: S| #[trigger] m2.contains_key(k) ==> m.contains_key(k) || exists|j: int| 0 <= j < q.len() && (#[trigger] q[j]).0 == k
}
proof fn with_one<S>(m: Classes<S>, q: Seq<(S, S)>, m2: Classes<S>, r: (S, S), v: Vec<(S, S)>)
  requires with_singles(m, q, m2), v@ == seq![r], forall|j: int| 0 <= j < q.len() ==> ord((#[trigger] q[j]).0) < ord(r.0),
  ensures with_singles(m, q.push(r), m2.insert(r.0, (r.1, v))),
{
  let q2 = q.push(r); let m3 = m2.insert(r.0, (r.1, v));
  assert forall|j: int| 0 <= j < q2.len() implies m3.contains_key((#[trigger] q2[j]).0) && m3[q2[j].0].0 == q2[j].1 && m3[q2[j].0].1@ == seq![q2[j]] by { if j < q.len() { assert(q2[j] == q[j]); } }
  assert forall|k: S| #[trigger] m.contains_key(k) implies m3.contains_key(k) && ((forall|j: int| 0 <= j < q2.len() ==> (#[trigger] q2[j]).0 != k) ==> m3[k] == m[k]) by {
    if forall|j: int| 0 <= j < q2.len() ==> (#[trigger] q2[j]).0 != k { assert forall|j: int| 0 <= j < q.len() implies (#[trigger] q[j]).0 != k by { assert(q2[j].0 != k); } assert(q2[q.len() as int].0 != k); }
  }
  assert forall|k: S| #[trigger] m3.contains_key(k) implies m.contains_key(k) || exists|j: int| 0 <= j < q2.len() && (#[trigger] q2[j]).0 == k by {
    if k == r.0 { assert(q2[q.len() as int].0 == k); } else if !m.contains_key(k) { let j = choose|j: int| 0 <= j < q.len() && (#[trigger] q[j]).0 == k; assert(q2[j].0 == k); }
  }
}
/// The single ranges of cur as work.
pub open spec fn work_singles<S>(cs: Set<S>, w1: Work<S>, q: Seq<(S, S)>, w2: Work<S>) -> bool {
  &&& w2.len() == w1.len() + q.len()
  &&& forall|j: int| 0 <= j < w1.len() ==> #[trigger] w2[j] == w1[j]
  &&& forall|j: int| 0 <= j < q.len() ==> (#[trigger] w2[w1.len() + j])@ == seq![q[j]]
  &&& total(cs, w2) == total(cs, w1) + singles(cs, q)
}
proof fn work_one<S>(cs: Set<S>, w1: Work<S>, q: Seq<(S, S)>, w2: Work<S>, r: (S, S), v: Vec<(S, S)>)
  requires work_singles(cs, w1, q, w2), v@ == seq![r],
  ensures work_singles(cs, w1, q.push(r), w2.push(v)),
{
  total_push(cs, w2, v);
  assert(q.push(r).drop_last() =~= q);
  let w3 = w2.push(v); let q3 = q.push(r);
  assert forall|j: int| 0 <= j < q3.len() implies (#[trigger] w3[w1.len() + j])@ == seq![q3[j]] by { if j < q.len() { assert(w2[w1.len() + j]@ == seq![q[j]]); } }
  assert(total(cs, w3) == total(cs, w1) + singles(cs, q3));
}
proof fn single_ok<S>(cs: Set<S>, q: Seq<(S, S)>, j: int)
  requires sorted(q), cutq(cs, q), 0 <= j < q.len(),
  ensures sorted(seq![q[j]]), cutq(cs, seq![q[j]]), seq![q[j]].last() == q[j],
{ reveal(cutq); assert(ord(q[j].0) <= ord(q[j].1)); assert(cs.contains(q[j].0)); }
/// The class at l and cur have the same ends; both are divided into their ranges.
proof fn round_shatter<S>(cs: Set<S>, m: Classes<S>, w: Work<S>, w1: Work<S>, cur: Vec<(S, S)>, l: S, v: Vec<(S, S)>, m2: Classes<S>, w2: Work<S>)
  requires
    state(cs, m, w), taken(w, w1, cur), m.contains_key(l), cur@[0].0 == l, cur@.last().1 == m[l].0, cur@ != m[l].1@,
    v@ == seq![m[l].1@[0]], with_singles(m.insert(l, (m[l].1@[0].1, v)), m[l].1@.skip(1), m2), work_singles(cs, w1, cur@, w2),
  ensures round(cs, m, w, m2, w2),
{
  take_one(cs, m, w, w1, cur);
  let p0 = m[l].1@; let rest = p0.skip(1); let m1 = m.insert(l, (p0[0].1, v));
  assert(entry(l, m[l]) && classes(m) && cutq(cs, p0) && cs.finite()) by { reveal(state); reveal(classes); }
  sorted_ends(p0); sorted_ends(cur@);
  assert forall|j: int| 0 <= j < rest.len() implies ord(p0[0].1) < ord((#[trigger] rest[j]).0) && rest[j] == p0[j + 1] by { assert(ord(p0[0].1) < ord(p0[j + 1].0)); }
  assert(forall|j: int| 0 <= j < rest.len() ==> (#[trigger] rest[j]).0 != l) by { assert(ord(p0[0].0) <= ord(p0[0].1)); }
  // the pieces of the class
  assert forall|j: int| 0 <= j < p0.len() implies m2.contains_key((#[trigger] p0[j]).0) && m2[p0[j].0].1@ == seq![p0[j]] && m2[p0[j].0].0 == p0[j].1 by {
    if j > 0 { assert(rest[j - 1] == p0[j]); } else { assert(m1.contains_key(l)); assert(m2[l] == m1[l]); }
  }
  assert forall|k: S| #[trigger] m.contains_key(k) && k != l implies m2.contains_key(k) && m2[k] == m[k] && if ord(k) < ord(l) { ord(m[k].0) < ord(l) } else { ord(m[l].0) < ord(k) } by {
    if ord(k) == ord(l) { ord_one(k, l); }
    assert(if ord(k) < ord(l) { ord(m[k].0) < ord(l) } else { ord(m[l].0) < ord(k) }) by { reveal(classes); }
    assert(ord(k) <= ord(m[k].0)) by { reveal(classes); assert(entry(k, m[k])); sorted_ends(m[k].1@); }
    assert(m1.contains_key(k));
    assert forall|j: int| 0 <= j < rest.len() implies (#[trigger] rest[j]).0 != k by { assert(rest[j] == p0[j + 1]); }
  }
  assert forall|k: S| #[trigger] m2.contains_key(k) && !(m.contains_key(k) && k != l) implies exists|j: int| 0 <= j < p0.len() && (#[trigger] p0[j]).0 == k by {
    if k == l { assert(p0[0].0 == k); } else { assert(!m1.contains_key(k)); let j = choose|j: int| 0 <= j < rest.len() && (#[trigger] rest[j]).0 == k; assert(p0[j + 1].0 == k); }
  }
  assert(classes(m2) && forall|k: S| #[trigger] m2.contains_key(k) ==> cutq(cs, m2[k].1@)) by {
    assert forall|k: S| #[trigger] m2.contains_key(k) implies entry(k, m2[k]) && cutq(cs, m2[k].1@) by {
      if m.contains_key(k) && k != l { reveal(classes); reveal(state); } else { let j = choose|j: int| 0 <= j < p0.len() && (#[trigger] p0[j]).0 == k; single_ok(cs, p0, j); }
    }
    assert forall|a: S, b: S| #[trigger] m2.contains_key(a) && #[trigger] m2.contains_key(b) && ord(a) < ord(b) implies ord(m2[a].0) < ord(b) by {
      let x = m.contains_key(a) && a != l; let y = m.contains_key(b) && b != l;
      if x && y { reveal(classes); }
      else if x { let j = choose|j: int| 0 <= j < p0.len() && (#[trigger] p0[j]).0 == b; }
      else if y { let i = choose|i: int| 0 <= i < p0.len() && (#[trigger] p0[i]).0 == a; }
      else {
        let i = choose|i: int| 0 <= i < p0.len() && (#[trigger] p0[i]).0 == a; let j = choose|j: int| 0 <= j < p0.len() && (#[trigger] p0[j]).0 == b;
        if j < i { assert(ord(p0[j].1) < ord(p0[i].0)); assert(ord(p0[j].0) <= ord(p0[j].1)); }
      }
    }
    reveal(classes);
  }
  assert(state(cs, m2, w2)) by {
    reveal(state);
    assert forall|j: int| 0 <= j < w2.len() implies sorted((#[trigger] w2[j])@) && cutq(cs, w2[j]@) by {
      if j < w1.len() { assert(w2[j] == w1[j]); } else { let i = j - w1.len(); assert(w2[w1.len() + i]@ == seq![cur@[i]]); single_ok(cs, cur@, i); }
    }
  }
  assert(refines(m, w, m2, w2)) by {
    reveal(refines);
    assert forall|p: Seq<(S, S)>| #[trigger] piece(m, w, p) implies covered(m2, w2, p) by {
      if p == cur@ {
        assert forall|i: int| 0 <= i < p.len() implies piece(m2, w2, seq![#[trigger] p[i]]) by { assert(w2[w1.len() + i]@ == seq![p[i]]); assert(in_work(w2, seq![p[i]])); }
        covered_singles(m2, w2, p);
      } else if p == p0 {
        assert forall|i: int| 0 <= i < p.len() implies piece(m2, w2, seq![#[trigger] p[i]]) by { assert(m2.contains_key(p[i].0)); assert(in_map(m2, seq![p[i]])); }
        covered_singles(m2, w2, p);
      } else {
        if in_map(m, p) { let k = choose|k: S| #[trigger] m.contains_key(k) && m[k].1@ == p; assert(k != l); assert(m2.contains_key(k) && m2[k] == m[k]); assert(in_map(m2, p)); }
        else { assert(piece(m, w1, p)); let j = choose|j: int| 0 <= j < w1.len() && (#[trigger] w1[j])@ == p; assert(w2[j] == w1[j]); assert(in_work(w2, p)); }
        covered_piece(m2, w2, p);
      }
    }
  }
  singles_less(cs, cur@);
  total_pos(cs, m2, w2);
  if cur@.len() == 1 {
    if p0.len() == 1 { assert(p0 =~= cur@); }
    let x = p0[1].0;
    assert(rest[0] == p0[1]);
    assert(!m.contains_key(x)) by { if m.contains_key(x) { assert(ord(p0[0].1) < ord(p0[1].0)); assert(x != l); } }
    assert(cs.contains(x)) by { reveal(cutq); }
    assert(m2.contains_key(p0[1].0));
    assert forall|k: S| #[trigger] m.contains_key(k) implies m2.contains_key(k) by { if k == l { assert(m2.contains_key(p0[0].0)); } }
    room_less(cs, m, m2, x);
  }
}
/// The starts and what follows the ends, as a set.
pub open spec fn nexts<S>(e: S) -> Set<S> { if exists|x: S| #[trigger] is_next(e, Some(x)) { set![choose|x: S| #[trigger] is_next(e, Some(x))] } else { set![] } }
proof fn nexts_is<S>(e: S)
  ensures forall|x: S| #[trigger] is_next(e, Some(x)) ==> nexts(e).contains(x),
{
  assert forall|x: S| #[trigger] is_next(e, Some(x)) implies nexts(e).contains(x) by {
    let y = choose|y: S| #[trigger] is_next(e, Some(y));
    assert(!(ord(e) < ord(x) < ord(y))); assert(!(ord(e) < ord(y) < ord(x)));
    ord_one(x, y);
  }
}
pub open spec fn cutsq<S>(q: Seq<(S, S)>) -> Set<S> decreases q.len() { if q.len() == 0 { set![] } else { cutsq(q.drop_last()).insert(q.last().0).union(nexts(q.last().1)) } }
proof fn cutsq_is<S>(q: Seq<(S, S)>)
  ensures forall|cs: Set<S>| cutsq(q).subset_of(cs) ==> #[trigger] cutq(cs, q),
  decreases q.len(),
{
  reveal(cutq);
  if q.len() > 0 {
    cutsq_is(q.drop_last());
    nexts_is(q.last().1);
    assert forall|cs: Set<S>| cutsq(q).subset_of(cs) implies #[trigger] cutq(cs, q) by {
      let a = q.drop_last();
      assert(cutsq(a).subset_of(cs));
      assert(cutq(cs, a));
      assert forall|i: int| 0 <= i < q.len() implies cs.contains((#[trigger] q[i]).0) && forall|x: S| #[trigger] is_next(q[i].1, Some(x)) ==> cs.contains(x) by {
        if i < a.len() { assert(a[i] == q[i]); } else {
          assert(cutsq(q).contains(q.last().0));
          assert forall|x: S| #[trigger] is_next(q[i].1, Some(x)) implies cs.contains(x) by { assert(nexts(q.last().1).contains(x)); assert(cutsq(q).contains(x)); }
        }
      }
    }
  }
}
pub open spec fn cutsw<S>(w: Work<S>) -> Set<S> decreases w.len() { if w.len() == 0 { set![] } else { cutsw(w.drop_last()).union(cutsq(w.last()@)) } }
proof fn cutsw_is<S>(w: Work<S>)
  ensures forall|cs: Set<S>, j: int| cutsw(w).subset_of(cs) && 0 <= j < w.len() ==> #[trigger] cutq(cs, w[j]@),
  decreases w.len(),
{
  if w.len() > 0 {
    let v = w.drop_last();
    cutsw_is(v);
    cutsq_is(w.last()@);
    assert forall|cs: Set<S>, j: int| cutsw(w).subset_of(cs) && 0 <= j < w.len() implies #[trigger] cutq(cs, w[j]@) by {
      assert(cutsw(v).subset_of(cs)) by { assert forall|x: S| cutsw(v).contains(x) implies cs.contains(x) by { assert(cutsw(w).contains(x)); } }
      assert(cutsq(w.last()@).subset_of(cs)) by { assert forall|x: S| cutsq(w.last()@).contains(x) implies cs.contains(x) by { assert(cutsw(w).contains(x)); } }
      if j < v.len() { assert(cutq(cs, v[j]@)); }
    }
  }
}
proof fn state_first<S>(w: Work<S>)
  requires forall|j: int| 0 <= j < w.len() ==> sorted((#[trigger] w[j])@),
  ensures state(cutsw(w), Map::<S, (S, Vec<(S, S)>)>::empty(), w),
{
  reveal(state); reveal(classes);
  cutsw_is(w);
}
/// Every range list of the expression is covered.
#[verifier::opaque]
pub open spec fn all_covered<S, T>(x: Mir<S, T>, m: Classes<S>, w: Work<S>) -> bool { forall|k: Vec<(S, S)>| #[trigger] has_range(x, k) ==> covered(m, w, k@) }
proof fn all_round<S, T>(x: Mir<S, T>, cs: Set<S>, m: Classes<S>, w: Work<S>, m2: Classes<S>, w2: Work<S>)
  requires all_covered(x, m, w), round(cs, m, w, m2, w2),
  ensures all_covered(x, m2, w2),
{
  reveal(all_covered);
  assert forall|k: Vec<(S, S)>| #[trigger] has_range(x, k) implies covered(m2, w2, k@) by { covered_refines(m, w, m2, w2, k@); }
}
proof fn all_first<S, T>(x: Mir<S, T>, s: Set<Vec<(S, S)>>, w: Work<S>)
  requires members(w, s), normal(x), forall|k: Vec<(S, S)>| #[trigger] s.contains(k) == has_range(x, k),
  ensures all_covered(x, Map::<S, (S, Vec<(S, S)>)>::empty(), w), forall|j: int| 0 <= j < w.len() ==> sorted((#[trigger] w[j])@),
{
  reveal(all_covered);
  let m = Map::<S, (S, Vec<(S, S)>)>::empty();
  assert forall|k: Vec<(S, S)>| #[trigger] has_range(x, k) implies covered(m, w, k@) by { assert(s.contains(k)); let j = choose|j: int| 0 <= j < w.len() && w[j] == k; assert(in_work(w, k@)); covered_piece(m, w, k@); }
  assert forall|j: int| 0 <= j < w.len() implies sorted((#[trigger] w[j])@) by { assert(s.contains(w[j])); assert(has_range(x, w[j])); }
}
/// Every symbol of p lies in a class inside of p.
#[verifier::opaque]
pub open spec fn classed<S>(m: Classes<S>, p: Seq<(S, S)>) -> bool { forall|c: S| #[trigger] within(p, c) ==> exists|l: S| #[trigger] m.contains_key(l) && within(m[l].1@, c) && sub(m[l].1@, p) }
pub open spec fn all_classed<S, T>(x: Mir<S, T>, m: Classes<S>) -> bool { forall|k: Vec<(S, S)>| #[trigger] has_range(x, k) ==> classed(m, k@) }
proof fn all_done<S, T>(x: Mir<S, T>, m: Classes<S>, w: Work<S>)
  requires all_covered(x, m, w), w.len() == 0,
  ensures all_classed(x, m),
{
  reveal(all_covered); reveal(covered); reveal(classed);
  assert forall|k: Vec<(S, S)>| #[trigger] has_range(x, k) implies classed(m, k@) by {
    assert(covered(m, w, k@));
    assert forall|c: S| #[trigger] within(k@, c) implies exists|l: S| #[trigger] m.contains_key(l) && within(m[l].1@, c) && sub(m[l].1@, k@) by {
      let q = choose|q: Seq<(S, S)>| #[trigger] piece(m, w, q) && within(q, c) && sub(q, k@);
      let l = choose|l: S| #[trigger] m.contains_key(l) && m[l].1@ == q;
      assert(within(m[l].1@, c) && sub(m[l].1@, k@));
    }
  }
}
proof fn found<S>(cs: Set<S>, m: Classes<S>, w: Work<S>, l: S)
  requires state(cs, m, w), m.contains_key(l),
  ensures
    entry(l, m[l]), m[l].1@.len() > 0, ord(l) <= ord(m[l].0), cs.contains(l), forall|x: S| #[trigger] is_next(m[l].0, Some(x)) ==> cs.contains(x),
    forall|k: S| #[trigger] m.contains_key(k) && ord(k) < ord(l) ==> ord(m[k].0) < ord(l),
{ reveal(state); reveal(classes); sorted_ends(m[l].1@); reveal(cutq); assert(cs.contains(m[l].1@[0].0)); }
proof fn taken_ends<S>(cs: Set<S>, q: Seq<(S, S)>)
  requires sorted(q), cutq(cs, q),
  ensures ord(q[0].0) <= ord(q.last().1), cs.contains(q[0].0), forall|x: S| #[trigger] is_next(q.last().1, Some(x)) ==> cs.contains(x),
{ sorted_ends(q); reveal(cutq); }
proof fn split_len<S>(p: Seq<(S, S)>, at: S, a: Seq<(S, S)>, b: Seq<(S, S)>)
  requires split(p, at, a, b),
  ensures (a.len() > 0) == (ord(p[0].0) < ord(at)), (b.len() > 0) == (ord(p.last().1) >= ord(at)),
{ reveal(split); }
//@ rewrite heap as a heap with its contract :: let mut symbols: BinaryHeap<_> = self.collect_symbols().into_iter().map(Reverse).collect(); ==> let o_ = self.collect_symbols(); let ghost o0 = o_@; let mut symbols = Heap::of_(o_);
//@ rewrite type of a value :: let mut ranges = BTreeMap::new(); ==> let mut ranges: BTreeMap<S, (S, Vec<(S, S)>)> = BTreeMap::new();
//@ rewrite while let to while :: while let Some(Reverse(cur_rs)) = symbols.pop() { $s_b } ==> while symbols.len() > 0 { let cur_rs = symbols.pop_(); $s_b }
//@ rewrite references to lists :: Self::endpoints_of(&$e) ==> Self::endpoints_of($e.as_slice())
//@ rewrite comparison to a function with its contract :: &*r < left ==> lt_(&*r, left)
//@ rewrite comparison to a function with its contract :: &*r < right ==> lt_(&*r, right)
//@ rewrite comparison to a function with its contract :: &*r > right ==> lt_(right, &*r)
//@ rewrite comparison to a function with its contract :: l < left ==> lt_(l, left)
//@ rewrite comparison to a function with its contract :: l <= right ==> le_(l, right)
//@ rewrite comparison to a function with its contract :: r == right ==> same_(&*r, right)
//@ rewrite comparison to a function with its contract :: rs != &cur_rs ==> !same_(&*rs, &cur_rs)
//@ rewrite mem::take :: mem::take(rs) ==> take_(rs)
//@ rewrite iterator adapters to loops :: let mut iter = take_(rs).into_iter(); let first = iter.next().unwrap(); ==> let (first, rest_) = uncons_(take_(rs));
//@ rewrite iterator adapters to loops :: ranges.extend(iter.map(|r| (r.0.clone(), (r.1.clone(), vec![r])))); ==> for r in rest_ { let v_ = (clone_(&r.0), (clone_(&r.1), vec![r])); ranges.insert(v_.0, v_.1); }
//@ rewrite iterator adapters to loops :: symbols.extend(cur_rs.into_iter().map(|r| Reverse($e))); ==> for r in cur_rs { let v_ = $e; symbols.push(v_); }
//@ rewrite clone to a function with its contract :: first.1.clone() ==> clone_(&first.1)
//@ rewrite clone to a function with its contract :: Self::endpoints_of(lefts.as_slice()).1.clone() ==> clone_(Self::endpoints_of(lefts.as_slice()).1)
//@ rewrite clone to a function with its contract :: l.clone() ==> clone_(l)
//@ rewrite clone to a function with its contract :: r.clone() ==> clone_(r)
//@ rewrite clone to a function with its contract :: left.clone() ==> clone_(left)
//@ rewrite clone to a function with its contract :: right.clone() ==> clone_(right)
//@ rewrite order of the heap, left open :: symbols.push(Reverse($e)) ==> symbols.push($e)
//@ rewrite search in a map to a function with its contract :: ranges.range(&left_next..).next() ==> ranges.first_from_(&left_next)
//@ rewrite guarded arms to if and else :: match ranges.range_mut(..=left).next_back() { None => {} Some((_, (r, _))) if $a => {} Some((l, (r, rs))) if $b => { $s_b } Some((_, (r, rs))) if $c => { $s_c } Some((_, (r, _))) if $d => continue, Some((_, (r, _))) if $e => { $s_e } _ => unreachable!()$o_c } ==> let f_ = ranges.last_upto_(left); match f_ { None => {} Some(g_) => { let (l, e_) = g_; let (r, rs) = e_; if $a { let d_ = (); } else if $b { $s_b } else if $c { $s_c } else if $d { let c_ = (); continue; } else if $e { $s_e } else { unreached::<()>() } } }
//@ item laps_regex/src/mir.rs impl Mir#1
//@ drop optimize normalize_ranges collect_symbols endpoints_of split_ranges ranges_contains into_triple rebuild opt_without_rebuild optimize_concat optimize_alter optimize_kleene
//@ fn symbol_set
    requires normal(*self),
    ensures classes(r@), all_classed(*self, r@),
//@ entry
    broadcast use ve::vec_ext;
//@ after let mut ranges: BTreeMap<S, (S, Vec<(S, S)>)> = BTreeMap::new();
    let ghost cs = cutsw(symbols@);
    proof { all_first(*self, o0, symbols@); state_first(symbols@); }
//@ loop 0
    invariant state(cs, ranges@, symbols@), all_covered(*self, ranges@, symbols@),
    decreases total(cs, symbols@), room(cs, ranges@),
//@ loopbody 0
    let ghost m0 = ranges@; let ghost w0 = symbols@;
//@ after let cur_rs = symbols.pop_();
    let ghost w1 = symbols@; let ghost cur = cur_rs;
    proof { assert(taken(w0, w1, cur)); take_one(cs, m0, w0, w1, cur); taken_ends(cs, cur@); }
//@ after let (l, e_) = g_;
    let ghost l0 = *l; let ghost p0 = m0[l0].1@;
    proof { found(cs, m0, w0, l0); if ord(l0) == ord(cur@[0].0) { ord_one(l0, cur@[0].0); } if ord(m0[l0].0) == ord(cur@.last().1) { ord_one(m0[l0].0, cur@.last().1); } if cur@ == p0 { ve::vec_ext(cur, m0[l0].1); } }
//@ after let (lefts, rights) = if lt_(l, left) { $s_a } else { $s_b };
    let ghost at = if ord(l0) < ord(cur@[0].0) { cur@[0].0 } else { choose|x: S| #[trigger] is_next(cur@.last().1, Some(x)) && split(p0, x, lefts@, rights@) };
    proof {
      assert(split(p0, at, lefts@, rights@));
      assert(ord(l0) < ord(at) <= ord(m0[l0].0)) by { if ord(l0) >= ord(cur@[0].0) { assert(!(ord(cur@.last().1) < ord(m0[l0].0) < ord(at))); } }
      split_len(p0, at, lefts@, rights@);
    }
//@ after symbols.push(cur_rs);
    proof {
      round_split(cs, m0, w0, w1, cur, l0, at, lefts, rights, ranges@);
      all_round(*self, cs, m0, w0, ranges@, symbols@);
    }
//@ after *rs = vec![first];
    let ghost m1 = ranges@; let ghost rest = rest_@;
    proof { assert(m1 == m0.insert(l0, (p0[0].1, m1[l0].1))); assert(m1[l0].1@ =~= seq![p0[0]]); assert(rest.take(0) =~= Seq::<(S, S)>::empty()); }
//@ loop 1
    invariant it1.seq() == rest, sorted(p0), rest == p0.skip(1), with_singles(m1, rest.take(it1.index()), ranges@),
//@ loopbody 1
    let ghost i = it1.index(); let ghost m2 = ranges@; let ghost r0 = r;
//@ loopend 1
    proof {
      assert(rest.take(i + 1) =~= rest.take(i).push(r0));
      assert(r0 == p0[i + 1]);
      assert forall|j: int| 0 <= j < i implies ord((#[trigger] rest.take(i)[j]).0) < ord(r0.0) by { assert(rest.take(i)[j] == p0[j + 1]); assert(ord(p0[j + 1].1) < ord(p0[i + 1].0)); assert(ord(p0[j + 1].0) <= ord(p0[j + 1].1)); }
      let v = ranges@[r0.0].1;
      assert(v@ =~= seq![r0]);
      with_one(m1, rest.take(i), m2, r0, v);
    }
//@ after for r in rest_ { $s_b }
    proof { assert(rest.take(rest.len() as int) =~= rest); assert(cur@.take(0) =~= Seq::<(S, S)>::empty()); assert(work_singles(cs, w1, cur@.take(0), symbols@)); }
//@ loop 2
    invariant it2.seq() == cur@, work_singles(cs, w1, cur@.take(it2.index()), symbols@),
//@ loopbody 2
    let ghost i = it2.index(); let ghost w2 = symbols@; let ghost r0 = r;
//@ loopend 2
    proof {
      assert(cur@.take(i + 1) =~= cur@.take(i).push(r0));
      let v = symbols@.last();
      assert(v@ =~= seq![r0]);
      assert(symbols@ =~= w2.push(v));
      work_one(cs, w1, cur@.take(i), w2, r0, v);
    }
//@ after for r in cur_rs { $s_b }
    proof {
      assert(cur@.take(cur@.len() as int) =~= cur@);
      round_shatter(cs, m0, w0, w1, cur, l0, m1[l0].1, ranges@, symbols@);
      all_round(*self, cs, m0, w0, ranges@, symbols@);
    }
//@ after let c_ = ();
    proof {
      assert(ranges@ =~= m0);
      round_drop(cs, m0, w0, w1, cur, l0);
      all_round(*self, cs, m0, w0, ranges@, symbols@);
    }
//@ after let (lefts, rights) = Self::split_ranges(cur_rs, &r.next().unwrap());
    proof {
      let at = choose|x: S| #[trigger] is_next(m0[l0].0, Some(x)) && split(cur@, x, lefts@, rights@);
      assert(!(ord(m0[l0].0) < ord(cur@.last().1) < ord(at)));
      round_cut(cs, m0, w0, w1, cur, at, lefts, rights);
    }
//@ after if !rights.is_empty() { $s_b }
    proof {
      assert(ranges@ =~= m0);
      all_round(*self, cs, m0, w0, ranges@, symbols@);
    }
//@ after let d_ = ();
    proof { assert forall|k: S| #[trigger] m0.contains_key(k) && ord(k) <= ord(cur@[0].0) implies ord(m0[k].0) < ord(cur@[0].0) by { if ord(k) == ord(l0) { ord_one(k, l0); } } }
//@ after match f_ { $s_b }
    proof { assert(ranges@ =~= m0); }
//@ after let (lefts, rights) = Self::split_ranges(cur_rs, l);
    proof { split_len(cur@, *l, lefts@, rights@); }
//@ after ranges.insert(left, $e);
    proof {
      round_put(cs, m0, w0, w1, cur, *l, lefts, rights, ranges@);
      all_round(*self, cs, m0, w0, ranges@, symbols@.push(rights));
    }
//@ after ranges.insert(clone_(left), $e);
    proof {
      round_add(cs, m0, w0, w1, cur, ranges@);
      all_round(*self, cs, m0, w0, ranges@, symbols@);
    }
//@ after while symbols.len() > 0 { $s_b }
    proof { all_done(*self, ranges@, symbols@); reveal(state); }
//@ end
