// ------------------------------------------------------------ what a nondeterministic automaton reads
pub type Trace<K> = Seq<(Option<K>, usize)>;
pub open spec fn link<K: Eq + Hash>(f: MultiFA<Option<K>>, p: usize, k: Option<K>, q: usize) -> bool { f.states@.contains_key(p) && f.states@[p].to(k, q) }
pub open spec fn src<K>(p: usize, w: Trace<K>, i: int) -> usize { if i <= 0 { p } else { w[i - 1].1 } }
pub open spec fn dst<K>(p: usize, w: Trace<K>) -> usize { src(p, w, w.len() as int) }
pub open spec fn walk<K: Eq + Hash>(f: MultiFA<Option<K>>, p: usize, w: Trace<K>) -> bool { forall|i: int| 0 <= i < w.len() ==> link(f, src(p, w, i), (#[trigger] w[i]).0, w[i].1) }
pub open spec fn word<K>(w: Trace<K>) -> Seq<K> decreases w.len() {
  if w.len() == 0 { Seq::empty() } else { match w.last().0 { Some(k) => word(w.drop_last()).push(k), None => word(w.drop_last()) } }
}
/// Reading the keys of u leads from p to q.
#[verifier::opaque]
pub open spec fn reads<K: Eq + Hash>(f: MultiFA<Option<K>>, p: usize, u: Seq<K>, q: usize) -> bool { exists|w: Trace<K>| #[trigger] walk(f, p, w) && word(w) == u && dst(p, w) == q }
pub open spec fn more<K>(u: Seq<K>, k: Option<K>) -> Seq<K> { match k { Some(k) => u.push(k), None => u } }
pub proof fn reads_nil<K: Eq + Hash>(f: MultiFA<Option<K>>, p: usize)
  ensures reads(f, p, Seq::empty(), p),
{ reveal(reads); let w: Trace<K> = Seq::empty(); assert(walk(f, p, w)); }
pub proof fn walk_push<K: Eq + Hash>(f: MultiFA<Option<K>>, p: usize, w: Trace<K>, k: Option<K>, q: usize)
  requires walk(f, p, w), link(f, dst(p, w), k, q),
  ensures walk(f, p, w.push((k, q))), word(w.push((k, q))) == more(word(w), k), dst(p, w.push((k, q))) == q,
{
  let v = w.push((k, q));
  assert(v.drop_last() =~= w);
  assert forall|i: int| 0 <= i < v.len() implies link(f, src(p, v, i), (#[trigger] v[i]).0, v[i].1) by {
    if i < w.len() { assert(w[i] == v[i]); assert(src(p, v, i) == src(p, w, i)); } else { assert(src(p, v, i) == dst(p, w)); }
  }
}
pub proof fn reads_link<K: Eq + Hash>(f: MultiFA<Option<K>>, p: usize, u: Seq<K>, m: usize, k: Option<K>, q: usize)
  requires reads(f, p, u, m), link(f, m, k, q),
  ensures reads(f, p, more(u, k), q),
{
  reveal(reads);
  let w = choose|w: Trace<K>| #[trigger] walk(f, p, w) && word(w) == u && dst(p, w) == m;
  walk_push(f, p, w, k, q);
}
pub proof fn walk_pop<K: Eq + Hash>(f: MultiFA<Option<K>>, p: usize, w: Trace<K>)
  requires walk(f, p, w), w.len() > 0,
  ensures
    walk(f, p, w.drop_last()), link(f, dst(p, w.drop_last()), w.last().0, w.last().1), dst(p, w) == w.last().1,
    word(w) == more(word(w.drop_last()), w.last().0),
{
  let v = w.drop_last();
  assert forall|i: int| 0 <= i < v.len() implies link(f, src(p, v, i), (#[trigger] v[i]).0, v[i].1) by { assert(w[i] == v[i]); assert(src(p, v, i) == src(p, w, i)); }
  let n = w.len() - 1;
  assert(link(f, src(p, w, n), w[n].0, w[n].1));
  assert(src(p, w, n) == dst(p, v));
}
pub proof fn reads_cat<K: Eq + Hash>(f: MultiFA<Option<K>>, p: usize, u: Seq<K>, m: usize, v: Seq<K>, q: usize)
  requires reads(f, p, u, m), reads(f, m, v, q),
  ensures reads(f, p, u + v, q),
{
  reveal(reads);
  let w = choose|w: Trace<K>| #[trigger] walk(f, m, w) && word(w) == v && dst(m, w) == q;
  reads_walk(f, p, u, m, w);
}
pub proof fn reads_walk<K: Eq + Hash>(f: MultiFA<Option<K>>, p: usize, u: Seq<K>, m: usize, w: Trace<K>)
  requires reads(f, p, u, m), walk(f, m, w),
  ensures reads(f, p, u + word(w), dst(m, w)),
  decreases w.len(),
{
  if w.len() == 0 { assert(u + word(w) =~= u); } else {
    walk_pop(f, m, w);
    reads_walk(f, p, u, m, w.drop_last());
    reads_link(f, p, u + word(w.drop_last()), dst(m, w.drop_last()), w.last().0, w.last().1);
    assert(more(u + word(w.drop_last()), w.last().0) =~= u + word(w));
  }
}
/// The last key read, and the empty edges after it.
pub proof fn reads_last<K: Eq + Hash>(f: MultiFA<Option<K>>, p: usize, u: Seq<K>, k: K, q: usize) -> (r: (usize, usize))
  requires reads(f, p, u.push(k), q),
  ensures reads(f, p, u, r.0), link(f, r.0, Some(k), r.1), reads(f, r.1, Seq::empty(), q),
{
  reveal(reads);
  let w = choose|w: Trace<K>| #[trigger] walk(f, p, w) && word(w) == u.push(k) && dst(p, w) == q;
  walk_last(f, p, u, k, w)
}
pub proof fn walk_last<K: Eq + Hash>(f: MultiFA<Option<K>>, p: usize, u: Seq<K>, k: K, w: Trace<K>) -> (r: (usize, usize))
  requires walk(f, p, w), word(w) == u.push(k),
  ensures reads(f, p, u, r.0), link(f, r.0, Some(k), r.1), reads(f, r.1, Seq::empty(), dst(p, w)),
  decreases w.len(),
{
  if w.len() == 0 { assert(word(w).len() == 0); (0, 0) } else {
    walk_pop(f, p, w);
    let v = w.drop_last();
    match w.last().0 {
      Some(x) => {
        assert(word(v).push(x) == u.push(k));
        assert(u.push(k).last() == k && word(v).push(x).last() == x);
        assert(u.push(k).drop_last() =~= u && word(v).push(x).drop_last() =~= word(v));
        assert(reads(f, p, u, dst(p, v))) by { reveal(reads); }
        reads_nil(f, w.last().1);
        (dst(p, v), w.last().1)
      }
      None => {
        let r = walk_last(f, p, u, k, v);
        reads_link(f, r.1, Seq::empty(), dst(p, v), None, w.last().1);
        r
      }
    }
  }
}
/// The first key read, and the empty edges before it.
pub proof fn reads_one<K: Eq + Hash>(f: MultiFA<Option<K>>, p: usize, q: usize, w: Trace<K>)
  requires walk(f, p, w), word(w).len() == 0,
  ensures forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).0 is None,
  decreases w.len(),
{
  if w.len() > 0 {
    walk_pop(f, p, w);
    reads_one(f, p, q, w.drop_last());
    assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).0 is None by { if i < w.len() - 1 { assert(w.drop_last()[i] == w[i]); } }
  }
}
