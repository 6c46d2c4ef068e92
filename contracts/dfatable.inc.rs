#[verifier::external_body]
fn sort_<T>(v: &mut Vec<T>) ensures final(v)@.to_multiset() == old(v)@.to_multiset() { unimplemented!() }
#[verifier::external_body]
fn boxed_<T>(v: Vec<T>) -> (r: Box<[T]>) ensures r@ == v@ { unimplemented!() }
pub struct Iter_<T> { v: Vec<T>, n: usize }
impl<T> Iter_<T> {
  pub uninterp spec fn rest(&self) -> Seq<T>;
  #[verifier::external_body]
  fn next(&mut self) -> (r: Option<T>)
    ensures
      old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest(),
      old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1),
  { unimplemented!() }
}
#[verifier::external_body]
fn iter_<T>(v: Vec<T>) -> (r: Iter_<T>) ensures r.rest() == v@ { unimplemented!() }
#[verifier::external_body]
fn extend_<T>(v: &mut Vec<T>, i: Iter_<T>) ensures final(v)@ == old(v)@ + i.rest() { unimplemented!() }

//@ item laps_regex/src/dfa.rs type FATags
//@ end
//@ item laps_regex/src/dfa.rs impl DFA#0 props=C06 only=1
//@ fn into_fa_tags
    ensures r.0 == self.fa, r.1 == self.tags,
//@ end
//@ item laps_regex/src/table.rs struct TempTable attr=reject_recursive_types(S)
//@ end
//@ item laps_regex/src/table.rs type OptimizedTable
//@ end

/// The states are numbered.
pub open spec fn numbers<S, T>(d: DFA<S, T>, ids: Map<usize, usize>) -> bool {
  &&& ids.dom() == d.fa.states@.dom()
  &&& forall|q: usize| #[trigger] ids.contains_key(q) ==> ids[q] < d.fa.states@.dom().len()
  &&& forall|p: usize, q: usize| #[trigger] ids.contains_key(p) && #[trigger] ids.contains_key(q) && p != q ==> ids[p] != ids[q]
}
/// A row of the table, for the edges e.
pub open spec fn row<S>(e: ISet<(usize, Vec<(S, S)>, usize)>, ids: Map<usize, usize>, n: int, k: Vec<(S, S)>, v: Seq<usize>) -> bool {
  &&& v.len() == n
  &&& forall|i: int| 0 <= i < n ==> #[trigger] v[i] <= n
  &&& forall|q: usize, p: usize| #[trigger] e.contains((q, k, p)) ==> v[ids[q] as int] == ids[p]
  &&& forall|q: usize| #[trigger] ids.contains_key(q) && (forall|p: usize| !#[trigger] e.contains((q, k, p))) ==> v[ids[q] as int] == n
}
pub open spec fn rows<S>(e: ISet<(usize, Vec<(S, S)>, usize)>, ids: Map<usize, usize>, n: int, t: Map<Vec<(S, S)>, Vec<usize>>) -> bool {
  &&& forall|q: usize, k: Vec<(S, S)>, p: usize| #[trigger] e.contains((q, k, p)) ==> t.contains_key(k)
  &&& forall|k: Vec<(S, S)>| #[trigger] t.contains_key(k) ==> row(e, ids, n, k, t[k]@) && exists|q: usize, p: usize| #[trigger] e.contains((q, k, p))
}
proof fn grow<S>(e: ISet<(usize, Vec<(S, S)>, usize)>, ids: Map<usize, usize>, n: int, t: Map<Vec<(S, S)>, Vec<usize>>, q: usize, k: Vec<(S, S)>, p: usize, v: Vec<usize>)
  requires
    rows(e, ids, n, t), ids.contains_key(q), ids.contains_key(p),
    forall|a: usize| #[trigger] ids.contains_key(a) ==> ids[a] < n,
    forall|a: usize, b: usize| #[trigger] ids.contains_key(a) && #[trigger] ids.contains_key(b) && a != b ==> ids[a] != ids[b],
    forall|a: usize, x: Vec<(S, S)>, b: usize| #[trigger] e.contains((a, x, b)) ==> ids.contains_key(a) && ids.contains_key(b),
    forall|b: usize| #[trigger] e.contains((q, k, b)) ==> b == p,
    v@ == (if t.contains_key(k) { t[k]@ } else { Seq::new(n as nat, |i: int| n as usize) }).update(ids[q] as int, ids[p]),
    0 <= n <= usize::MAX,
  ensures rows(e.insert((q, k, p)), ids, n, t.insert(k, v)),
{
  let e2 = e.insert((q, k, p));
  let t2 = t.insert(k, v);
  assert forall|x: Vec<(S, S)>| #[trigger] t2.contains_key(x) implies row(e2, ids, n, x, t2[x]@) && exists|a: usize, b: usize| #[trigger] e2.contains((a, x, b)) by {
    if x == k {
      assert(e2.contains((q, x, p)));
      assert forall|a: usize| #[trigger] ids.contains_key(a) && (forall|b: usize| !#[trigger] e2.contains((a, x, b))) implies v@[ids[a] as int] == n by {
        assert(a != q);
        assert(forall|b: usize| #[trigger] e.contains((a, x, b)) ==> e2.contains((a, x, b)));
      }
    } else {
      assert(t.contains_key(x));
      let (a, b) = choose|a: usize, b: usize| #[trigger] e.contains((a, x, b));
      assert(e2.contains((a, x, b)));
      assert forall|a: usize| #[trigger] ids.contains_key(a) && (forall|b: usize| !#[trigger] e2.contains((a, x, b))) implies t[x]@[ids[a] as int] == n by {
        assert(forall|b: usize| #[trigger] e.contains((a, x, b)) ==> e2.contains((a, x, b)));
      }
    }
  }
}
impl<S, T> DFA<S, T> {
  pub open spec fn edges(&self) -> ISet<(usize, Vec<(S, S)>, usize)> { ISet::new(|t: (usize, Vec<(S, S)>, usize)| self.edge(t.0, t.1, t.2)) }
}
pub open spec fn whole<S, T>(e: ISet<(usize, Vec<(S, S)>, usize)>, d: DFA<S, T>, q: usize) -> bool { forall|k: Vec<(S, S)>, p: usize| #[trigger] d.edge(q, k, p) ==> e.contains((q, k, p)) }
impl<S, T> TempTable<S, T> {
  pub open spec fn of(&self, d: DFA<S, T>, ids: Map<usize, usize>) -> bool {
    &&& numbers(d, ids)
    &&& self.num_states == d.fa.states@.dom().len()
    &&& self.init_id == ids[d.fa.init]
    &&& rows(d.edges(), ids, self.num_states as int, self.table@)
    &&& tagged(d.tags@, self.tags@, ids)
  }
}
pub open spec fn tagged<T>(a: Map<usize, T>, b: Map<usize, T>, ids: Map<usize, usize>) -> bool {
  &&& forall|q: usize| #[trigger] a.contains_key(q) ==> b.contains_key(ids[q]) && b[ids[q]] == a[q]
  &&& forall|i: usize| #[trigger] b.contains_key(i) ==> exists|q: usize| #[trigger] a.contains_key(q) && ids[q] == i
}
/// The keys of the table are proper and apart.
pub open spec fn parted<S>(t: Map<Vec<(S, S)>, Vec<usize>>) -> bool {
  &&& forall|k: Vec<(S, S)>| #[trigger] t.contains_key(k) ==> proper(k@)
  &&& forall|a: Vec<(S, S)>, b: Vec<(S, S)>| #[trigger] t.contains_key(a) && #[trigger] t.contains_key(b) && a != b ==> apart(a@, b@)
}
pub open spec fn from<S>(m: Seq<(Vec<usize>, Vec<(S, S)>)>, t: Map<Vec<(S, S)>, Vec<usize>>) -> bool {
  &&& m.no_duplicates()
  &&& forall|i: int| 0 <= i < m.len() ==> t.contains_key((#[trigger] m[i]).1) && t[m[i].1] == m[i].0
  &&& forall|k: Vec<(S, S)>| #[trigger] t.contains_key(k) ==> exists|i: int| 0 <= i < m.len() && (#[trigger] m[i]).1 == k
}
proof fn from_sorted<S>(a: Seq<(Vec<usize>, Vec<(S, S)>)>, b: Seq<(Vec<usize>, Vec<(S, S)>)>, t: Map<Vec<(S, S)>, Vec<usize>>)
  requires from(a, t), a.to_multiset() == b.to_multiset(),
  ensures from(b, t),
{
  a.lemma_multiset_has_no_duplicates();
  b.lemma_multiset_has_no_duplicates_conv();
  a.to_multiset_ensures();
  b.to_multiset_ensures();
  assert forall|i: int| 0 <= i < b.len() implies t.contains_key((#[trigger] b[i]).1) && t[b[i].1] == b[i].0 by {
    assert(b.to_multiset().count(b[i]) > 0);
    assert(a.contains(b[i]));
  }
  assert forall|k: Vec<(S, S)>| #[trigger] t.contains_key(k) implies exists|i: int| 0 <= i < b.len() && (#[trigger] b[i]).1 == k by {
    let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).1 == k;
    assert(a.to_multiset().count(a[i]) > 0);
    assert(b.contains(a[i]));
  }
}
/// One of the keys has the symbol and the row x.
#[verifier::opaque]
pub open spec fn from_key<S>(t: Map<Vec<(S, S)>, Vec<usize>>, x: Vec<usize>, c: S) -> bool { exists|k: Vec<(S, S)>| #[trigger] t.contains_key(k) && within(k@, c) && t[k] == x }
/// The classes hold the symbols of the keys, with the rows of the keys.
pub open spec fn classes<S>(t: Map<Vec<(S, S)>, Vec<usize>>, e: Seq<Vec<(S, S)>>, r: Seq<Vec<usize>>) -> bool {
  &&& e.len() == r.len()
  &&& forall|i: int, c: S| 0 <= i < e.len() && #[trigger] within(e[i]@, c) ==> from_key(t, r[i], c)
  &&& forall|k: Vec<(S, S)>, c: S| #[trigger] t.contains_key(k) && #[trigger] within(k@, c) ==> in_class(e, r, t[k], c)
  &&& forall|i: int| 0 <= i < e.len() ==> proper((#[trigger] e[i])@)
  &&& forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j ==> apart((#[trigger] e[i])@, (#[trigger] e[j])@)
}
/// One of the first n entries has the symbol and the row x.
#[verifier::opaque]
pub open spec fn from_entry<S>(m: Seq<(Vec<usize>, Vec<(S, S)>)>, n: int, x: Vec<usize>, c: S) -> bool { exists|j: int| 0 <= j < n && within((#[trigger] m[j]).1@, c) && m[j].0 == x }
#[verifier::opaque]
pub open spec fn in_class<S>(e: Seq<Vec<(S, S)>>, r: Seq<Vec<usize>>, x: Vec<usize>, c: S) -> bool { exists|i: int| 0 <= i < e.len() && within((#[trigger] e[i])@, c) && x == r[i] }
proof fn entry_of<S>(m: Seq<(Vec<usize>, Vec<(S, S)>)>, n: int, x: Vec<usize>, c: S) -> (j: int)
  requires from_entry(m, n, x, c),
  ensures 0 <= j < n, within(m[j].1@, c), m[j].0 == x,
{ reveal(from_entry); choose|j: int| 0 <= j < n && within((#[trigger] m[j]).1@, c) && m[j].0 == x }
proof fn entry_is<S>(m: Seq<(Vec<usize>, Vec<(S, S)>)>, n: int, j: int, c: S)
  requires 0 <= j < n, within(m[j].1@, c),
  ensures from_entry(m, n, m[j].0, c),
{ reveal(from_entry); }
proof fn class_of<S>(e: Seq<Vec<(S, S)>>, r: Seq<Vec<usize>>, x: Vec<usize>, c: S) -> (i: int)
  requires in_class(e, r, x, c),
  ensures 0 <= i < e.len(), within(e[i]@, c), x == r[i],
{ reveal(in_class); choose|i: int| 0 <= i < e.len() && within((#[trigger] e[i])@, c) && x == r[i] }
proof fn class_is<S>(e: Seq<Vec<(S, S)>>, r: Seq<Vec<usize>>, i: int, c: S)
  requires 0 <= i < e.len(), within(e[i]@, c),
  ensures in_class(e, r, r[i], c),
{ reveal(in_class); }
/// The same for the first n entries.
pub open spec fn collected<S>(m: Seq<(Vec<usize>, Vec<(S, S)>)>, n: int, e: Seq<Vec<(S, S)>>, r: Seq<Vec<usize>>) -> bool {
  &&& e.len() == r.len()
  &&& forall|i: int, c: S| 0 <= i < e.len() && #[trigger] within(e[i]@, c) ==> from_entry(m, n, r[i], c)
  &&& forall|j: int, c: S| 0 <= j < n && #[trigger] within(m[j].1@, c) ==> in_class(e, r, m[j].0, c)
  &&& forall|i: int| 0 <= i < e.len() ==> proper((#[trigger] e[i])@)
  &&& forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j ==> apart((#[trigger] e[i])@, (#[trigger] e[j])@)
}
pub open spec fn separate<S>(m: Seq<(Vec<usize>, Vec<(S, S)>)>) -> bool {
  &&& forall|i: int| 0 <= i < m.len() ==> proper((#[trigger] m[i]).1@)
  &&& forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() && i != j ==> apart((#[trigger] m[i]).1@, (#[trigger] m[j]).1@)
}
/// A class and a key behind it, in one list: the last range of the class may be joined with the first of the key.
pub open spec fn merges<S>(l: Seq<(S, S)>, k: Seq<(S, S)>, r: Seq<(S, S)>) -> bool {
  &&& l.len() > 0 && k.len() > 0
  &&& if is_next(l.last().1, Some(k[0].0)) && r.len() == l.len() + k.len() - 1 { r == l.drop_last().push((l.last().0, k[0].1)) + k.skip(1) } else { r == l + k }
}
proof fn merged<S>(l: Seq<(S, S)>, k: Seq<(S, S)>, r: Seq<(S, S)>)
  requires merges(l, k, r), proper(l), proper(k), apart(l, k),
  ensures proper(r), forall|c: S| #[trigger] within(r, c) <==> within(l, c) || within(k, c),
{
  let d = l.len() + k.len() - r.len();
  // where a range of l or k went
  assert forall|i: int, c: S| 0 <= i < l.len() && #[trigger] in_one(l[i], c) implies in_one(r[i], c) by {}
  assert forall|i: int, c: S| 0 <= i < k.len() && #[trigger] in_one(k[i], c) implies in_one(r[i + l.len() - d], c) by {}
  assert forall|c: S| within(l, c) || within(k, c) implies #[trigger] within(r, c) by {
    if within(l, c) { let i = choose|i: int| 0 <= i < l.len() && in_one(#[trigger] l[i], c); assert(in_one(r[i], c)); }
    else { let i = choose|i: int| 0 <= i < k.len() && in_one(#[trigger] k[i], c); assert(in_one(r[i + l.len() - d], c)); }
  }
  // and where one of r came from
  assert forall|i: int, c: S| 0 <= i < r.len() && #[trigger] in_one(r[i], c) implies (i < l.len() && in_one(l[i], c)) || (0 <= i - l.len() + d && in_one(k[i - l.len() + d], c)) by {
    if d == 1 && i == l.len() - 1 { let a = l.last().1; if ord(c) > ord(a) { assert(!(ord(a) < ord(c) < ord(k[0].0))); } }
  }
  assert forall|c: S| #[trigger] within(r, c) implies within(l, c) || within(k, c) by {
    let i = choose|i: int| 0 <= i < r.len() && in_one(#[trigger] r[i], c);
  }
  assert forall|i: int, j: int, c: S| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies !(#[trigger] in_one(r[i], c) && #[trigger] in_one(r[j], c)) by {
    if in_one(r[i], c) && in_one(r[j], c) {
      let x = i - l.len() + d;
      let y = j - l.len() + d;
      if i < l.len() && in_one(l[i], c) {
        assert(within(l, c));
        if j < l.len() && in_one(l[j], c) {} else { assert(in_one(k[y], c)); assert(within(k, c)); }
      } else {
        assert(in_one(k[x], c)); assert(within(k, c));
        if j < l.len() && in_one(l[j], c) { assert(within(l, c)); } else { assert(in_one(k[y], c)); }
      }
    }
  }
  assert forall|i: int| 0 <= i < r.len() implies ord((#[trigger] r[i]).0) <= ord(r[i].1) by {
    if i < l.len() { assert(ord(l[i].0) <= ord(l[i].1)); }
    if i - l.len() + d >= 0 { assert(ord(k[i - l.len() + d].0) <= ord(k[i - l.len() + d].1)); }
  }
}
proof fn all_collected<S>(m: Seq<(Vec<usize>, Vec<(S, S)>)>, t: Map<Vec<(S, S)>, Vec<usize>>, e: Seq<Vec<(S, S)>>, r: Seq<Vec<usize>>)
  requires from(m, t), collected(m, m.len() as int, e, r),
  ensures classes(t, e, r),
{
  assert forall|i: int, c: S| 0 <= i < e.len() && #[trigger] within(e[i]@, c) implies from_key(t, r[i], c) by {
    let j = entry_of(m, m.len() as int, r[i], c);
    reveal(from_key);
    assert(t.contains_key(m[j].1));
  }
  assert forall|k: Vec<(S, S)>, c: S| #[trigger] t.contains_key(k) && #[trigger] within(k@, c) implies in_class(e, r, t[k], c) by {
    let j = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).1 == k;
    assert(within(m[j].1@, c));
  }
}
proof fn from_entries<S>(m: Seq<(Vec<usize>, Vec<(S, S)>)>, s: Seq<(Vec<(S, S)>, Vec<usize>)>, t: Map<Vec<(S, S)>, Vec<usize>>)
  requires lists(s, t), m.len() <= s.len(), forall|i: int| 0 <= i < m.len() ==> (#[trigger] m[i]) == (s[i].1, s[i].0),
  ensures m.len() == s.len() ==> from(m, t),
{
  if m.len() == s.len() {
  assert forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() && i != j implies m[i] != m[j] by { if i < j { assert(s[i].0 != s[j].0); } else { assert(s[j].0 != s[i].0); } }
  assert forall|i: int| 0 <= i < m.len() implies t.contains_key((#[trigger] m[i]).1) && t[m[i].1] == m[i].0 by { assert(t.contains_key(s[i].0)); }
  assert forall|k: Vec<(S, S)>| #[trigger] t.contains_key(k) implies exists|i: int| 0 <= i < m.len() && (#[trigger] m[i]).1 == k by {
    let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
    assert(m[i].1 == k);
  }
  }
}
proof fn opened<S>(m: Seq<(Vec<usize>, Vec<(S, S)>)>, n: int, e: Seq<Vec<(S, S)>>, r: Seq<Vec<usize>>, e2: Seq<Vec<(S, S)>>, r2: Seq<Vec<usize>>)
  requires separate(m), 0 <= n < m.len(), collected(m, n, e, r), e2 == e.push(m[n].1), r2 == r.push(m[n].0),
  ensures collected(m, n + 1, e2, r2),
{
  assert forall|i: int, c: S| 0 <= i < e2.len() && #[trigger] within(e2[i]@, c) implies from_entry(m, n + 1, r2[i], c) by {
    if i < e.len() { let j = entry_of(m, n, r[i], c); entry_is(m, n + 1, j, c); } else { entry_is(m, n + 1, n, c); }
  }
  assert forall|j: int, c: S| 0 <= j < n + 1 && #[trigger] within(m[j].1@, c) implies in_class(e2, r2, m[j].0, c) by {
    if j < n { let i = class_of(e, r, m[j].0, c); class_is(e2, r2, i, c); } else { class_is(e2, r2, e.len() as int, c); }
  }
  assert forall|i: int, c: S| 0 <= i < e.len() && #[trigger] within(e[i]@, c) implies !within(m[n].1@, c) by {
    let y = entry_of(m, n, r[i], c);
    assert(apart(m[y].1@, m[n].1@));
  }
  assert forall|i: int, j: int| 0 <= i < e2.len() && 0 <= j < e2.len() && i != j implies apart((#[trigger] e2[i])@, (#[trigger] e2[j])@) by {
    if i < e.len() && j < e.len() { assert(apart(e[i]@, e[j]@)); }
    else if i < e.len() { assert(e2[i] == e[i]); assert(e2[j] == m[n].1); }
    else { assert(e2[j] == e[j]); assert(e2[i] == m[n].1); }
  }
}
proof fn joined<S>(m: Seq<(Vec<usize>, Vec<(S, S)>)>, n: int, e: Seq<Vec<(S, S)>>, r: Seq<Vec<usize>>, e2: Seq<Vec<(S, S)>>)
  requires
    separate(m), 0 <= n < m.len(), collected(m, n, e, r), e.len() > 0, r.last() == m[n].0, e2.len() == e.len(),
    forall|i: int| 0 <= i < e.len() - 1 ==> #[trigger] e2[i] == e[i],
    merges(e.last()@, m[n].1@, e2.last()@),
  ensures collected(m, n + 1, e2, r),
{
  let l = e.len() - 1;
  assert forall|i: int, c: S| 0 <= i < e.len() && #[trigger] within(e[i]@, c) implies !within(m[n].1@, c) by {
    let y = entry_of(m, n, r[i], c);
    assert(apart(m[y].1@, m[n].1@));
  }
  assert(apart(e[l]@, m[n].1@));
  merged(e[l]@, m[n].1@, e2[l]@);
  assert forall|i: int, c: S| 0 <= i < e2.len() && #[trigger] within(e2[i]@, c) implies from_entry(m, n + 1, r[i], c) by {
    if within(e[i]@, c) { let j = entry_of(m, n, r[i], c); entry_is(m, n + 1, j, c); } else { assert(i == l); entry_is(m, n + 1, n, c); }
  }
  assert forall|j: int, c: S| 0 <= j < n + 1 && #[trigger] within(m[j].1@, c) implies in_class(e2, r, m[j].0, c) by {
    if j < n { let i = class_of(e, r, m[j].0, c); assert(i < l ==> e2[i] == e[i]); class_is(e2, r, i, c); } else { class_is(e2, r, l, c); }
  }
  assert forall|i: int, j: int| 0 <= i < e2.len() && 0 <= j < e2.len() && i != j implies apart((#[trigger] e2[i])@, (#[trigger] e2[j])@) by {
    assert(apart(e[i]@, e[j]@));
    assert(i < l ==> e2[i] == e[i]);
    assert(j < l ==> e2[j] == e[j]);
  }
  assert forall|i: int| 0 <= i < e2.len() implies proper((#[trigger] e2[i])@) by { if i < l { assert(e2[i] == e[i]); } }
}
//@ item laps_regex/src/table.rs impl TempTable props=C06
//@ fn new attr=loop_isolation(false)
    requires dfa.wf(),
    ensures exists|ids: Map<usize, usize>| #[trigger] r.of(dfa, ids),
//@ entry
    let ghost d = dfa;
    let ghost n = d.fa.states@.dom().len();
    let ghost mut e: ISet<(usize, Vec<(S, S)>, usize)> = ISet::empty();
//@ loop 0
    invariant
      members(derefs(it0.seq()), d.fa.states@.dom()),
      forall|q: usize| #[trigger] $let3@.contains_key(q) ==> d.is_state(q),
      forall|i: int| 0 <= i < it0.index@ ==> $let3@.contains_key(*#[trigger] it0.seq()[i]),
      forall|q: usize| #[trigger] $let3@.contains_key(q) ==> exists|i: int| 0 <= i < it0.index@ && *#[trigger] it0.seq()[i] == q,
      $let3@.dom().len() == it0.index@,
      forall|q: usize| #[trigger] $let3@.contains_key(q) ==> $let3@[q] < it0.index@,
      forall|p: usize, q: usize| #[trigger] $let3@.contains_key(p) && #[trigger] $let3@.contains_key(q) && p != q ==> $let3@[p] != $let3@[q],
    ensures
      forall|q: usize| d.is_state(q) ==> $let3@.contains_key(q),
      $let3@.dom() =~= d.fa.states@.dom(), numbers(d, $let3@),
//@ loopbody 0
      proof {
        let ks = derefs(it0.seq());
        assert(members(ks, d.fa.states@.dom()));
        assert(ks[it0.index@] == *id);
        assert forall|i: int| 0 <= i < it0.index@ implies *#[trigger] it0.seq()[i] != *id by { assert(ks[i] != ks[it0.index@]); }
      }
//@ after let mut table = HashMap::new();
    proof { assert(forall|q: usize| d.is_state(q) ==> $let3@.contains_key(q)); assert($let3@.dom() =~= d.fa.states@.dom()); assert(numbers(d, $let3@)); }
//@ loop 1
    invariant
      numbers(d, $let3@),
      forall|q: usize, k: Vec<(S, S)>, p: usize| #[trigger] e.contains((q, k, p)) ==> d.edge(q, k, p),
      forall|a: int| 0 <= a < it1.index@ ==> whole(e, d, *(#[trigger] it1.seq()[a]).0),
      rows(e, $let3@, n as int, $let6@),
      lists(derefs2(it1.seq()), d.fa.states@),
    ensures
      forall|q: usize| #[trigger] d.is_state(q) ==> whole(e, d, q),
//@ loopend 1
      proof { assert(whole(e, d, q0)) by { assert forall|k: Vec<(S, S)>, p: usize| #[trigger] d.edge(q0, k, p) implies e.contains((q0, k, p)) by { let b = choose|b: int| 0 <= b < st.outs@.len() && #[trigger] st.outs@[b] == (k, p); } } }
//@ loopbody 1
      let ghost q0 = *id;
      let ghost st = *state;
      proof { let es = derefs2(it1.seq()); assert(lists(es, d.fa.states@)); assert(es[it1.index@] == (q0, st)); assert(d.fa.states@.contains_key(es[it1.index@].0)); assert(d.is_state(q0) && d.fa.states@[q0] == st); }
//@ loop 2
    invariant
      forall|q: usize, k: Vec<(S, S)>, p: usize| #[trigger] e.contains((q, k, p)) ==> d.edge(q, k, p),
      forall|a: int| 0 <= a < it1.index@ ==> whole(e, d, *(#[trigger] it1.seq()[a]).0),
      forall|b: int| 0 <= b < it2.index@ ==> e.contains((q0, (#[trigger] st.outs@[b]).0, st.outs@[b].1)),
      rows(e, $let3@, n as int, $let6@),
    ensures
      forall|b: int| 0 <= b < st.outs@.len() ==> e.contains((q0, (#[trigger] st.outs@[b]).0, st.outs@[b].1)),
//@ loopbody 2
      let ghost t0 = $let6@;
      proof { assert(st.outs@[it2.index@] == (*sym, *next)); assert(d.edge(q0, *sym, *next)); }
//@ loopend 2
      proof {
        let v = $let6@[*sym];
        assert(v@ =~= (if t0.contains_key(*sym) { t0[*sym]@ } else { Seq::new(n as nat, |i: int| n as usize) }).update($let3@[q0] as int, $let3@[*next]));
        let k = *sym;
        let p = *next;
        assert(st.outs@[it2.index@] == (k, p));
        assert(d.edge(q0, k, p));
        assert($let6@ == t0.insert(k, v));
        grow(e, $let3@, n as int, t0, q0, k, p, v);
        e = e.insert((q0, k, p));
      }
//@ after let t_ = $s_e;
    proof { assert(e =~= d.edges()); assert(rows(d.edges(), $let3@, n as int, t_.table@)); assert(tagged(d.tags@, tags@, $let3@)); assert(t_.init_id == $let3@[d.fa.init]); assert(t_.of(d, $let3@)); }
//@ after let tags = { $s_e };
    proof { assert(tagged(d.tags@, tags@, $let3@)); }
//@ loop 3
    invariant
      lists(it3.seq(), d.tags@),
      forall|i: int| 0 <= i < it3.index@ ==> m_@.contains_key($let3@[(#[trigger] it3.seq()[i]).0]) && m_@[$let3@[it3.seq()[i].0]] == it3.seq()[i].1,
      forall|x: usize| #[trigger] m_@.contains_key(x) ==> exists|i: int| 0 <= i < it3.index@ && $let3@[(#[trigger] it3.seq()[i]).0] == x,
    ensures
      tagged(d.tags@, m_@, $let3@),
//@ loopbody 3
      proof {
        assert(it3.seq()[it3.index@] == (id, tag));
        assert forall|i: int| 0 <= i < it3.seq().len() implies $let3@.contains_key((#[trigger] it3.seq()[i]).0) by { assert(d.tags@.contains_key(it3.seq()[i].0)); }
        assert(forall|i: int| 0 <= i < it3.index@ ==> $let3@[(#[trigger] it3.seq()[i]).0] != $let3@[id]);
      }
//@ fn into_optimized attr=loop_isolation(false)
    requires parted(self.table@),
    ensures classes(self.table@, r.0@, r.1@), r.2 == self.init_id, r.3 == self.tags,
//@ entry
    let ghost t0 = self.table@;
//@ loop 0
    invariant
      lists(it0.seq(), t0),
      it0.index@ == it0.seq().len() ==> from(v_@, t0),
      v_@.len() == it0.index@,
      forall|i: int| 0 <= i < it0.index@ ==> (#[trigger] v_@[i]) == (it0.seq()[i].1, it0.seq()[i].0),
//@ loopbody 0
      let ghost v0 = v_@;
//@ loopend 0
      proof { from_entries(v_@, it0.seq(), t0); }
//@ after let mut table: Vec<_> = { $s_e };
    proof { assert(from(table@, t0)); }
    let ghost m0 = table@;
//@ after sort_(&mut table);
    proof { from_sorted(m0, table@, t0); }
    let ghost m = table@;
    proof { if m.len() == 0 { all_collected(m, t0, Seq::empty(), Seq::empty()); } }
//@ loop 1
    invariant
      it1.seq() == m,
      collected(m, it1.index@, equivs@, trans_table@),
      it1.index@ == it1.seq().len() ==> classes(t0, equivs@, trans_table@),
//@ loopbody 1
      let ghost (eq0, tr0) = (equivs@, trans_table@);
      let ghost n = it1.index@;
      proof { assert(m[n] == (states, sym)); assert(proper(m[n].1@)); }
//@ after extend_(equiv, iter);
      proof {
        let l = eq0.last()@;
        let k = m[n].1@;
        if equiv@.len() < l.len() + k.len() { assert(equiv@ =~= l.drop_last().push((l.last().0, k[0].1)) + k.skip(1)); } else { assert(equiv@ =~= l + k); }
        assert(merges(l, k, equiv@));
      }
//@ loopend 1
      proof {
        if tr0.len() > 0 && tr0.last() == m[n].0 {
          assert(merges(eq0.last()@, m[n].1@, equivs@.last()@));
          joined(m, n, eq0, tr0, equivs@);
        } else { opened(m, n, eq0, tr0, equivs@, trans_table@); }
        if n + 1 == m.len() { all_collected(m, t0, equivs@, trans_table@); }
      }
//@ end

/// A symbol is in the range b of the class a.
pub open spec fn cell<S>(e: Seq<Vec<(S, S)>>, a: int, b: int) -> (S, S) { e[a]@[b] }
/// The first classes and ranges are in the map: below (i, j).
pub open spec fn below(a: int, b: int, i: int, j: int) -> bool { a < i || a == i && b < j }
pub open spec fn mapped<S>(e: Seq<Vec<(S, S)>>, m: Map<S, (S, usize)>, i: int, j: int) -> bool {
  &&& forall|r: S| #[trigger] m.contains_key(r) ==> exists|a: int, b: int| 0 <= a < e.len() && 0 <= b < e[a]@.len() && below(a, b, i, j) && #[trigger] cell(e, a, b) == (m[r].0, r) && m[r].1 == a
  &&& forall|a: int, b: int| 0 <= a < e.len() && 0 <= b < e[a]@.len() && below(a, b, i, j) ==> m.contains_key((#[trigger] cell(e, a, b)).1) && m[cell(e, a, b).1] == (cell(e, a, b).0, a as usize)
}
pub open spec fn spread<S>(e: Seq<Vec<(S, S)>>) -> bool {
  &&& forall|i: int| 0 <= i < e.len() ==> proper((#[trigger] e[i])@)
  &&& forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j ==> apart((#[trigger] e[i])@, (#[trigger] e[j])@)
}
proof fn one_cell<S>(e: Seq<Vec<(S, S)>>, a: int, b: int, x: int, y: int, c: S)
  requires spread(e), 0 <= a < e.len(), 0 <= b < e[a]@.len(), 0 <= x < e.len(), 0 <= y < e[x]@.len(), in_one(cell(e, a, b), c), in_one(cell(e, x, y), c),
  ensures a == x && b == y,
{
  assert(in_one(e[a]@[b], c));
  assert(in_one(e[x]@[y], c));
  assert(within(e[a]@, c));
  assert(within(e[x]@, c));
  if a != x { assert(apart(e[a]@, e[x]@)); }
  assert(proper(e[a]@));
}
proof fn cell_bounds<S>(e: Seq<Vec<(S, S)>>, a: int, b: int)
  requires spread(e), 0 <= a < e.len(), 0 <= b < e[a]@.len(),
  ensures ord(cell(e, a, b).0) <= ord(cell(e, a, b).1), in_one(cell(e, a, b), cell(e, a, b).1), in_one(cell(e, a, b), cell(e, a, b).0),
{ assert(proper(e[a]@)); assert(ord(e[a]@[b].0) <= ord(e[a]@[b].1)); }
proof fn map_one<S>(e: Seq<Vec<(S, S)>>, m: Map<S, (S, usize)>, i: int, j: int)
  requires spread(e), mapped(e, m, i, j), 0 <= i < e.len() <= usize::MAX, 0 <= j < e[i]@.len(),
  ensures mapped(e, m.insert(cell(e, i, j).1, (cell(e, i, j).0, i as usize)), i, j + 1),
{
  let k = cell(e, i, j).1;
  let m2 = m.insert(k, (cell(e, i, j).0, i as usize));
  cell_bounds(e, i, j);
  assert forall|r: S| #[trigger] m2.contains_key(r) implies exists|a: int, b: int| 0 <= a < e.len() && 0 <= b < e[a]@.len() && below(a, b, i, j + 1) && #[trigger] cell(e, a, b) == (m2[r].0, r) && m2[r].1 == a by {
    if r == k { assert(below(i, j, i, j + 1)); assert(cell(e, i, j) == (m2[r].0, r)); }
    else {
      assert(m.contains_key(r));
      let (a, b) = choose|a: int, b: int| 0 <= a < e.len() && 0 <= b < e[a]@.len() && below(a, b, i, j) && #[trigger] cell(e, a, b) == (m[r].0, r) && m[r].1 == a;
      assert(cell(e, a, b) == (m2[r].0, r) && below(a, b, i, j + 1));
    }
  }
  assert forall|a: int, b: int| 0 <= a < e.len() && 0 <= b < e[a]@.len() && below(a, b, i, j + 1) implies m2.contains_key((#[trigger] cell(e, a, b)).1) && m2[cell(e, a, b).1] == (cell(e, a, b).0, a as usize) by {
    if a == i && b == j {} else {
      assert(below(a, b, i, j));
      cell_bounds(e, a, b);
      if cell(e, a, b).1 == k { one_cell(e, a, b, i, j, k); }
    }
  }
}
/// The rows one after the other, up to (i, j).
pub open spec fn flat(i: int, n: int, j: int) -> int { i * n + j }
pub open spec fn laid(r: Seq<Vec<usize>>, n: int, v: Seq<usize>, i: int, j: int) -> bool {
  &&& v.len() == flat(i, n, j)
  &&& forall|a: int, b: int| 0 <= a < r.len() && 0 <= b < n && below(a, b, i, j) ==> v[#[trigger] flat(a, n, b)] == r[a]@[b]
}
proof fn at_less(a: int, b: int, i: int, j: int, n: int)
  requires 0 <= a, 0 <= b < n, 0 <= j <= n, below(a, b, i, j),
  ensures 0 <= flat(a, n, b) < flat(i, n, j),
{
  assert(0 <= a * n) by (nonlinear_arith) requires 0 <= a, 0 < n;
  if a < i { assert(a * n + n <= i * n) by (nonlinear_arith) requires a + 1 <= i, 0 <= n; }
}
proof fn laid_one(r: Seq<Vec<usize>>, n: int, v: Seq<usize>, i: int, j: int)
  requires laid(r, n, v, i, j), 0 <= i < r.len(), 0 <= j < n, r[i]@.len() == n,
  ensures laid(r, n, v.push(r[i]@[j]), i, j + 1),
{
  let v2 = v.push(r[i]@[j]);
  assert forall|a: int, b: int| 0 <= a < r.len() && 0 <= b < n && below(a, b, i, j + 1) implies v2[#[trigger] flat(a, n, b)] == r[a]@[b] by {
    if a == i && b == j { assert(flat(a, n, b) == v.len()); } else { assert(below(a, b, i, j)); at_less(a, b, i, j, n); }
  }
}
proof fn laid_row(r: Seq<Vec<usize>>, n: int, v: Seq<usize>, i: int)
  requires laid(r, n, v, i, n), 0 <= i < r.len(),
  ensures laid(r, n, v, i + 1, 0),
{
  assert((i + 1) * n == i * n + n) by (nonlinear_arith);
  assert forall|a: int, b: int| 0 <= a < r.len() && 0 <= b < n && below(a, b, i + 1, 0) implies v[#[trigger] flat(a, n, b)] == r[a]@[b] by { assert(below(a, b, i, n)); }
}
/// Every row of the classes is one of the table.
proof fn class_rows<S>(d: ISet<(usize, Vec<(S, S)>, usize)>, ids: Map<usize, usize>, n: int, t: Map<Vec<(S, S)>, Vec<usize>>, e: Seq<Vec<(S, S)>>, r: Seq<Vec<usize>>)
  requires rows(d, ids, n, t), classes(t, e, r),
  ensures forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@.len() == n && forall|j: int| 0 <= j < n ==> #[trigger] r[i]@[j] <= n,
{
  assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i])@.len() == n && forall|j: int| 0 <= j < n ==> #[trigger] r[i]@[j] <= n by {
    assert(proper(e[i]@));
    let c = e[i]@[0].0;
    assert(ord(e[i]@[0].0) <= ord(e[i]@[0].1));
    assert(in_one(e[i]@[0], c));
    assert(within(e[i]@, c));
    let k = key_of(t, r[i], c);
    assert(row(d, ids, n, k, t[k]@));
  }
}
proof fn key_of<S>(t: Map<Vec<(S, S)>, Vec<usize>>, x: Vec<usize>, c: S) -> (k: Vec<(S, S)>)
  requires from_key(t, x, c),
  ensures t.contains_key(k), within(k@, c), t[k] == x,
{ reveal(from_key); choose|k: Vec<(S, S)>| #[trigger] t.contains_key(k) && within(k@, c) && t[k] == x }
impl<S, T> StateTransTable<S, T> {
  /// The table of a deterministic automaton, with its states numbered.
  pub open spec fn of(&self, d: DFA<S, T>, ids: Map<usize, usize>) -> bool {
    &&& numbers(d, ids)
    &&& self.num_states == d.fa.states@.dom().len()
    &&& self.init_id == ids[d.fa.init]
    &&& tagged(d.tags@, self.tags@, ids)
    &&& forall|q: usize, c: S, p: usize| #[trigger] d.goes(q, c, p) ==> self.next(ids[q], c) == Some(ids[p])
    &&& forall|q: usize, c: S| #[trigger] d.is_state(q) && (forall|p: usize| !#[trigger] d.goes(q, c, p)) ==> (#[trigger] self.next(ids[q], c)) is None
  }
  proof fn built(&self, d: DFA<S, T>, ids: Map<usize, usize>, tt: TempTable<S, T>, e: Seq<Vec<(S, S)>>, r: Seq<Vec<usize>>)
    requires
      d.wf(), tt.of(d, ids), classes(tt.table@, e, r),
      self.num_states == tt.num_states, self.init_id == tt.init_id, self.tags == tt.tags,
      laid(r, self.num_states as int, self.table@, r.len() as int, 0),
      mapped(e, self.sym_map@, e.len() as int, 0),
      e.len() <= usize::MAX,
    ensures self.wf(), self.of(d, ids),
  {
    let n = self.num_states as int;
    let m = self.sym_map@;
    let t = tt.table@;
    class_rows(d.edges(), ids, n, t, e, r);
    assert forall|x: S| #[trigger] m.contains_key(x) implies ord(m[x].0) <= ord(x) && (m[x].1 + 1) * n <= self.table@.len() by {
      let (a, b) = choose|a: int, b: int| 0 <= a < e.len() && 0 <= b < e[a]@.len() && below(a, b, e.len() as int, 0) && #[trigger] cell(e, a, b) == (m[x].0, x) && m[x].1 == a;
      cell_bounds(e, a, b);
      assert((a + 1) * n <= r.len() * n) by (nonlinear_arith) requires a + 1 <= r.len(), 0 <= n;
    }
    assert forall|x: S, y: S| #[trigger] m.contains_key(x) && #[trigger] m.contains_key(y) && ord(x) < ord(y) implies ord(x) < ord(m[y].0) by {
      let (a, b) = choose|a: int, b: int| 0 <= a < e.len() && 0 <= b < e[a]@.len() && below(a, b, e.len() as int, 0) && #[trigger] cell(e, a, b) == (m[x].0, x) && m[x].1 == a;
      let (i, j) = choose|a: int, b: int| 0 <= a < e.len() && 0 <= b < e[a]@.len() && below(a, b, e.len() as int, 0) && #[trigger] cell(e, a, b) == (m[y].0, y) && m[y].1 == a;
      cell_bounds(e, a, b);
      if ord(m[y].0) <= ord(x) { one_cell(e, a, b, i, j, x); }
    }
    assert forall|i: int| 0 <= i < self.table@.len() implies #[trigger] self.table@[i] <= n by {
      if n == 0 { assert(r.len() * n == 0) by (nonlinear_arith) requires n == 0; }
      else {
        let a = i / n;
        let b = i % n;
        assert(i == a * n + b && 0 <= b < n && 0 <= a) by (nonlinear_arith) requires a == i / n, b == i % n, 0 <= i, n > 0;
        assert(a < r.len()) by (nonlinear_arith) requires i == a * n + b, 0 <= b, i < r.len() * n, n > 0;
        assert(flat(a, n, b) == i);
        assert(below(a, b, r.len() as int, 0));
        assert(r[a]@.len() == n);
        assert(r[a]@[b] <= n);
      }
    }
    assert(ids.contains_key(d.fa.init));
    assert(self.wf());
    assert forall|q: usize, c: S, p: usize| #[trigger] d.goes(q, c, p) implies self.next(ids[q], c) == Some(ids[p]) by {
      let k = choose|k: Vec<(S, S)>| #[trigger] d.edge(q, k, p) && within(k@, c);
      assert(d.edges().contains((q, k, p)));
      assert(row(d.edges(), ids, n, k, t[k]@));
      let i = class_of(e, r, t[k], c);
      let b = choose|b: int| 0 <= b < e[i]@.len() && in_one(#[trigger] e[i]@[b], c);
      let x = cell(e, i, b).1;
      assert(below(i, b, e.len() as int, 0));
      assert(self.in_range(x, c));
      let z = choose|x: S| #[trigger] self.in_range(x, c);
      self.one_range(x, z, c);
      assert(ids.contains_key(q) && ids.contains_key(p));
      assert(self.entry(ids[q] as int, x) == self.table@[flat(i, n, ids[q] as int)]);
      assert(below(i, ids[q] as int, r.len() as int, 0));
    }
    assert forall|q: usize, c: S| #[trigger] d.is_state(q) && (forall|p: usize| !#[trigger] d.goes(q, c, p)) implies (#[trigger] self.next(ids[q], c)) is None by {
      if exists|x: S| #[trigger] self.in_range(x, c) {
        let x = choose|x: S| #[trigger] self.in_range(x, c);
        let (i, b) = choose|a: int, b: int| 0 <= a < e.len() && 0 <= b < e[a]@.len() && below(a, b, e.len() as int, 0) && #[trigger] cell(e, a, b) == (m[x].0, x) && m[x].1 == a;
        assert(in_one(e[i]@[b], c));
        assert(within(e[i]@, c));
        let k = key_of(t, r[i], c);
        assert(row(d.edges(), ids, n, k, t[k]@));
        assert forall|p: usize| !#[trigger] d.edges().contains((q, k, p)) by { if d.edges().contains((q, k, p)) { assert(d.edge(q, k, p)); assert(d.goes(q, c, p)); } }
        assert(ids.contains_key(q));
        assert(self.entry(ids[q] as int, x) == self.table@[flat(i, n, ids[q] as int)]);
        assert(below(i, ids[q] as int, r.len() as int, 0));
      }
    }
  }
}
//@ item laps_regex/src/table.rs impl StateTransTable#0 props=C06 only=1
//@ fn new attr=loop_isolation(false)
    requires dfa.wf(),
    ensures r.wf(), exists|ids: Map<usize, usize>| #[trigger] r.of(dfa, ids),
//@ after let temp_table = $s_e;
    let ghost tt = temp_table;
    let ghost ids = choose|ids: Map<usize, usize>| #[trigger] tt.of(dfa, ids);
    let ghost n = tt.num_states as int;
    proof {
      assert forall|k: Vec<(S, S)>| #[trigger] tt.table@.contains_key(k) implies proper(k@) && dfa.is_key(k) by {
        let (q, p) = choose|q: usize, p: usize| #[trigger] dfa.edges().contains((q, k, p));
        assert(dfa.edge(q, k, p));
      }
    }
//@ after let (equivs, trans_table, init_id, tags) = $s_e;
    let ghost (eq, tr) = (equivs@, trans_table@);
    proof { class_rows(dfa.edges(), ids, n, tt.table@, eq, tr); assert(spread(eq)); assert(equivs.len() == eq.len()); }
//@ loop 0
    invariant
      it0.seq() == tr,
      laid(tr, n, v_@, it0.index@, 0),
//@ loop 1
    invariant
      it1.seq() == s0,
      laid(tr, n, v_@, i0, it1.index@),
//@ loopbody 0
      let ghost s0 = s@;
      let ghost i0 = it0.index@;
      proof { assert(s == tr[i0]); assert(tr[i0]@.len() == n); }
//@ loopbody 1
        proof { assert(s0[it1.index@] == x_); laid_one(tr, n, v_@, i0, it1.index@); }
//@ loopend 0
      proof { laid_row(tr, n, v_@, i0); }
//@ after let t_ = $s_e;
    proof { assert(laid(tr, n, t_.table@, tr.len() as int, 0)); assert(mapped(eq, t_.sym_map@, eq.len() as int, 0)); t_.built(dfa, ids, tt, eq, tr); }
//@ loop 2
    invariant
      it2.seq() == eq,
      i_ == it2.index@, eq.len() <= usize::MAX,
      mapped(eq, m_@, it2.index@, 0),
//@ loop 3
    invariant
      it3.seq() == es0,
      mapped(eq, m_@, i as int, it3.index@),
//@ loopbody 2
      let ghost es0 = es@;
      proof { assert(es == eq[it2.index@]); }
//@ loopbody 3
        proof { assert(es0[it3.index@] == (l, r)); assert(cell(eq, i as int, it3.index@) == (l, r)); map_one(eq, m_@, i as int, it3.index@); }
//@ end
