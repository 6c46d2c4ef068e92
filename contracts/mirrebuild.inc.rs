// ------------------------------------------------------------ the expression over the classes
impl<K, V> BTreeMap<K, V> {
  /// `into_iter()`, in the order of the keys.
  #[verifier::external_body]
  pub fn into_sorted_(self) -> (r: Vec<(K, V)>) ensures lists(r@, self@), forall|i: int, j: int| 0 <= i < j < r@.len() ==> ord((#[trigger] r@[i]).0) < ord((#[trigger] r@[j]).0) { unimplemented!() }
}
/// `&v[a..=b]`.
#[verifier::external_body]
fn sub_<T>(v: &[T], a: usize, b: usize) -> (r: &[T]) requires a <= b < v@.len() ensures r@ == v@.subrange(a as int, b + 1) { unimplemented!() }
/// The classes in order, and where each starts and ends.
#[verifier::opaque]
pub open spec fn tabled<S>(s: Work<S>, lm: Map<S, usize>, rm: Map<S, usize>) -> bool {
  &&& forall|i: int| 0 <= i < s.len() ==> sorted((#[trigger] s[i])@) && lm.contains_key(s[i]@[0].0) && lm[s[i]@[0].0] == i && rm.contains_key(s[i]@.last().1) && rm[s[i]@.last().1] == i
  &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> ord((#[trigger] s[i])@.last().1) < ord((#[trigger] s[j])@[0].0)
}
/// Every symbol of p lies in a class inside of p.
#[verifier::opaque]
pub open spec fn made_of<S>(s: Work<S>, p: Seq<(S, S)>) -> bool { forall|c: S| #[trigger] within(p, c) ==> exists|i: int| 0 <= i < s.len() && within((#[trigger] s[i])@, c) && sub(s[i]@, p) }
pub open spec fn all_made<S, T>(x: Mir<S, T>, s: Work<S>) -> bool { forall|k: Vec<(S, S)>| #[trigger] has_range(x, k) ==> made_of(s, k@) }
pub open spec fn all_in<S, T>(x: Mir<S, T>, s: Work<S>) -> bool { forall|k: Vec<(S, S)>| #[trigger] has_range(x, k) ==> s.contains(k) }
proof fn first_in<S>(p: Seq<(S, S)>)
  requires sorted(p),
  ensures within(p, p[0].0), within(p, p.last().1), ord(p[0].0) <= ord(p.last().1), forall|c: S| #[trigger] within(p, c) ==> ord(p[0].0) <= ord(c) <= ord(p.last().1),
{
  sorted_ends(p);
  assert(in_one(p[0], p[0].0)); assert(in_one(p[p.len() - 1], p.last().1));
}
/// Classes in order stay apart.
proof fn tabled_apart<S>(s: Work<S>, lm: Map<S, usize>, rm: Map<S, usize>, i: int, j: int, c: S)
  requires tabled(s, lm, rm), 0 <= i < s.len(), 0 <= j < s.len(), within(s[i]@, c), within(s[j]@, c),
  ensures i == j,
{ reveal(tabled); first_in(s[i]@); first_in(s[j]@); }
proof fn made_at<S>(s: Work<S>, p: Seq<(S, S)>, c: S) -> (i: int)
  requires made_of(s, p), within(p, c),
  ensures 0 <= i < s.len(), within(s[i]@, c), sub(s[i]@, p),
{ reveal(made_of); choose|i: int| 0 <= i < s.len() && within((#[trigger] s[i])@, c) && sub(s[i]@, p) }
proof fn tabled_at<S>(s: Work<S>, lm: Map<S, usize>, rm: Map<S, usize>, i: int)
  requires tabled(s, lm, rm), 0 <= i < s.len(),
  ensures sorted(s[i]@), lm.contains_key(s[i]@[0].0), lm[s[i]@[0].0] == i, rm.contains_key(s[i]@.last().1), rm[s[i]@.last().1] == i, within(s[i]@, s[i]@[0].0), within(s[i]@, s[i]@.last().1), ord(s[i]@[0].0) <= ord(s[i]@.last().1),
{ reveal(tabled); first_in(s[i]@); }
proof fn tabled_lt<S>(s: Work<S>, lm: Map<S, usize>, rm: Map<S, usize>, i: int, j: int)
  requires tabled(s, lm, rm), 0 <= i < j < s.len(),
  ensures ord(s[i]@.last().1) < ord(s[j]@[0].0),
{ reveal(tabled); }
/// The classes of p are those which start in p, and they lie between the first and the last.
proof fn made<S>(s: Work<S>, lm: Map<S, usize>, rm: Map<S, usize>, p: Seq<(S, S)>)
  requires tabled(s, lm, rm), made_of(s, p), sorted(p),
  ensures
    lm.contains_key(p[0].0), rm.contains_key(p.last().1), lm[p[0].0] <= rm[p.last().1] < s.len(),
    forall|i: int| 0 <= i < s.len() ==> within(p, (#[trigger] s[i])@[0].0) == sub(s[i]@, p),
    forall|i: int| 0 <= i < s.len() && sub((#[trigger] s[i])@, p) ==> lm[p[0].0] <= i <= rm[p.last().1],
{
  first_in(p);
  let l = p[0].0; let r = p.last().1;
  assert forall|i: int| 0 <= i < s.len() implies within(p, (#[trigger] s[i])@[0].0) == sub(s[i]@, p) by {
    tabled_at(s, lm, rm, i);
    let c = s[i]@[0].0;
    if within(p, c) { let j = made_at(s, p, c); tabled_apart(s, lm, rm, i, j, c); }
  }
  let a = made_at(s, p, l); let b = made_at(s, p, r);
  tabled_at(s, lm, rm, a); tabled_at(s, lm, rm, b);
  first_in(s[a]@); first_in(s[b]@);
  assert(within(p, s[a]@[0].0)); assert(within(p, s[b]@.last().1));
  ord_one(s[a]@[0].0, l); ord_one(s[b]@.last().1, r);
  assert forall|i: int| 0 <= i < s.len() && sub((#[trigger] s[i])@, p) implies a <= i <= b by {
    tabled_at(s, lm, rm, i);
    assert(within(p, s[i]@[0].0)); assert(within(p, s[i]@.last().1));
    if i < a { tabled_lt(s, lm, rm, i, a); }
    if b < i { tabled_lt(s, lm, rm, b, i); }
  }
}
/// The classes from a on, n of them, which start in p.
pub open spec fn picked<S, T>(s: Work<S>, p: Seq<(S, S)>, a: int, n: int, o: Alts<S, T>) -> bool {
  &&& forall|j: int| 0 <= j < o.len() ==> (#[trigger] o[j]).1 is None && o[j].0 is Ranges && exists|i: int| a <= i < a + n && #[trigger] s[i] == o[j].0->Ranges_0 && within(p, s[i]@[0].0)
  &&& forall|i: int| a <= i < a + n && within(p, (#[trigger] s[i])@[0].0) ==> o.contains((Mir::<S, T>::Ranges(s[i]), None))
}
proof fn pick<S, T>(s: Work<S>, p: Seq<(S, S)>, a: int, n: int, o: Alts<S, T>, o2: Alts<S, T>)
  requires n >= 0, picked(s, p, a, n, o), o2 == if within(p, s[a + n]@[0].0) { o.push((Mir::<S, T>::Ranges(s[a + n]), None)) } else { o },
  ensures picked(s, p, a, n + 1, o2),
{
  assert forall|j: int| 0 <= j < o2.len() implies (#[trigger] o2[j]).1 is None && o2[j].0 is Ranges && exists|i: int| a <= i < a + n + 1 && #[trigger] s[i] == o2[j].0->Ranges_0 && within(p, s[i]@[0].0) by {
    if j < o.len() { assert(o2[j] == o[j]); let i = choose|i: int| a <= i < a + n && #[trigger] s[i] == o[j].0->Ranges_0 && within(p, s[i]@[0].0); assert(s[i] == o2[j].0->Ranges_0); } else { assert(s[a + n] == o2[j].0->Ranges_0); }
  }
  assert forall|i: int| a <= i < a + n + 1 && within(p, (#[trigger] s[i])@[0].0) implies o2.contains((Mir::<S, T>::Ranges(s[i]), None)) by {
    let x = (Mir::<S, T>::Ranges(s[i]), None::<T>);
    if i < a + n { assert(o.contains(x)); let j = choose|j: int| 0 <= j < o.len() && o[j] == x; assert(o2[j] == x); } else { assert(o2[o.len() as int] == x); }
  }
}
/// A list of untagged ranges which make up p.
#[verifier::opaque]
pub open spec fn parts_of<S, T>(p: Seq<(S, S)>, o: Alts<S, T>) -> bool {
  &&& forall|j: int| 0 <= j < o.len() ==> (#[trigger] o[j]).1 is None && o[j].0 is Ranges && sub((o[j].0->Ranges_0)@, p)
  &&& forall|c: S| #[trigger] within(p, c) ==> exists|j: int| 0 <= j < o.len() && within(((#[trigger] o[j]).0->Ranges_0)@, c)
}
proof fn parts_leaf<S, T>(p: Seq<(S, S)>, o: Vec<(Mir<S, T>, Option<T>)>)
  requires sorted(p), parts_of(p, o@),
  ensures leaf(p, Mir::Alter(o)),
{
  reveal(parts_of);
  let r = Mir::Alter(o);
  assert(r->Alter_0 == o);
  assert forall|w: Seq<S>| #[trigger] fits(r, w) == (w.len() == 1 && within(p, w[0])) by {
    fits_alter(o, w);
    if fits_altq(o@, w) {
      let j = choose|j: int| 0 <= j < o@.len() && fits((#[trigger] o@[j]).0, w);
      fits_ranges::<S, T>(o@[j].0->Ranges_0, w);
    }
    if w.len() == 1 && within(p, w[0]) {
      let j = choose|j: int| 0 <= j < o@.len() && within(((#[trigger] o@[j]).0->Ranges_0)@, w[0]);
      fits_ranges::<S, T>(o@[j].0->Ranges_0, w);
      assert(fits(o@[j].0, w));
    }
  }
  first_in(p);
  assert(within(p, p[0].0));
  assert(o.len() > 0);
  assert(untagged(r)) by { assert forall|j: int| 0 <= j < o.len() implies (#[trigger] o[j]).1 is None && untagged(o[j].0) by { assert(o@[j].0 is Ranges); } }
  assert(full(r)) by { assert forall|j: int| 0 <= j < o.len() implies full((#[trigger] o[j]).0) by { assert(o@[j].0 is Ranges); } }
}
proof fn picked_in<S, T>(s: Work<S>, p: Seq<(S, S)>, a: int, n: int, o: Vec<(Mir<S, T>, Option<T>)>)
  requires picked(s, p, a, n, o@), 0 <= a, a + n <= s.len(),
  ensures all_in(Mir::Alter(o), s),
{
  let r = Mir::Alter(o);
  assert(r->Alter_0 == o);
  assert forall|k: Vec<(S, S)>| #[trigger] has_range(r, k) implies s.contains(k) by {
    let j = choose|j: int| 0 <= j < o.len() && has_range((#[trigger] o[j]).0, k);
    assert(o@[j].0 is Ranges);
    let i = choose|i: int| a <= i < a + n && #[trigger] s[i] == o@[j].0->Ranges_0 && within(p, s[i]@[0].0);
    assert(s[i] == k);
  }
}
proof fn picked_parts<S, T>(s: Work<S>, lm: Map<S, usize>, rm: Map<S, usize>, p: Seq<(S, S)>, o: Alts<S, T>)
  requires tabled(s, lm, rm), made_of(s, p), sorted(p), picked(s, p, lm[p[0].0] as int, rm[p.last().1] + 1 - lm[p[0].0], o),
  ensures parts_of(p, o),
{
  made(s, lm, rm, p);
  reveal(parts_of);
  assert forall|j: int| 0 <= j < o.len() implies (#[trigger] o[j]).1 is None && o[j].0 is Ranges && sub((o[j].0->Ranges_0)@, p) by {
    let i = choose|i: int| lm[p[0].0] <= i < rm[p.last().1] + 1 && #[trigger] s[i] == o[j].0->Ranges_0 && within(p, s[i]@[0].0);
    assert(sub(s[i]@, p));
  }
  assert forall|c: S| #[trigger] within(p, c) implies exists|j: int| 0 <= j < o.len() && within(((#[trigger] o[j]).0->Ranges_0)@, c) by {
    let i = made_at(s, p, c);
    assert(within(p, s[i]@[0].0));
    let x = (Mir::<S, T>::Ranges(s[i]), None::<T>);
    assert(o.contains(x));
    let j = choose|j: int| 0 <= j < o.len() && o[j] == x;
    assert(within((o[j].0->Ranges_0)@, c));
  }
}
proof fn picked_done<S, T>(s: Work<S>, lm: Map<S, usize>, rm: Map<S, usize>, rs: Vec<(S, S)>, o: Vec<(Mir<S, T>, Option<T>)>)
  requires tabled(s, lm, rm), made_of(s, rs@), sorted(rs@), picked(s, rs@, lm[rs@[0].0] as int, rm[rs@.last().1] + 1 - lm[rs@[0].0], o@),
  ensures leaf(rs@, Mir::Alter(o)), all_in(Mir::Alter(o), s),
{
  picked_parts(s, lm, rm, rs@, o@);
  parts_leaf(rs@, o);
  made(s, lm, rm, rs@);
  picked_in(s, rs@, lm[rs@[0].0] as int, rm[rs@.last().1] + 1 - lm[rs@[0].0], o);
}
proof fn triple_done<S>(m: Classes<S>, e: Seq<(S, (S, Vec<(S, S)>))>, s: Work<S>, lm: Map<S, usize>, rm: Map<S, usize>)
  requires classes(m), entered(m, e, e.len() as int, s, lm, rm),
  ensures tabled(s, lm, rm), forall|p: Seq<(S, S)>| classed(m, p) ==> #[trigger] made_of(s, p),
{
  reveal(tabled); reveal(classes); reveal(classed); reveal(made_of);
  assert forall|i: int| 0 <= i < s.len() implies sorted((#[trigger] s[i])@) && lm.contains_key(s[i]@[0].0) && lm[s[i]@[0].0] == i && rm.contains_key(s[i]@.last().1) && rm[s[i]@.last().1] == i by { assert(m.contains_key(e[i].0)); assert(entry(e[i].0, m[e[i].0])); }
  assert forall|i: int, j: int| 0 <= i < j < s.len() implies ord((#[trigger] s[i])@.last().1) < ord((#[trigger] s[j])@[0].0) by { assert(m.contains_key(e[i].0)); assert(m.contains_key(e[j].0)); assert(entry(e[i].0, m[e[i].0])); assert(entry(e[j].0, m[e[j].0])); }
  assert forall|p: Seq<(S, S)>| classed(m, p) implies #[trigger] made_of(s, p) by {
    assert forall|c: S| #[trigger] within(p, c) implies exists|i: int| 0 <= i < s.len() && within((#[trigger] s[i])@, c) && sub(s[i]@, p) by {
      let l = choose|l: S| #[trigger] m.contains_key(l) && within(m[l].1@, c) && sub(m[l].1@, p);
      let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == l;
      assert(s[i] == m[l].1);
    }
  }
}
/// The first n entries are in the triple.
pub open spec fn entered<S>(m: Classes<S>, e: Seq<(S, (S, Vec<(S, S)>))>, n: int, s: Work<S>, lm: Map<S, usize>, rm: Map<S, usize>) -> bool {
  &&& lists(e, m) && (forall|i: int, j: int| 0 <= i < j < e.len() ==> ord((#[trigger] e[i]).0) < ord((#[trigger] e[j]).0))
  &&& s.len() == n && n <= e.len()
  &&& forall|i: int| 0 <= i < n ==> #[trigger] s[i] == e[i].1.1 && lm.contains_key(e[i].0) && lm[e[i].0] == i && rm.contains_key(e[i].1.0) && rm[e[i].1.0] == i
}
proof fn enter<S>(m: Classes<S>, e: Seq<(S, (S, Vec<(S, S)>))>, n: int, s: Work<S>, lm: Map<S, usize>, rm: Map<S, usize>, k: usize)
  requires classes(m), entered(m, e, n, s, lm, rm), n < e.len(), k == n,
  ensures entered(m, e, n + 1, s.push(e[n].1.1), lm.insert(e[n].0, k), rm.insert(e[n].1.0, k)),
{
  let s2 = s.push(e[n].1.1);
  reveal(classes);
  assert(m.contains_key(e[n].0)); assert(entry(e[n].0, m[e[n].0])); sorted_ends(e[n].1.1@);
  assert forall|i: int| 0 <= i < n implies e[i].0 != e[n].0 && #[trigger] s2[i] == s[i] && e[i].1.0 != e[n].1.0 by { assert(m.contains_key(e[i].0)); assert(entry(e[i].0, m[e[i].0])); }
}
//@ rewrite iterator adapters to a loop :: let (syms, (lmap, rmap)) = symbols.into_iter().enumerate().map(|(i, (l, (r, rs)))| $e).unzip(); ==> let mut syms: Vec<Vec<(S, S)>> = Vec::new(); let mut lmap: HashMap<S, usize> = HashMap::new(); let mut rmap: HashMap<S, usize> = HashMap::new(); let q_ = symbols.into_sorted_(); for p_ in q_ { let i = syms.len(); let (l, (r, rs)) = p_; let t_ = $e; syms.push(t_.0); lmap.insert(t_.1.0.0, t_.1.0.1); rmap.insert(t_.1.1.0, t_.1.1.1); }
//@ rewrite references to lists :: Self::endpoints_of(&$e) ==> Self::endpoints_of($e.as_slice())
//@ rewrite references to lists :: Self::endpoints_of(s) ==> Self::endpoints_of(s.as_slice())
//@ rewrite references to lists :: Self::ranges_contains(&rs, $e) ==> Self::ranges_contains(rs.as_slice(), $e)
//@ rewrite clone of a value :: s.clone() ==> clone_(s)
//@ rewrite contents of a box :: k.rebuild($s_a) ==> { let k_ = unbox_(k).rebuild($s_a); k_ }
//@ rewrite lookup in a map :: lmap[$e] ==> *lmap.index_($e)
//@ rewrite lookup in a map :: rmap[$e] ==> *rmap.index_($e)
//@ rewrite iterator adapters to a loop :: Self::Alter(syms[$a..=$b].iter().filter(|&s| $e).map(|s| $f).collect()$o_c) ==> { let a_ = $a; let b_ = $b; let v_ = sub_(syms, a_, b_); let mut o_: Vec<(Self, Option<T>)> = Vec::new(); let n_ = v_.len(); for i_ in 0..n_ { let s = &v_[i_]; if $e { let x_ = $f; o_.push(x_); } } Self::Alter(o_) }
//@ rewrite iterator adapters to a loop :: Self::Concat(c.into_iter().map(|e| $e).collect()) ==> { let mut o_: Vec<Self> = Vec::new(); for e in c { let x_ = $e; o_.push(x_); } Self::Concat(o_) }
//@ rewrite iterator adapters to a loop :: Self::Alter(a.into_iter().map(|(e, t)| $e).collect()$o_c) ==> { let mut o_: Vec<(Self, Option<T>)> = Vec::new(); for p_ in a { let (e, t) = p_; let x_ = $e; o_.push(x_); } Self::Alter(o_) }
//@ rewrite references to lists :: self_.rebuild(&syms, &lmap, &rmap).opt_without_rebuild() ==> { let ghost m1 = self_; let b_ = self_.rebuild(syms.as_slice(), &lmap, &rmap); let z_ = b_.opt_without_rebuild(); z_ }
/// Ranges of one key lie apart from those of another.
pub open spec fn keys_apart<S, T>(m: Mir<S, T>) -> bool {
  forall|a: Vec<(S, S)>, b: Vec<(S, S)>| #[trigger] has_range(m, a) && #[trigger] has_range(m, b) && a != b ==> apart(a@, b@)
}
proof fn tabled_keys<S>(s: Work<S>, lm: Map<S, usize>, rm: Map<S, usize>)
  requires tabled(s, lm, rm),
  ensures
    forall|k: Vec<(S, S)>| #[trigger] s.contains(k) ==> sorted(k@),
    forall|a: Vec<(S, S)>, b: Vec<(S, S)>| #[trigger] s.contains(a) && #[trigger] s.contains(b) && a != b ==> apart(a@, b@),
{
  assert forall|k: Vec<(S, S)>| #[trigger] s.contains(k) implies sorted(k@) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == k; tabled_at(s, lm, rm, i); }
  assert forall|a: Vec<(S, S)>, b: Vec<(S, S)>| #[trigger] s.contains(a) && #[trigger] s.contains(b) && a != b implies apart(a@, b@) by {
    let i = choose|i: int| 0 <= i < s.len() && s[i] == a; let j = choose|j: int| 0 <= j < s.len() && s[j] == b;
    assert forall|c: S| !(#[trigger] within(a@, c) && within(b@, c)) by { if within(a@, c) && within(b@, c) { tabled_apart(s, lm, rm, i, j, c); } }
  }
}
pub proof fn sorted_proper<S>(k: Seq<(S, S)>)
  requires sorted(k),
  ensures proper(k),
{
  assert forall|i: int, j: int, c: S| 0 <= i < k.len() && 0 <= j < k.len() && i != j implies !(#[trigger] in_one(k[i], c) && #[trigger] in_one(k[j], c)) by { if i < j { assert(ord(k[i].1) < ord(k[j].0)); } else { assert(ord(k[j].1) < ord(k[i].0)); } }
}
pub open spec fn optimal<S, T>(m: Mir<S, T>, r: Result<Mir<S, T>, Error>) -> bool {
  match r {
    Ok(x) => tails(x) && equal(m, x) && keys_apart(x) && (forall|k: Vec<(S, S)>| #[trigger] has_range(x, k) ==> sorted(k@) && proper(k@)),
    Err(e) => e is MatchesNothing && (!full(m) || hole(m)),
  }
}
//@ item laps_regex/src/mir.rs impl Mir#1
//@ drop normalize_ranges collect_symbols endpoints_of split_ranges ranges_contains symbol_set opt_without_rebuild optimize_concat optimize_alter optimize_kleene
//@ fn optimize
    requires placed(self), valid(self),
    ensures optimal(self, r),
//@ entry
    let ghost m = self;
    proof { if full(m) { } }
//@ after let b_ = $s_e;
    proof {
      alike_equal(m, m1); alike_equal(m1, b_); equal_trans(m, m1, b_);
      tabled_keys(syms@, lmap@, rmap@);
    }
//@ after let z_ = $s_e;
    proof {
      if z_ is Ok {
        let x = z_->Ok_0;
        same_equal(b_, x); equal_trans(m, b_, x);
        assert forall|k: Vec<(S, S)>| #[trigger] has_range(x, k) implies sorted(k@) && proper(k@) && syms@.contains(k) by { assert(has_range(b_, k)); assert(syms@.contains(k)); sorted_proper(k@); }
        assert(keys_apart(x));
      }
    }
//@ fn into_triple
    requires classes(symbols@),
    ensures tabled(r.0@, r.1@, r.2@), forall|p: Seq<(S, S)>| classed(symbols@, p) ==> #[trigger] made_of(r.0@, p),
//@ entry
    let ghost m = symbols@;
//@ after let q_ = $s_e;
    let ghost e = q_@;
//@ loop 0
    invariant it0.seq() == e, classes(m), entered(m, e, it0.index(), syms@, lmap@, rmap@),
//@ loopbody 0
    let ghost s1 = syms@; let ghost l1 = lmap@; let ghost r1 = rmap@; let ghost n = it0.index();
//@ loopend 0
    proof { assert(p_ == e[n]); enter(m, e, n, s1, l1, r1, i); }
//@ after for p_ in q_ { $s_b }
    proof { triple_done(m, e, syms@, lmap@, rmap@); }
//@ fn rebuild
    requires normal(self), tabled(syms@, lmap@, rmap@), all_made(self, syms@),
    ensures alike(self, r), all_in(r, syms@),
    decreases self,
//@ entry
    let ghost m = self; let ghost cl = syms@; let ghost lm = lmap@; let ghost rm = rmap@;
    proof {
      match m {
        Mir::Ranges(a) => { assert(has_range(m, a)); made(cl, lm, rm, a@); }
        Mir::Concat(c) => { of_concat(c); assert forall|j: int| 0 <= j < c.len() implies normal(#[trigger] c[j]) && all_made(c[j], cl) by { assert forall|k: Vec<(S, S)>| #[trigger] has_range(c[j], k) implies sorted(k@) && made_of(cl, k@) by { assert(has_range(m, k)); } } }
        Mir::Alter(c) => { of_alter(c); assert forall|j: int| 0 <= j < c.len() implies normal((#[trigger] c[j]).0) && all_made(c[j].0, cl) by { assert forall|k: Vec<(S, S)>| #[trigger] has_range(c[j].0, k) implies sorted(k@) && made_of(cl, k@) by { assert(has_range(m, k)); } } }
        Mir::Kleene(k) => { assert forall|x: Vec<(S, S)>| #[trigger] has_range(*k, x) implies sorted(x@) && made_of(cl, x@) by { assert(has_range(m, x)); } }
        Mir::Empty => {}
      }
    }
//@ after let mut o_: Vec<(Self, Option<T>)> = Vec::new(); let n_ = $e;
    let ghost a0 = a_ as int;
//@ loop 0
    invariant 0 <= a0, a0 + n_ <= cl.len(), v_@ == cl.subrange(a0, a0 + n_), n_ == v_@.len(), tabled(cl, lm, rm), sorted(rs@), picked(cl, rs@, a0, i_ as int, o_@),
//@ loopbody 0
    let ghost o0 = o_@;
    proof { assert(v_@[i_ as int] == cl[a0 + i_]); tabled_at(cl, lm, rm, a0 + i_); }
//@ loopend 0
    proof { pick(cl, rs@, a0, i_ as int, o0, o_@); }
//@ after for i_ in 0..n_ { $s_b }
    proof { picked_done(cl, lm, rm, rs, o_); }
//@ loop 1
    invariant m == self, m is Concat, it1.seq() == (m->Concat_0)@, cl == syms@, lm == lmap@, rm == rmap@, tabled(cl, lm, rm), o_@.len() == it1.index(),
      forall|j: int| 0 <= j < (m->Concat_0)@.len() ==> normal(#[trigger] (m->Concat_0)@[j]) && all_made((m->Concat_0)@[j], cl),
      forall|j: int| 0 <= j < o_@.len() ==> alike((m->Concat_0)@[j], #[trigger] o_@[j]) && all_in(o_@[j], cl),
//@ loopbody 1
    proof { assert(e == (m->Concat_0)@[it1.index()]); assert(decreases_to!(m->Concat_0 => (m->Concat_0)[it1.index()])); }
//@ after for e in c { $s_b }
    proof { let x = Mir::<S, T>::Concat(o_); assert(x->Concat_0 == o_); assert(alike(m, x)); assert forall|k: Vec<(S, S)>| #[trigger] has_range(x, k) implies cl.contains(k) by { let j = choose|j: int| 0 <= j < o_.len() && has_range(#[trigger] o_[j], k); assert(all_in(o_@[j], cl)); } }
//@ loop 2
    invariant m == self, m is Alter, it2.seq() == (m->Alter_0)@, cl == syms@, lm == lmap@, rm == rmap@, tabled(cl, lm, rm), o_@.len() == it2.index(),
      forall|j: int| 0 <= j < (m->Alter_0)@.len() ==> normal((#[trigger] (m->Alter_0)@[j]).0) && all_made((m->Alter_0)@[j].0, cl),
      forall|j: int| 0 <= j < o_@.len() ==> alike((m->Alter_0)@[j].0, (#[trigger] o_@[j]).0) && o_@[j].1 == (m->Alter_0)@[j].1 && all_in(o_@[j].0, cl),
//@ loopbody 2
    proof { assert(p_ == (m->Alter_0)@[it2.index()]); assert(decreases_to!(m->Alter_0 => (m->Alter_0)[it2.index()])); }
//@ after for p_ in a { $s_b }
    proof { let x = Mir::<S, T>::Alter(o_); assert(x->Alter_0 == o_); assert(alike(m, x)); assert forall|k: Vec<(S, S)>| #[trigger] has_range(x, k) implies cl.contains(k) by { let j = choose|j: int| 0 <= j < o_.len() && has_range((#[trigger] o_[j]).0, k); assert(all_in(o_@[j].0, cl)); } }
//@ after let k_ = $s_e;
    proof { let x = Mir::<S, T>::Kleene(Box::new(k_)); assert forall|y: Vec<(S, S)>| #[trigger] has_range(x, y) implies cl.contains(y) by { assert(has_range(k_, y)); } assert(alike(m, x)); }
//@ end
