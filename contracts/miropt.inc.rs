// ------------------------------------------------------------ rewriting of an expression
//@ rewrite contents of a box :: Self::optimize_kleene(*k) ==> Self::optimize_kleene(unbox_(k))
//@ rewrite extend of a list by another :: new_c.extend(c) ==> append_(&mut new_c, c)
//@ rewrite iterator adapters to a loop :: new_a.extend(a.into_iter().map(|(e, inner_t)| (e, t.clone().or(inner_t))).filter(|et| set.insert(et.clone()))$o_c) ==> { for p_ in a { let (e, inner_t) = p_; let et = (e, or_(clone_(&t), inner_t)); if set.insert(clone_(&et)) { new_a.push(et); } } }
//@ rewrite clone of a value :: set.insert(et.clone()) ==> set.insert(clone_(&et))
//@ rewrite pattern of a borrowed first element :: if let Some((e, None)) = new_a.first() { return Ok(e.clone()); } ==> if new_a.len() > 0 && new_a[0].1.is_none() { let e_ = clone_(&new_a[0].0); return Ok(e_); }
//@ rewrite iterator adapters to a loop :: new_a.iter().all(|(e, _)| matches!(e, Self::Concat(_))) ==> { let mut r_ = true; let mut i_ = 0; while i_ < new_a.len() && r_ { if !matches!(new_a[i_].0, Self::Concat(_)) { r_ = false; } i_ = i_ + 1; } r_ }
//@ rewrite iterator adapters to a loop :: new_a.into_iter().map(|(e, t)| match e { Self::Concat(mut c) => { c.reverse(); (c, t) } _ => unreachable!()$o_c }).collect() ==> { let mut r_: Vec<(Vec<Self>, Option<T>)> = Vec::new(); for p_ in new_a { let (e, t) = p_; let q_ = match e { Self::Concat(c_) => { let c = reversed_(c_); (c, t) } _ => unreached() }; r_.push(q_); } r_ }
//@ rewrite iterator adapters to a loop :: let mut iter = rev_subs.iter().map(|(es, _)| es.last()); let first = iter.next().unwrap(); ==> let first = last_(&rev_subs[0].0);
//@ rewrite iterator adapters to a loop :: iter.all(|e| e == first) ==> { let mut r_ = true; let mut i_ = 1; while i_ < rev_subs.len() && r_ { if !same_(&last_(&rev_subs[i_].0), &first) { r_ = false; } i_ = i_ + 1; } r_ }
//@ rewrite clone of a value :: same_subs.push(first.unwrap().clone()) ==> same_subs.push(clone_(first.unwrap()))
//@ rewrite iterator adapters to a loop :: rev_subs.iter_mut().for_each(|(es, _)| { es.pop(); }) ==> { for i_ in 0..rev_subs.len() { rev_subs[i_].0.pop(); } }
//@ rewrite iterator adapters to a loop :: rev_subs.into_iter().map(|(mut es, t)| { if es.is_empty() { (Self::Empty, t) } else { es.reverse(); (Self::Concat(es), t) } }).collect() ==> { let mut r_: Vec<(Self, Option<T>)> = Vec::new(); for p_ in rev_subs { let (es_, t) = p_; let q_ = if es_.is_empty() { (Self::Empty, t) } else { let es = reversed_(es_); (Self::Concat(es), t) }; r_.push(q_); } r_ }
//@ rewrite value in a block, to state a fact about it :: match e.opt_without_rebuild()? { $s_b } ==> { let v_ = e.opt_without_rebuild()?; match v_ { $s_b } }
//@ rewrite value in a block, to state a fact about it :: match k.opt_without_rebuild()? { $s_b } ==> { let v_ = k.opt_without_rebuild()?; match v_ { $s_b } }
//@ rewrite value in a block, to state a fact about it :: Ok(match new_c.len() { $s_b }) ==> Ok({ let n_ = match new_c.len() { $s_b }; n_ })
//@ rewrite value in a block, to state a fact about it :: return Ok(if same_subs.is_empty() { alter } else { $s_b }); ==> return Ok({ let n_ = if same_subs.is_empty() { alter } else { $s_b }; n_ });
//@ rewrite value in a block, to state a fact about it :: same_subs.push(alter.opt_without_rebuild()?) ==> { let o_ = alter.opt_without_rebuild()?; same_subs.push(o_); }
fn or_<T>(a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == or(a, b) { match a { Some(x) => Some(x), None => b } }
pub open spec fn or<T>(a: Option<T>, b: Option<T>) -> Option<T> { if a is Some { a } else { b } }
#[verifier::external_body]
fn reversed_<T>(v: Vec<T>) -> (r: Vec<T>) ensures r@ == v@.reverse() { unimplemented!() }
#[verifier::external_body]
fn last_<T>(v: &Vec<T>) -> (r: Option<&T>) ensures r == if v@.len() > 0 { Some(&v@.last()) } else { None } { unimplemented!() }
/// The same words with the same tags, no more ranges.
pub open spec fn same<S, T>(m: Mir<S, T>, r: Mir<S, T>) -> bool {
  &&& forall|u: Keys<S>| #[trigger] ends(r, u) == ends(m, u)
  &&& forall|u: Keys<S>, t: T| #[trigger] says(r, u, t) == says(m, u, t)
  &&& untagged(m) ==> untagged(r)
  &&& forall|k: Vec<(S, S)>| #[trigger] has_range(r, k) ==> has_range(m, k)
}
pub open spec fn optimized<S, T>(m: Mir<S, T>, r: Result<Mir<S, T>, Error>) -> bool {
  match r { Ok(x) => tails(x) && same(m, x) && size(x) <= size(m), Err(e) => e is MatchesNothing && !full(m) }
}
pub open spec fn all_untagged<S, T>(s: Mirs<S, T>) -> bool { forall|j: int| 0 <= j < s.len() ==> untagged(#[trigger] s[j]) }
pub open spec fn all_tails<S, T>(s: Mirs<S, T>) -> bool { (forall|j: int| 0 <= j < s.len() ==> tails(#[trigger] s[j])) && forall|j: int| 0 <= j < s.len() - 1 ==> untagged(#[trigger] s[j]) }
pub open spec fn in_mirs<S, T>(s: Mirs<S, T>, k: Vec<(S, S)>) -> bool { exists|j: int| 0 <= j < s.len() && has_range(#[trigger] s[j], k) }
pub open spec fn same_mirs<S, T>(s: Mirs<S, T>, q: Mirs<S, T>) -> bool {
  &&& forall|u: Keys<S>| #[trigger] catq(q, u) == catq(s, u)
  &&& forall|u: Keys<S>, t: T| #[trigger] cat_saysq(q, u, t) == cat_saysq(s, u, t)
  &&& all_untagged(s) ==> all_untagged(q)
  &&& forall|k: Vec<(S, S)>| #[trigger] in_mirs(q, k) ==> in_mirs(s, k)
}
proof fn silent_mirs<S, T>(s: Mirs<S, T>, u: Keys<S>, t: T)
  requires all_untagged(s),
  ensures !cat_saysq(s, u, t),
{
  if cat_saysq(s, u, t) {
    let i = choose|i: int| 0 <= i <= u.len() && catq(s.drop_last(), #[trigger] u.take(i)) && says(s.last(), u.skip(i), t);
    assert(untagged(s[s.len() - 1]));
    untagged_silent(s.last(), u.skip(i), t);
  }
}
/// One more expression m, as the list x.
proof fn push_mirs<S, T>(s: Mirs<S, T>, q: Mirs<S, T>, m: Mir<S, T>, x: Mirs<S, T>)
  requires same_mirs(s, q), all_untagged(s), all_tails(q), all_tails(x), same_mirs(seq![m], x),
  ensures same_mirs(s.push(m), q + x), all_tails(q + x),
{
  let e = seq![m];
  assert(s.push(m) =~= s + e);
  assert forall|u: Keys<S>| #[trigger] catq(q + x, u) == catq(s + e, u) by {
    catq_app(q, x, u); catq_app(s, e, u);
    if catq(q + x, u) { let i = choose|i: int| 0 <= i <= u.len() && catq(q, #[trigger] u.take(i)) && catq(x, u.skip(i)); assert(catq(s, u.take(i)) && catq(e, u.skip(i))); }
    if catq(s + e, u) { let i = choose|i: int| 0 <= i <= u.len() && catq(s, #[trigger] u.take(i)) && catq(e, u.skip(i)); assert(catq(q, u.take(i)) && catq(x, u.skip(i))); }
  }
  assert forall|u: Keys<S>, t: T| #[trigger] cat_saysq(q + x, u, t) == cat_saysq(s + e, u, t) by {
    says_app(s, e, u, t);
    if x.len() > 0 {
      says_app(q, x, u, t);
      if cat_saysq(q + x, u, t) { let i = choose|i: int| 0 <= i <= u.len() && catq(q, #[trigger] u.take(i)) && cat_saysq(x, u.skip(i), t); assert(catq(s, u.take(i)) && cat_saysq(e, u.skip(i), t)); }
      if cat_saysq(s + e, u, t) { let i = choose|i: int| 0 <= i <= u.len() && catq(s, #[trigger] u.take(i)) && cat_saysq(e, u.skip(i), t); assert(catq(q, u.take(i)) && cat_saysq(x, u.skip(i), t)); }
    } else {
      assert(q + x =~= q);
      silent_mirs(q, u, t);
      if cat_saysq(s + e, u, t) { let i = choose|i: int| 0 <= i <= u.len() && catq(s, #[trigger] u.take(i)) && cat_saysq(e, u.skip(i), t); assert(cat_saysq(x, u.skip(i), t)); }
    }
  }
  if all_untagged(s.push(m)) {
    assert(untagged(s.push(m)[s.len() as int]));
    assert(all_untagged(e));
    assert forall|j: int| 0 <= j < (q + x).len() implies untagged(#[trigger] (q + x)[j]) by { if j < q.len() { assert(untagged(q[j])); } else { assert(untagged(x[j - q.len()])); } }
  }
  assert forall|k: Vec<(S, S)>| #[trigger] in_mirs(q + x, k) implies in_mirs(s.push(m), k) by {
    let j = choose|j: int| 0 <= j < (q + x).len() && has_range(#[trigger] (q + x)[j], k);
    if j < q.len() {
      assert(has_range(q[j], k)); assert(in_mirs(q, k));
      let i = choose|i: int| 0 <= i < s.len() && has_range(#[trigger] s[i], k); assert(has_range(s.push(m)[i], k));
    } else {
      assert(has_range(x[j - q.len()], k)); assert(in_mirs(x, k));
      let i = choose|i: int| 0 <= i < e.len() && has_range(#[trigger] e[i], k); assert(has_range(s.push(m)[s.len() as int], k));
    }
  }
  assert forall|j: int| 0 <= j < (q + x).len() implies tails(#[trigger] (q + x)[j]) by { if j < q.len() { assert(tails(q[j])); } else { assert(tails(x[j - q.len()])); } }
  assert forall|j: int| 0 <= j < (q + x).len() - 1 implies untagged(#[trigger] (q + x)[j]) by { if j < q.len() { assert(untagged(q[j])); } else { assert(untagged(x[j - q.len()])); } }
}
/// An expression as a list.
pub open spec fn as_mirs<S, T>(m: Mir<S, T>) -> Mirs<S, T> { match m { Mir::Empty => Seq::empty(), Mir::Concat(c) => c@, _ => seq![m] } }
proof fn listed<S, T>(m: Mir<S, T>, r: Mir<S, T>)
  requires same(m, r), tails(r),
  ensures same_mirs(seq![m], as_mirs(r)), all_tails(as_mirs(r)),
{
  let x = as_mirs(r);
  let e = seq![m];
  assert forall|u: Keys<S>| #[trigger] catq(x, u) == catq(e, u) by { catq_one(m, u); catq_one(r, u); if r is Concat { concat_is(r->Concat_0, u); } assert(ends(r, u) == ends(m, u)); }
  assert forall|u: Keys<S>, t: T| #[trigger] cat_saysq(x, u, t) == cat_saysq(e, u, t) by {
    catq_one(m, u); catq_one(r, u);
    assert(cat_saysq(e, u, t) == says(m, u, t));
    if r is Concat { concat_is(r->Concat_0, u); assert(says(r, u, t) == cat_saysq(x, u, t)); } else if !(r is Empty) { assert(cat_saysq(seq![r], u, t) == says(r, u, t)); }
    assert(says(r, u, t) == says(m, u, t));
  }
  if all_untagged(e) { assert(untagged(e[0])); }
  assert forall|k: Vec<(S, S)>| #[trigger] in_mirs(x, k) implies in_mirs(e, k) by {
    let j = choose|j: int| 0 <= j < x.len() && has_range(#[trigger] x[j], k);
    assert(has_range(r, k));
    assert(has_range(e[0], k));
  }
}
proof fn mirs_size<S, T>(m: Mir<S, T>)
  ensures sizeq(as_mirs(m)) <= size(m),
{
  match m { Mir::Empty => {}, Mir::Concat(c) => { concat_size(c); }, _ => { assert(sizeq(as_mirs(m).drop_last()) == 0); } }
}
proof fn alts_size<S, T>(m: Mir<S, T>, t: Option<T>)
  ensures asizeq(as_alts(m, t)) <= size(m),
{
  match m { Mir::Alter(a) => { alter_size(a); spread_size(a@, t); }, _ => { assert(asizeq(as_alts(m, t).drop_last()) == 0); } }
}
proof fn spread_size<S, T>(a: Alts<S, T>, t: Option<T>)
  ensures asizeq(spread(a, t)) == asizeq(a),
  decreases a.len(),
{
  if a.len() > 0 { assert(spread(a, t).drop_last() =~= spread(a.drop_last(), t)); spread_size(a.drop_last(), t); }
}
proof fn same_concat<S, T>(c: Vec<Mir<S, T>>, q: Mirs<S, T>, r: Mir<S, T>)
  requires same_mirs(c@, q), all_tails(q), if q.len() == 0 { r is Empty } else if q.len() == 1 { r == q[0] } else { r is Concat && r->Concat_0@ == q },
  ensures same(Mir::Concat(c), r), tails(r),
{
  let m = Mir::Concat(c);
  let k0 = m->Concat_0;
  assert forall|u: Keys<S>| #[trigger] ends(r, u) == ends(m, u) by { concat_is(c, u); assert(catq(q, u) == catq(c@, u)); if q.len() == 1 { assert(q =~= seq![r]); catq_one(r, u); } else if q.len() > 1 { concat_is(r->Concat_0, u); } }
  assert forall|u: Keys<S>, t: T| #[trigger] says(r, u, t) == says(m, u, t) by {
    concat_is(c, u); assert(says(m, u, t) == cat_saysq(c@, u, t)); assert(cat_saysq(q, u, t) == cat_saysq(c@, u, t));
    if q.len() == 1 { assert(q =~= seq![r]); catq_one(r, u); assert(cat_saysq(seq![r], u, t) == says(r, u, t)); } else if q.len() > 1 { concat_is(r->Concat_0, u); assert(says(r, u, t) == cat_saysq(q, u, t)); }
  }
  if untagged(m) {
    assert forall|j: int| 0 <= j < c@.len() implies untagged(#[trigger] c@[j]) by { assert(untagged(c[j])); }
    assert(all_untagged(q));
    if q.len() > 1 { assert forall|j: int| 0 <= j < r->Concat_0.len() implies untagged(#[trigger] r->Concat_0[j]) by { assert(untagged(q[j])); } } else if q.len() == 1 { assert(untagged(q[0])); }
  }
  assert forall|k: Vec<(S, S)>| #[trigger] has_range(r, k) implies has_range(m, k) by {
    if q.len() == 1 { assert(has_range(q[0], k)); } else if q.len() > 1 { let j = choose|j: int| 0 <= j < r->Concat_0.len() && has_range(#[trigger] r->Concat_0[j], k); assert(has_range(q[j], k)); }
    assert(in_mirs(q, k));
    assert(in_mirs(c@, k));
    let i = choose|i: int| 0 <= i < c@.len() && has_range(#[trigger] c@[i], k);
    assert(has_range(k0[i], k));
  }
  if q.len() == 1 { assert(tails(q[0])); } else if q.len() > 1 {
    assert forall|j: int| 0 <= j < r->Concat_0.len() implies tails(#[trigger] r->Concat_0[j]) by { assert(tails(q[j])); }
    assert forall|j: int| 0 <= j < r->Concat_0.len() - 1 implies untagged(#[trigger] r->Concat_0[j]) by { assert(untagged(q[j])); }
  }
}
// ---- alternatives
pub open spec fn alts_untagged<S, T>(a: Alts<S, T>) -> bool { forall|j: int| 0 <= j < a.len() ==> (#[trigger] a[j]).1 is None && untagged(a[j].0) }
#[verifier::opaque]
pub open spec fn alts_tails<S, T>(a: Alts<S, T>) -> bool { forall|j: int| 0 <= j < a.len() ==> tails((#[trigger] a[j]).0) && (a[j].1 is Some ==> untagged(a[j].0)) }
pub open spec fn in_alts<S, T>(a: Alts<S, T>, k: Vec<(S, S)>) -> bool { exists|j: int| 0 <= j < a.len() && has_range((#[trigger] a[j]).0, k) }
#[verifier::opaque]
pub open spec fn same_alts<S, T>(a: Alts<S, T>, b: Alts<S, T>) -> bool {
  &&& forall|u: Keys<S>| #[trigger] altq(b, u) == altq(a, u)
  &&& forall|u: Keys<S>, t: T| #[trigger] alt_saysq(b, u, t) == alt_saysq(a, u, t)
  &&& alts_untagged(a) ==> alts_untagged(b)
  &&& forall|k: Vec<(S, S)>| #[trigger] in_alts(b, k) ==> in_alts(a, k)
}
proof fn same_alts_eq<S, T>(a: Alts<S, T>)
  ensures same_alts(a, a), a.len() == 0 ==> alts_tails(a),
{ reveal(same_alts); reveal(alts_tails); }
proof fn altq_app<S, T>(a: Alts<S, T>, b: Alts<S, T>)
  ensures
    forall|u: Keys<S>| #[trigger] altq(a + b, u) == (altq(a, u) || altq(b, u)),
    forall|u: Keys<S>, t: T| #[trigger] alt_saysq(a + b, u, t) == (alt_saysq(a, u, t) || alt_saysq(b, u, t)),
    forall|k: Vec<(S, S)>| #[trigger] in_alts(a + b, k) == (in_alts(a, k) || in_alts(b, k)),
    alts_untagged(a + b) == (alts_untagged(a) && alts_untagged(b)), alts_tails(a + b) == (alts_tails(a) && alts_tails(b)),
{
  reveal(alts_tails);
  let c = a + b; let n = a.len() as int;
  assert(forall|j: int| 0 <= j < n ==> #[trigger] a[j] == c[j]);
  assert(forall|j: int| 0 <= j < b.len() ==> #[trigger] b[j] == c[j + n]);
  assert(forall|j: int| 0 <= j < c.len() ==> #[trigger] c[j] == if j < n { a[j] } else { b[j - n] });
}
proof fn push_contains<A>(s: Seq<A>, x: A)
  ensures forall|y: A| #[trigger] s.push(x).contains(y) == (s.contains(y) || y == x), s.no_duplicates() && !s.contains(x) ==> s.push(x).no_duplicates(),
{
  let p = s.push(x);
  assert forall|y: A| #[trigger] p.contains(y) == (s.contains(y) || y == x) by {
    if s.contains(y) { let j = choose|j: int| 0 <= j < s.len() && s[j] == y; assert(p[j] == y); }
    if y == x { assert(p[s.len() as int] == y); }
  }
}
/// One more alternative.
proof fn alts_step<S, T>(a: Alts<S, T>, b: Alts<S, T>, x: (Mir<S, T>, Option<T>), b2: Alts<S, T>)
  requires same_alts(a, b), alts_tails(b), tails(x.0), x.1 is Some ==> untagged(x.0), if b.contains(x) { b2 == b } else { b2 == b.push(x) },
  ensures same_alts(a.push(x), b2), alts_tails(b2),
{
  reveal(alts_tails);
  reveal(same_alts);
  let e = seq![x];
  assert(a.push(x) =~= a + e);
  assert(b.push(x) =~= b + e);
  altq_app(a, e); altq_app(b, e);
  assert(alts_tails(e));
  if b.contains(x) {
    let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
    assert forall|u: Keys<S>| #[trigger] altq(b2, u) == altq(a + e, u) by { assert(altq(b, u) == altq(a, u)); if altq(e, u) { assert(ends(b[j].0, u)); } }
    assert forall|u: Keys<S>, t: T| #[trigger] alt_saysq(b2, u, t) == alt_saysq(a + e, u, t) by { assert(alt_saysq(b, u, t) == alt_saysq(a, u, t)); if alt_saysq(e, u, t) { assert(b[j] == x); } }
    assert forall|k: Vec<(S, S)>| #[trigger] in_alts(b2, k) implies in_alts(a + e, k) by { }
  } else {
    assert forall|u: Keys<S>| #[trigger] altq(b2, u) == altq(a + e, u) by { assert(altq(b, u) == altq(a, u)); }
    assert forall|u: Keys<S>, t: T| #[trigger] alt_saysq(b2, u, t) == alt_saysq(a + e, u, t) by { assert(alt_saysq(b, u, t) == alt_saysq(a, u, t)); }
  }
}
/// An alternative as several.
pub open spec fn spread<S, T>(a: Alts<S, T>, t: Option<T>) -> Alts<S, T> { Seq::new(a.len(), |j: int| (a[j].0, or(t, a[j].1))) }
pub open spec fn as_alts<S, T>(m: Mir<S, T>, t: Option<T>) -> Alts<S, T> { match m { Mir::Alter(a) => spread(a@, t), _ => seq![(m, t)] } }
proof fn alts_listed<S, T>(m: Mir<S, T>, r: Mir<S, T>, t: Option<T>)
  requires same(m, r), tails(r), t is Some ==> untagged(m),
  ensures same_alts(seq![(m, t)], as_alts(r, t)), alts_tails(as_alts(r, t)),
{
  reveal(alts_tails);
  reveal(same_alts);
  let b = as_alts(r, t);
  let e = seq![(m, t)];
  assert forall|u: Keys<S>| #[trigger] altq(b, u) == altq(e, u) by {
    assert(ends(r, u) == ends(m, u));
    assert(e[0].0 == m);
    if r is Alter {
      let a = r->Alter_0;
      alter_is(a, u);
      if altq(a@, u) { let j = choose|j: int| 0 <= j < a@.len() && ends((#[trigger] a@[j]).0, u); assert(ends(b[j].0, u)); }
      if altq(b, u) { let j = choose|j: int| 0 <= j < b.len() && ends((#[trigger] b[j]).0, u); assert(ends(a@[j].0, u)); }
    } else { assert(b[0].0 == r); }
  }
  assert forall|u: Keys<S>, x: T| #[trigger] alt_saysq(b, u, x) == alt_saysq(e, u, x) by {
    assert(ends(r, u) == ends(m, u)); assert(says(r, u, x) == says(m, u, x));
    assert(e[0] == (m, t));
    if r is Alter {
      let a = r->Alter_0;
      alter_is(a, u);
      assert(says(Mir::Alter(a), u, x) == alt_saysq(a@, u, x));
      if t is Some {
        untagged_silent(m, u, x);
        if alt_saysq(b, u, x) {
          let j = choose|j: int| 0 <= j < b.len() && ((#[trigger] b[j]).1 == Some(x) && ends(b[j].0, u) || says(b[j].0, u, x));
          assert(a[j].0 == b[j].0);
          untagged_silent(a[j].0, u, x);
          assert(ends(a@[j].0, u)); assert(altq(a@, u));
        }
        if alt_saysq(e, u, x) { assert(altq(a@, u)); let j = choose|j: int| 0 <= j < a@.len() && ends((#[trigger] a@[j]).0, u); assert(b[j].1 == Some(x) && ends(b[j].0, u)); }
      } else {
        assert(b =~= a@);
      }
    } else { assert(b[0] == (r, t)); }
  }
  if alts_untagged(e) { assert(e[0].1 is None && untagged(e[0].0)); }
  assert forall|k: Vec<(S, S)>| #[trigger] in_alts(b, k) implies in_alts(e, k) by {
    let j = choose|j: int| 0 <= j < b.len() && has_range((#[trigger] b[j]).0, k);
    if r is Alter { assert(has_range(r->Alter_0[j].0, k)); }
    assert(has_range(r, k));
    assert(has_range(e[0].0, k));
  }
  if r is Alter { assert forall|j: int| 0 <= j < b.len() implies tails((#[trigger] b[j]).0) && (b[j].1 is Some ==> untagged(b[j].0)) by { assert(tails(r->Alter_0[j].0)); } }
}
proof fn same_alts_push<S, T>(a: Alts<S, T>, x: (Mir<S, T>, Option<T>), y: Alts<S, T>, b: Alts<S, T>)
  requires same_alts(seq![x], y), same_alts(a + y, b),
  ensures same_alts(a.push(x), b),
{
  reveal(alts_tails);
  reveal(same_alts);
  let e = seq![x];
  assert(a.push(x) =~= a + e);
  altq_app(a, e); altq_app(a, y);
  assert forall|u: Keys<S>| #[trigger] altq(b, u) == altq(a + e, u) by { assert(altq(a + y, u) == altq(b, u)); assert(altq(y, u) == altq(e, u)); }
  assert forall|u: Keys<S>, t: T| #[trigger] alt_saysq(b, u, t) == alt_saysq(a + e, u, t) by { assert(alt_saysq(a + y, u, t) == alt_saysq(b, u, t)); assert(alt_saysq(y, u, t) == alt_saysq(e, u, t)); }
  assert forall|k: Vec<(S, S)>| #[trigger] in_alts(b, k) implies in_alts(a + e, k) by { assert(in_alts(a + y, k)); if in_alts(y, k) { assert(in_alts(e, k)); } }
}
proof fn same_alter<S, T>(a: Vec<(Mir<S, T>, Option<T>)>, b: Vec<(Mir<S, T>, Option<T>)>)
  requires same_alts(a@, b@), alts_tails(b@), b.len() > 0,
  ensures same(Mir::Alter(a), Mir::Alter(b)), tails(Mir::Alter(b)),
{
  reveal(alts_tails);
  reveal(same_alts);
  let m = Mir::Alter(a); let r = Mir::Alter(b);
  let a0 = m->Alter_0; let b0 = r->Alter_0;
  assert forall|u: Keys<S>| #[trigger] ends(r, u) == ends(m, u) by { alter_is(a, u); alter_is(b, u); assert(altq(b@, u) == altq(a@, u)); }
  assert forall|u: Keys<S>, t: T| #[trigger] says(r, u, t) == says(m, u, t) by { alter_is(a, u); alter_is(b, u); assert(alt_saysq(b@, u, t) == alt_saysq(a@, u, t)); assert(says(m, u, t) == alt_saysq(a@, u, t)); }
  if untagged(m) { assert(alts_untagged(a@)) by { assert forall|j: int| 0 <= j < a@.len() implies (#[trigger] a@[j]).1 is None && untagged(a@[j].0) by { assert(a[j].1 is None); } } assert(alts_untagged(b@)); assert forall|j: int| 0 <= j < b.len() implies (#[trigger] b[j]).1 is None && untagged(b[j].0) by { assert(b@[j].1 is None); } }
  assert forall|k: Vec<(S, S)>| #[trigger] has_range(r, k) implies has_range(m, k) by {
    let j = choose|j: int| 0 <= j < b.len() && has_range((#[trigger] b[j]).0, k); assert(has_range(b@[j].0, k)); assert(in_alts(b@, k)); assert(in_alts(a@, k));
    let i = choose|i: int| 0 <= i < a@.len() && has_range((#[trigger] a@[i]).0, k); assert(has_range(a0[i].0, k));
  }
  assert forall|j: int| 0 <= j < b.len() implies tails((#[trigger] b[j]).0) && (b[j].1 is Some ==> untagged(b[j].0)) by { assert(tails(b@[j].0)); }
}
proof fn same_single<S, T>(a: Vec<(Mir<S, T>, Option<T>)>, b: Alts<S, T>)
  requires same_alts(a@, b), alts_tails(b), b.len() == 1, b[0].1 is None,
  ensures same(Mir::Alter(a), b[0].0), tails(b[0].0),
{
  reveal(alts_tails);
  reveal(same_alts);
  let m = Mir::Alter(a); let r = b[0].0;
  let a0 = m->Alter_0;
  assert forall|u: Keys<S>| #[trigger] ends(r, u) == ends(m, u) by { alter_is(a, u); assert(altq(b, u) == altq(a@, u)); }
  assert forall|u: Keys<S>, t: T| #[trigger] says(r, u, t) == says(m, u, t) by { alter_is(a, u); assert(alt_saysq(b, u, t) == alt_saysq(a@, u, t)); assert(says(m, u, t) == alt_saysq(a@, u, t)); }
  if untagged(m) { assert(alts_untagged(a@)) by { assert forall|j: int| 0 <= j < a@.len() implies (#[trigger] a@[j]).1 is None && untagged(a@[j].0) by { assert(a[j].1 is None); } } assert(alts_untagged(b)); }
  assert forall|k: Vec<(S, S)>| #[trigger] has_range(r, k) implies has_range(m, k) by {
    assert(in_alts(b, k)); assert(in_alts(a@, k));
    let i = choose|i: int| 0 <= i < a@.len() && has_range((#[trigger] a@[i]).0, k); assert(has_range(a0[i].0, k));
  }
}
/// The alternatives of A are s and then those of B.
#[verifier::opaque]
pub open spec fn parts<S, T>(a: Alts<S, T>, s: Mirs<S, T>, b: Alts<S, T>) -> bool { a.len() == b.len() && forall|j: int| 0 <= j < a.len() ==> part(#[trigger] a[j], s, b[j]) }
pub open spec fn part<S, T>(a: (Mir<S, T>, Option<T>), s: Mirs<S, T>, b: (Mir<S, T>, Option<T>)) -> bool {
  a.0 is Concat && b.1 == a.1 && if b.0 is Empty { a.0->Concat_0@ == s } else { b.0 is Concat && b.0->Concat_0@.len() > 0 && a.0->Concat_0@ == s + b.0->Concat_0@ }
}
proof fn parts_ok<S, T>(a: Alts<S, T>, s: Mirs<S, T>, b: Alts<S, T>)
  requires parts(a, s, b), alts_tails(a), a.no_duplicates(), a.len() > 1, s.len() > 0,
  ensures alts_tails(b), b.len() == a.len(), all_untagged(s), forall|j: int| 0 <= j < s.len() ==> tails(#[trigger] s[j]),
{
  reveal(parts);
  reveal(alts_tails);
  broadcast use ve::vec_ext;
  assert forall|j: int| 0 <= j < b.len() implies tails((#[trigger] b[j]).0) && (b[j].1 is Some ==> untagged(b[j].0)) by {
    assert(part(a[j], s, b[j]));
    let c = a[j].0->Concat_0;
    if b[j].0 is Concat {
      let d = b[j].0->Concat_0;
      assert(forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] == c[i + s.len()]);
    }
  }
  let c0 = a[0].0->Concat_0; let c1 = a[1].0->Concat_0;
  assert(part(a[0], s, b[0]) && part(a[1], s, b[1]));
  assert(tails(a[0].0) && tails(a[1].0));
  assert forall|j: int| 0 <= j < s.len() implies tails(#[trigger] s[j]) && untagged(s[j]) by {
    assert(s[j] == c0[j] && s[j] == c1[j]);
    if b[0].0 is Empty && b[1].0 is Empty {
      assert(c0 == c1);
      assert(a[0].0 == a[1].0);
      assert(a[0].1 != a[1].1);
      if a[0].1 is Some { assert(untagged(a[0].0)); } else { assert(untagged(a[1].0)); }
    }
  }
}
proof fn part_ends<S, T>(a: (Mir<S, T>, Option<T>), s: Mirs<S, T>, b: (Mir<S, T>, Option<T>), u: Keys<S>)
  requires part(a, s, b),
  ensures ends(a.0, u) == exists|i: int| 0 <= i <= u.len() && catq(s, #[trigger] u.take(i)) && ends(b.0, u.skip(i)),
{
  let c = a.0->Concat_0;
  concat_is(c, u);
  if b.0 is Concat {
    let d = b.0->Concat_0;
    catq_app(s, d@, u);
    assert forall|i: int| 0 <= i <= u.len() implies catq(d@, #[trigger] u.skip(i)) == ends(b.0, u.skip(i)) by { concat_is(d, u.skip(i)); }
    if ends(a.0, u) { let i = choose|i: int| 0 <= i <= u.len() && catq(s, #[trigger] u.take(i)) && catq(d@, u.skip(i)); assert(ends(b.0, u.skip(i))); }
    if exists|i: int| 0 <= i <= u.len() && catq(s, #[trigger] u.take(i)) && ends(b.0, u.skip(i)) { let i = choose|i: int| 0 <= i <= u.len() && catq(s, #[trigger] u.take(i)) && ends(b.0, u.skip(i)); assert(catq(d@, u.skip(i))); }
  } else {
    let n = u.len() as int;
    assert(u.take(n) =~= u);
    if ends(a.0, u) { assert(catq(s, u.take(n)) && ends(b.0, u.skip(n))); }
  }
}
proof fn part_says<S, T>(a: (Mir<S, T>, Option<T>), s: Mirs<S, T>, b: (Mir<S, T>, Option<T>), u: Keys<S>, t: T)
  requires part(a, s, b), all_untagged(s),
  ensures says(a.0, u, t) == exists|i: int| 0 <= i <= u.len() && catq(s, #[trigger] u.take(i)) && says(b.0, u.skip(i), t),
{
  let c = a.0->Concat_0;
  concat_is(c, u);
  assert(says(Mir::Concat(c), u, t) == cat_saysq(c@, u, t));
  if b.0 is Concat {
    let d = b.0->Concat_0;
    says_app(s, d@, u, t);
    assert forall|i: int| 0 <= i <= u.len() implies cat_saysq(d@, #[trigger] u.skip(i), t) == says(b.0, u.skip(i), t) by { concat_is(d, u.skip(i)); assert(says(Mir::Concat(d), u.skip(i), t) == cat_saysq(d@, u.skip(i), t)); }
    if says(a.0, u, t) { let i = choose|i: int| 0 <= i <= u.len() && catq(s, #[trigger] u.take(i)) && cat_saysq(d@, u.skip(i), t); assert(says(b.0, u.skip(i), t)); }
    if exists|i: int| 0 <= i <= u.len() && catq(s, #[trigger] u.take(i)) && says(b.0, u.skip(i), t) { let i = choose|i: int| 0 <= i <= u.len() && catq(s, #[trigger] u.take(i)) && says(b.0, u.skip(i), t); assert(cat_saysq(d@, u.skip(i), t)); }
  } else {
    silent_mirs(s, u, t);
  }
}
proof fn parts_same<S, T>(a0: Vec<(Mir<S, T>, Option<T>)>, a: Alts<S, T>, s: Mirs<S, T>, b: Vec<(Mir<S, T>, Option<T>)>, o: Mir<S, T>, r: Vec<Mir<S, T>>)
  requires same_alts(a0@, a), parts(a, s, b@), alts_tails(a), a.no_duplicates(), a.len() > 1, s.len() > 0, same(Mir::Alter(b), o), tails(o), r@ == s.push(o),
  ensures same(Mir::Alter(a0), Mir::Concat(r)), tails(Mir::Concat(r)),
{
  reveal(parts);
  reveal(alts_tails);
  reveal(same_alts);
  parts_ok(a, s, b@);
  let m = Mir::Alter(a0); let n = Mir::Concat(r); let x = Mir::Alter(b);
  let v0 = m->Alter_0; let v1 = n->Concat_0; let v2 = x->Alter_0;
  assert(r@.drop_last() =~= s && r@.last() == o);
  assert forall|u: Keys<S>| #[trigger] ends(n, u) == ends(m, u) by {
    concat_is(r, u); alter_is(a0, u);
    assert(altq(a, u) == altq(a0@, u));
    if altq(a, u) {
      let j = choose|j: int| 0 <= j < a.len() && ends((#[trigger] a[j]).0, u);
      part_ends(a[j], s, b@[j], u);
      let i = choose|i: int| 0 <= i <= u.len() && catq(s, #[trigger] u.take(i)) && ends(b@[j].0, u.skip(i));
      alter_is(b, u.skip(i));
      assert(altq(b@, u.skip(i)));
      assert(ends(o, u.skip(i)) == ends(x, u.skip(i)));
      assert(catq(r@, u));
    }
    if catq(r@, u) {
      let i = choose|i: int| 0 <= i <= u.len() && catq(s, #[trigger] u.take(i)) && ends(o, u.skip(i));
      assert(ends(o, u.skip(i)) == ends(x, u.skip(i)));
      alter_is(b, u.skip(i));
      let j = choose|j: int| 0 <= j < b@.len() && ends((#[trigger] b@[j]).0, u.skip(i));
      assert(part(a[j], s, b@[j]));
      part_ends(a[j], s, b@[j], u);
      assert(ends(a[j].0, u));
    }
  }
  assert forall|u: Keys<S>, t: T| #[trigger] says(n, u, t) == says(m, u, t) by {
    concat_is(r, u); alter_is(a0, u);
    assert(says(n, u, t) == cat_saysq(r@, u, t));
    assert(says(m, u, t) == alt_saysq(a0@, u, t));
    assert(alt_saysq(a, u, t) == alt_saysq(a0@, u, t));
    if alt_saysq(a, u, t) {
      let j = choose|j: int| 0 <= j < a.len() && ((#[trigger] a[j]).1 == Some(t) && ends(a[j].0, u) || says(a[j].0, u, t));
      part_ends(a[j], s, b@[j], u); part_says(a[j], s, b@[j], u, t);
      let i = if says(a[j].0, u, t) { choose|i: int| 0 <= i <= u.len() && catq(s, #[trigger] u.take(i)) && says(b@[j].0, u.skip(i), t) } else { choose|i: int| 0 <= i <= u.len() && catq(s, #[trigger] u.take(i)) && ends(b@[j].0, u.skip(i)) };
      alter_is(b, u.skip(i));
      assert(b@[j].1 == a[j].1);
      assert(alt_saysq(b@, u.skip(i), t));
      assert(says(x, u.skip(i), t));
      assert(says(o, u.skip(i), t) == says(x, u.skip(i), t));
      assert(cat_saysq(r@, u, t));
    }
    if cat_saysq(r@, u, t) {
      let i = choose|i: int| 0 <= i <= u.len() && catq(s, #[trigger] u.take(i)) && says(o, u.skip(i), t);
      assert(says(o, u.skip(i), t) == says(x, u.skip(i), t));
      alter_is(b, u.skip(i));
      let j = choose|j: int| 0 <= j < b@.len() && ((#[trigger] b@[j]).1 == Some(t) && ends(b@[j].0, u.skip(i)) || says(b@[j].0, u.skip(i), t));
      assert(part(a[j], s, b@[j]));
      part_ends(a[j], s, b@[j], u); part_says(a[j], s, b@[j], u, t);
      assert(a[j].1 == Some(t) && ends(a[j].0, u) || says(a[j].0, u, t));
    }
  }
  if untagged(m) {
    assert(alts_untagged(a0@)) by { assert forall|j: int| 0 <= j < a0@.len() implies (#[trigger] a0@[j]).1 is None && untagged(a0@[j].0) by { assert(v0[j].1 is None); } }
    assert forall|j: int| 0 <= j < b.len() implies (#[trigger] b[j]).1 is None && untagged(b[j].0) by {
      assert(part(a[j], s, b@[j]));
      assert(a[j].1 is None && untagged(a[j].0));
      if b[j].0 is Concat { let d = b[j].0->Concat_0; let c = a[j].0->Concat_0; assert(forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] == c[i + s.len()]); }
    }
    assert(untagged(x));
    assert forall|j: int| 0 <= j < r.len() implies untagged(#[trigger] r[j]) by { if j < s.len() { assert(untagged(s[j])); } }
  }
  assert forall|k: Vec<(S, S)>| #[trigger] has_range(n, k) implies has_range(m, k) by {
    let j = choose|j: int| 0 <= j < r.len() && has_range(#[trigger] r[j], k);
    let i: int = if j < s.len() { 0 } else {
      assert(r[j] == o); assert(has_range(x, k));
      choose|i: int| 0 <= i < b.len() && has_range((#[trigger] b[i]).0, k)
    };
    assert(part(a[i], s, b@[i]));
    let c = a[i].0->Concat_0;
    if j < s.len() { assert(s[j] == c[j]); assert(has_range(c[j], k)); }
    else { let d = b[i].0->Concat_0; let l = choose|l: int| 0 <= l < d.len() && has_range(#[trigger] d[l], k); assert(d[l] == c[l + s.len()]); assert(has_range(c[l + s.len()], k)); }
    assert(has_range(a[i].0, k));
    assert(in_alts(a, k)); assert(in_alts(a0@, k));
    let q = choose|q: int| 0 <= q < a0@.len() && has_range((#[trigger] a0@[q]).0, k); assert(has_range(v0[q].0, k));
  }
  assert forall|j: int| 0 <= j < r.len() implies tails(#[trigger] r[j]) by { if j < s.len() { assert(tails(s[j])); } }
  assert forall|j: int| 0 <= j < r.len() - 1 implies untagged(#[trigger] r[j]) by { assert(untagged(s[j])); }
}
/// What is left of the alternatives, reversed.
#[verifier::opaque]
pub open spec fn peeled<S, T>(a: Alts<S, T>, s: Mirs<S, T>, v: Seq<(Vec<Mir<S, T>>, Option<T>)>) -> bool { a.len() == v.len() && forall|j: int| 0 <= j < a.len() ==> peel(#[trigger] a[j], s, v[j]) }
pub open spec fn peel<S, T>(a: (Mir<S, T>, Option<T>), s: Mirs<S, T>, v: (Vec<Mir<S, T>>, Option<T>)) -> bool { a.0 is Concat && a.1 == v.1 && a.0->Concat_0@ == s + v.0@.reverse() }
proof fn peel_next<S, T>(a: Alts<S, T>, s: Mirs<S, T>, v: Seq<(Vec<Mir<S, T>>, Option<T>)>, x: Mir<S, T>, w: Seq<(Vec<Mir<S, T>>, Option<T>)>)
  requires peeled(a, s, v), v.len() == w.len(), forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j]).0@.len() > 0 && v[j].0@.last() == x && w[j].0@ == v[j].0@.drop_last() && w[j].1 == v[j].1,
  ensures peeled(a, s.push(x), w),
{
  reveal(peeled);
  assert forall|j: int| 0 <= j < a.len() implies peel(#[trigger] a[j], s.push(x), w[j]) by {
    assert(peel(a[j], s, v[j]));
    assert(v[j].0@.last() == x);
    assert(s + v[j].0@.reverse() =~= s.push(x) + w[j].0@.reverse());
  }
}
proof fn peel_parts<S, T>(a: Alts<S, T>, s: Mirs<S, T>, v: Seq<(Vec<Mir<S, T>>, Option<T>)>, b: Alts<S, T>)
  requires peeled(a, s, v), v.len() == b.len(), forall|j: int| 0 <= j < b.len() ==> rest(v[j], #[trigger] b[j]),
  ensures parts(a, s, b),
{
  reveal(peeled);
  reveal(parts);
  assert forall|j: int| 0 <= j < a.len() implies part(#[trigger] a[j], s, b[j]) by {
    assert(peel(a[j], s, v[j]));
    assert(rest(v[j], b[j]));
    if b[j].0 is Empty { assert(s + v[j].0@.reverse() =~= s); }
  }
}
pub open spec fn rest<S, T>(v: (Vec<Mir<S, T>>, Option<T>), b: (Mir<S, T>, Option<T>)) -> bool { b.1 == v.1 && if v.0@.len() == 0 { b.0 is Empty } else { b.0 is Concat && b.0->Concat_0@ == v.0@.reverse() } }
proof fn parts_none<S, T>(a: Alts<S, T>, b: Alts<S, T>)
  requires parts(a, Seq::empty(), b), alts_tails(a),
  ensures a == b,
{
  reveal(parts);
  reveal(alts_tails);
  broadcast use ve::vec_ext;
  assert forall|j: int| 0 <= j < a.len() implies #[trigger] a[j] == b[j] by {
    assert(part(a[j], Seq::empty(), b[j]));
    assert(tails(a[j].0));
    if b[j].0 is Concat { assert(Seq::<Mir<S, T>>::empty() + b[j].0->Concat_0@ =~= b[j].0->Concat_0@); }
  }
  assert(a =~= b);
}
proof fn star_same<S, T>(k: Mir<S, T>, r: Mir<S, T>, n: nat, u: Keys<S>)
  requires forall|u: Keys<S>| #[trigger] ends(r, u) == ends(k, u),
  ensures star(k, n, u) == star(r, n, u),
  decreases n,
{
  if n > 0 {
    assert forall|i: int| 0 <= i <= u.len() implies star(k, (n - 1) as nat, #[trigger] u.take(i)) == star(r, (n - 1) as nat, u.take(i)) by { star_same(k, r, (n - 1) as nat, u.take(i)); }
    if star(k, n, u) { let i = choose|i: int| 0 <= i <= u.len() && star(k, (n - 1) as nat, #[trigger] u.take(i)) && ends(k, u.skip(i)); assert(star(r, (n - 1) as nat, u.take(i)) && ends(r, u.skip(i))); }
    if star(r, n, u) { let i = choose|i: int| 0 <= i <= u.len() && star(r, (n - 1) as nat, #[trigger] u.take(i)) && ends(r, u.skip(i)); assert(star(k, (n - 1) as nat, u.take(i)) && ends(k, u.skip(i))); }
  }
}
proof fn star_nothing<S, T>(k: Mir<S, T>, n: nat, u: Keys<S>)
  requires forall|u: Keys<S>| #[trigger] ends(k, u) == (u.len() == 0), star(k, n, u),
  ensures u.len() == 0,
  decreases n,
{
  if n > 0 {
    let i = choose|i: int| 0 <= i <= u.len() && star(k, (n - 1) as nat, #[trigger] u.take(i)) && ends(k, u.skip(i));
    star_nothing(k, (n - 1) as nat, u.take(i));
  }
}
proof fn same_kleene<S, T>(k: Mir<S, T>, r: Mir<S, T>)
  requires same(k, r), tails(r), untagged(k),
  ensures
    r is Empty ==> same(Mir::Kleene(Box::new(k)), Mir::Empty),
    same(Mir::Kleene(Box::new(k)), Mir::Kleene(Box::new(r))), tails(Mir::Kleene(Box::new(r))),
{
  let m = Mir::Kleene(Box::new(k)); let n = Mir::Kleene(Box::new(r));
  assert forall|u: Keys<S>| #[trigger] ends(n, u) == ends(m, u) by {
    assert forall|x: nat| star(k, x, u) == star(r, x, u) by { star_same(k, r, x, u); }
    if ends(m, u) { let x = choose|x: nat| #[trigger] times(x) && star(k, x, u); assert(times(x) && star(r, x, u)); }
    if ends(n, u) { let x = choose|x: nat| #[trigger] times(x) && star(r, x, u); assert(times(x) && star(k, x, u)); }
  }
  assert forall|x: Vec<(S, S)>| #[trigger] has_range(n, x) implies has_range(m, x) by { assert(has_range(r, x)); assert(has_range(k, x)); }
  if r is Empty {
    let e = Mir::<S, T>::Empty;
    assert forall|u: Keys<S>| #[trigger] ends(e, u) == ends(m, u) by {
      assert forall|u: Keys<S>| #[trigger] ends(k, u) == (u.len() == 0) by { assert(ends(r, u) == ends(k, u)); }
      if ends(m, u) { let x = choose|x: nat| #[trigger] times(x) && star(k, x, u); star_nothing(k, x, u); }
      if u.len() == 0 { assert(times(0) && star(k, 0, u)); }
    }
  }
}
proof fn size_some<S, T>(m: Mir<S, T>)
  ensures size(m) >= 1,
{}
proof fn fewer(n: int, x: int)
  requires n >= 2, x >= 1,
  ensures n * x >= x + 1,
{ assert(n * x >= 2 * x) by(nonlinear_arith) requires n >= 2, x >= 1; }
proof fn parts_size<S, T>(a: Alts<S, T>, s: Mirs<S, T>, b: Alts<S, T>)
  requires parts(a, s, b),
  ensures asizeq(a) == a.len() * sizeq(s) + asizeq(b),
  decreases a.len(),
{
  reveal(parts);
  if a.len() > 0 {
    let a1 = a.drop_last(); let b1 = b.drop_last();
    assert forall|j: int| 0 <= j < a1.len() implies part(#[trigger] a1[j], s, b1[j]) by { assert(part(a[j], s, b[j])); }
    parts_size(a1, s, b1);
    let x = a.last(); let y = b.last();
    assert(part(a[a.len() - 1], s, b[a.len() - 1]));
    concat_size(x.0->Concat_0);
    if y.0 is Concat { concat_size(y.0->Concat_0); sizeq_app(s, y.0->Concat_0@); }
    assert(a.len() * sizeq(s) == (a.len() - 1) * sizeq(s) + sizeq(s)) by(nonlinear_arith);
  }
}
proof fn alts_full<S, T>(a: Vec<(Mir<S, T>, Option<T>)>)
  requires alts_tails(a@), a.len() > 0,
  ensures placed(Mir::Alter(a)), full(Mir::Alter(a)),
{
  reveal(alts_tails);
  let m = Mir::Alter(a);
  let b = m->Alter_0;
  assert forall|j: int| 0 <= j < b.len() implies placed((#[trigger] b[j]).0) && full(b[j].0) && (b[j].1 is Some ==> untagged(b[j].0)) by { assert(tails(a@[j].0)); tails_is(a@[j].0); }
}
//@ item laps_regex/src/mir.rs impl Mir#1
//@ drop optimize normalize_ranges symbol_set into_triple collect_symbols endpoints_of split_ranges rebuild ranges_contains
//@ fn opt_without_rebuild
    requires placed(self),
    ensures optimized(self, r),
    decreases size(self), 1nat,
//@ fn optimize_kleene
    requires placed(Mir::Kleene(Box::new(k))),
    ensures optimized(Mir::Kleene(Box::new(k)), r),
    decreases size(Mir::<S, T>::Kleene(Box::new(k))), 0nat,
//@ entry
    let ghost k0 = k;
    let ghost m0: Self = Mir::Kleene(Box::new(k));
    proof { assert(*(m0->Kleene_0) == k0); }
//@ after let v_ = $s_e;
      proof { same_kleene(k0, v_); }
//@ fn optimize_concat attr=loop_isolation(false)
    requires placed(Mir::Concat(c)),
    ensures optimized(Mir::Concat(c), r),
    decreases size(Mir::<S, T>::Concat(c)), 0nat,
//@ entry
    let ghost c0 = c;
    let ghost m0: Self = Mir::Concat(c);
    proof { assert(c0 == m0->Concat_0); }
//@ loop 0
    invariant
      m0 == Mir::<S, T>::Concat(c0), placed(m0), it0.seq() == c0@, same_mirs(c0@.take(it0.index@ as int), new_c@), all_tails(new_c@), sizeq(new_c@) <= sizeq(c0@.take(it0.index@ as int)),
//@ loopbody 0
      let ghost q0 = new_c@;
      let ghost i = it0.index@ as int;
      let ghost mut x = Seq::<Self>::empty();
      proof { concat_size(c0); sizeq_at(c0@, i); assert(placed(c0[i])); assert(full(m0) ==> full(c0[i])); assert(c0@.take(i).push(e) =~= c0@.take(i + 1)); }
//@ after let v_ = $s_e;
        proof { x = as_mirs(v_); listed(c0[i], v_); mirs_size(v_); assert(size(v_) <= size(c0[i])); }
//@ loopend 0
      proof {
        assert(new_c@ =~= q0 + x);
        assert forall|j: int| 0 <= j < i implies untagged(#[trigger] c0@.take(i)[j]) by { assert(untagged(c0[j])); }
        push_mirs(c0@.take(i), q0, c0[i], x);
        sizeq_app(q0, x);
        assert(c0@.take(i + 1).drop_last() =~= c0@.take(i));
      }
//@ after for e in c { $s_b }
      let ghost qe = new_c@;
//@ after let n_ = $s_e;
      proof { assert(c0@.take(c0@.len() as int) =~= c0@); same_concat(c0, qe, n_); concat_size(c0); if qe.len() == 1 { assert(qe.drop_last().len() == 0); } else if qe.len() > 1 { concat_size(n_->Concat_0); } }
//@ fn optimize_alter attr=loop_isolation(false)+rlimit(100)
    requires placed(Mir::Alter(a)),
    ensures optimized(Mir::Alter(a), r),
    decreases size(Mir::<S, T>::Alter(a)), 0nat,
//@ entry
    let ghost a0 = a;
    let ghost m0: Self = Mir::Alter(a);
    proof { assert(a0 == m0->Alter_0); same_alts_eq(Seq::<(Self, Option<T>)>::empty()); assert(a0@.take(0) =~= Seq::empty()); alter_size(a0); }
//@ loop 0
    invariant
      m0 == Mir::<S, T>::Alter(a0), placed(m0), it0.seq() == a0@, same_alts(a0@.take(it0.index@ as int), new_a@), alts_tails(new_a@), new_a@.no_duplicates(),
      forall|x: (Self, Option<T>)| #[trigger] set@.contains(x) == new_a@.contains(x), it0.index@ > 0 ==> new_a@.len() > 0, asizeq(new_a@) <= asizeq(a0@.take(it0.index@ as int)),
//@ loopbody 0
      let ghost q0 = new_a@;
      let ghost i = it0.index@ as int;
      let ghost t0 = t;
      let ghost mut b = Seq::<(Self, Option<T>)>::empty();
      let ghost mut vg = e;
      proof { asizeq_at(a0@, i); assert(a0@.take(i + 1).drop_last() =~= a0@.take(i)); assert(a0[i] == (e, t)); assert(placed(a0[i].0)); assert(full(m0) ==> full(a0[i].0)); assert(a0@.take(i).push((e, t)) =~= a0@.take(i + 1)); }
//@ after let v_ = $s_e;
        proof { vg = v_; b = as_alts(v_, t); alts_size(v_, t); assert(size(v_) <= size(a0[i].0)); assert(asizeq(b.take(0)) == 0); alts_listed(a0[i].0, v_, t); assert(a0@.take(i) + b.take(0) =~= a0@.take(i)); }
//@ loop 1
    invariant
      v_ is Alter, it1.seq() == v_->Alter_0@, b == as_alts(v_, t), alts_tails(b), same_alts(a0@.take(i) + b.take(it1.index@ as int), new_a@), alts_tails(new_a@), new_a@.no_duplicates(),
      forall|x: (Self, Option<T>)| #[trigger] set@.contains(x) == new_a@.contains(x), it1.index@ > 0 ==> new_a@.len() > 0, asizeq(new_a@) <= asizeq(q0) + asizeq(b.take(it1.index@ as int)),
//@ loopbody 1
          let ghost q1 = new_a@;
          let ghost k = it1.index@ as int;
          proof { assert(v_->Alter_0@[k] == p_); }
//@ loopend 1
          proof {
            let x = b[k];
            assert(x == (p_.0, or(t, p_.1)));
            push_contains(q1, x);
            assert(if q1.contains(x) { new_a@ == q1 } else { new_a@ == q1.push(x) });
            assert((a0@.take(i) + b.take(k)).push(x) =~= a0@.take(i) + b.take(k + 1));
            alts_step(a0@.take(i) + b.take(k), q1, x, new_a@);
            assert(b.take(k + 1).drop_last() =~= b.take(k));
            assert(q1.push(x).drop_last() =~= q1);
          }
//@ loopend 0
      proof {
        assert(a0@.take(i).push((a0[i].0, t0)) == a0@.take(i + 1));
        if vg is Alter { assert(b.take(b.len() as int) =~= b); }
        else {
          push_contains(q0, (vg, t0));
          assert(if q0.contains((vg, t0)) { new_a@ == q0 } else { new_a@ == q0.push((vg, t0)) });
          alts_step(a0@.take(i), q0, (vg, t0), new_a@);
          assert(q0.push((vg, t0)).drop_last() =~= q0);
          assert(a0@.take(i).push((vg, t0)) =~= a0@.take(i) + b);
        }
        same_alts_push(a0@.take(i), (a0[i].0, t0), b, new_a@);
      }
//@ after for (e, t) in a { $s_b }
    let ghost qe = new_a@;
    proof { assert(a0@.take(a0@.len() as int) =~= a0@); }
//@ after let e_ = $s_e;
      proof { same_single(a0, qe); asizeq_at(qe, 0); }
//@ after if new_a.len() == 1 { $s_b }
    proof { same_alter(a0, new_a); alter_size(new_a); }
//@ loop 2
    invariant i_ <= new_a@.len(), r_ ==> forall|j: int| 0 <= j < i_ ==> (#[trigger] new_a@[j]).0 is Concat,
    decreases new_a@.len() - i_,
//@ loop 3
    invariant
      it3.seq() == qe, r_@.len() == it3.index@, forall|j: int| 0 <= j < qe.len() ==> (#[trigger] qe[j]).0 is Concat,
      forall|j: int| 0 <= j < r_@.len() ==> (#[trigger] r_@[j]).1 == qe[j].1 && r_@[j].0@ == qe[j].0->Concat_0@.reverse(),
//@ loopbody 3
      proof { assert(qe[it3.index@ as int] == p_); }
//@ loop 4
    invariant peeled(qe, same_subs@, rev_subs@), rev_subs@.len() == qe.len(),
    decreases rev_subs@[0].0@.len(),
//@ loopbody 4
      let ghost s0 = same_subs@;
      let ghost v0 = rev_subs@;
//@ loopend 4
      proof { peel_next(qe, s0, v0, same_subs@.last(), rev_subs@); }
//@ loop 5
    invariant i_ >= 1, i_ <= rev_subs@.len(), first is Some, r_ ==> forall|j: int| 0 <= j < i_ ==> (#[trigger] rev_subs@[j]).0@.len() > 0 && rev_subs@[j].0@.last() == *first->0,
    decreases rev_subs@.len() - i_,
//@ loop 6
    invariant
      rev_subs@.len() == v0.len(), forall|j: int| 0 <= j < v0.len() ==> if j < i_ { (#[trigger] rev_subs@[j]).0@ == v0[j].0@.drop_last() && rev_subs@[j].1 == v0[j].1 } else { rev_subs@[j] == v0[j] },
//@ loop 7
    invariant
      it7.seq() == vw, r_@.len() == it7.index@, forall|j: int| 0 <= j < r_@.len() ==> rest(vw[j], #[trigger] r_@[j]),
//@ after let mut rev_subs: Vec<(Vec<_>, _)> = $s_e;
      proof { reveal(peeled); assert forall|j: int| 0 <= j < qe.len() implies peel(#[trigger] qe[j], Seq::empty(), rev_subs@[j]) by { assert(rev_subs@[j].1 == qe[j].1); assert(Seq::<Self>::empty() + rev_subs@[j].0@.reverse() =~= qe[j].0->Concat_0@); } }
//@ after loop { $s_b }
      let ghost vw = rev_subs@;
      let ghost s1 = same_subs@;
//@ after let alter = $s_e;
      let ghost b1 = alter->Alter_0;
      let ghost mut ob = alter;
      proof {
        peel_parts(qe, s1, vw, b1@);
        if s1.len() == 0 { assert(s1 =~= Seq::empty()); parts_none(qe, b1@); same_alter(a0, b1); }
        else { parts_ok(qe, s1, b1@); alts_full(b1); }
        if s1.len() > 0 { parts_size(qe, s1, b1@); alter_size(b1); sizeq_at(s1, 0); size_some(s1[0]); fewer(qe.len() as int, sizeq(s1) as int); } else { alter_size(b1); }
      }
//@ after let o_ = $s_e;
        proof { ob = o_; }
//@ after let n_ = $s_e;
      proof { if s1.len() > 0 { parts_same(a0, qe, s1, b1, ob, n_->Concat_0); concat_size(n_->Concat_0); assert(s1.push(ob).drop_last() =~= s1); } }
//@ end
