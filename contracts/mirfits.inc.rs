// ------------------------------------------------------------ what an intermediate expression means for symbols
/// Every symbol lies in the ranges at its place.
pub open spec fn spells<S>(u: Keys<S>, w: Seq<S>) -> bool { u.len() == w.len() && forall|i: int| 0 <= i < u.len() ==> within((#[trigger] u[i])@, w[i]) }
/// The symbol sequences an expression matches.
#[verifier::opaque]
pub open spec fn fits<S, T>(m: Mir<S, T>, w: Seq<S>) -> bool { exists|u: Keys<S>| #[trigger] ends(m, u) && spells(u, w) }
/// The symbol sequences an expression gives a tag.
#[verifier::opaque]
pub open spec fn tells<S, T>(m: Mir<S, T>, w: Seq<S>, t: T) -> bool { exists|u: Keys<S>| #[trigger] says(m, u, t) && spells(u, w) }
proof fn spells_cut<S>(u: Keys<S>, w: Seq<S>, i: int)
  requires spells(u, w), 0 <= i <= u.len(),
  ensures spells(u.take(i), w.take(i)), spells(u.skip(i), w.skip(i)),
{
  assert forall|j: int| 0 <= j < u.skip(i).len() implies within((#[trigger] u.skip(i)[j])@, w.skip(i)[j]) by { assert(within(u[i + j]@, w[i + j])); }
}
proof fn spells_app<S>(u: Keys<S>, w: Seq<S>, v: Keys<S>, x: Seq<S>)
  requires spells(u, w), spells(v, x),
  ensures spells(u + v, w + x), (u + v).take(u.len() as int) == u, (u + v).skip(u.len() as int) == v,
{
  assert((u + v).take(u.len() as int) =~= u);
  assert((u + v).skip(u.len() as int) =~= v);
  assert forall|j: int| 0 <= j < (u + v).len() implies within((#[trigger] (u + v)[j])@, (w + x)[j]) by { if j < u.len() { assert(within(u[j]@, w[j])); } else { assert(within(v[j - u.len()]@, x[j - u.len()])); } }
}
pub proof fn fits_empty<S, T>(w: Seq<S>)
  ensures fits(Mir::<S, T>::Empty, w) == (w.len() == 0),
{
  reveal(fits);
  if w.len() == 0 { let u = Seq::<Vec<(S, S)>>::empty(); assert(ends(Mir::<S, T>::Empty, u) && spells(u, w)); }
}
pub proof fn fits_ranges<S, T>(rs: Vec<(S, S)>, w: Seq<S>)
  ensures fits(Mir::<S, T>::Ranges(rs), w) == (w.len() == 1 && within(rs@, w[0])),
{
  reveal(fits);
  let m = Mir::<S, T>::Ranges(rs);
  if fits(m, w) { let u = choose|u: Keys<S>| #[trigger] ends(m, u) && spells(u, w); assert(within(u[0]@, w[0])); }
  if w.len() == 1 && within(rs@, w[0]) { let u = seq![rs]; assert(ends(m, u) && spells(u, w)); }
}
pub open spec fn fitsq<S, T>(s: Mirs<S, T>, w: Seq<S>) -> bool decreases s.len() {
  if s.len() == 0 { w.len() == 0 } else { exists|i: int| 0 <= i <= w.len() && fitsq(s.drop_last(), #[trigger] w.take(i)) && fits(s.last(), w.skip(i)) }
}
pub open spec fn cat_tellsq<S, T>(s: Mirs<S, T>, w: Seq<S>, t: T) -> bool { s.len() > 0 && exists|i: int| 0 <= i <= w.len() && fitsq(s.drop_last(), #[trigger] w.take(i)) && tells(s.last(), w.skip(i), t) }
proof fn fitsq_of<S, T>(s: Mirs<S, T>, u: Keys<S>, w: Seq<S>)
  requires catq(s, u), spells(u, w),
  ensures fitsq(s, w),
  decreases s.len(),
{
  reveal(fits);
  if s.len() > 0 {
    let i = choose|i: int| 0 <= i <= u.len() && catq(s.drop_last(), #[trigger] u.take(i)) && ends(s.last(), u.skip(i));
    spells_cut(u, w, i);
    fitsq_of(s.drop_last(), u.take(i), w.take(i));
    assert(fits(s.last(), w.skip(i)));
  }
}
proof fn fitsq_some<S, T>(s: Mirs<S, T>, w: Seq<S>) -> (u: Keys<S>)
  requires fitsq(s, w),
  ensures catq(s, u), spells(u, w),
  decreases s.len(),
{
  reveal(fits);
  if s.len() > 0 {
    let i = choose|i: int| 0 <= i <= w.len() && fitsq(s.drop_last(), #[trigger] w.take(i)) && fits(s.last(), w.skip(i));
    let a = fitsq_some(s.drop_last(), w.take(i));
    let b = choose|b: Keys<S>| #[trigger] ends(s.last(), b) && spells(b, w.skip(i));
    spells_app(a, w.take(i), b, w.skip(i));
    assert(w.take(i) + w.skip(i) =~= w);
    assert(catq(s.drop_last(), (a + b).take(a.len() as int)));
    a + b
  } else { Seq::empty() }
}
pub proof fn fits_concat<S, T>(c: Vec<Mir<S, T>>, w: Seq<S>)
  ensures fits(Mir::Concat(c), w) == fitsq(c@, w), forall|t: T| #[trigger] tells(Mir::Concat(c), w, t) == cat_tellsq(c@, w, t),
{
  let m = Mir::Concat(c);
  assert(fits(m, w) == fitsq(c@, w)) by {
    reveal(fits);
    if fits(m, w) { let u = choose|u: Keys<S>| #[trigger] ends(m, u) && spells(u, w); concat_is(c, u); fitsq_of(c@, u, w); }
    if fitsq(c@, w) { let u = fitsq_some(c@, w); concat_is(c, u); assert(ends(m, u)); }
  }
  assert forall|t: T| #[trigger] tells(m, w, t) == cat_tellsq(c@, w, t) by {
    reveal(tells);
    if tells(m, w, t) {
      let u = choose|u: Keys<S>| #[trigger] says(m, u, t) && spells(u, w);
      concat_is(c, u);
      assert(cat_saysq(c@, u, t));
      let i = choose|i: int| 0 <= i <= u.len() && catq(c@.drop_last(), #[trigger] u.take(i)) && says(c@.last(), u.skip(i), t);
      spells_cut(u, w, i);
      fitsq_of(c@.drop_last(), u.take(i), w.take(i));
      assert(tells(c@.last(), w.skip(i), t));
    }
    if cat_tellsq(c@, w, t) {
      let i = choose|i: int| 0 <= i <= w.len() && fitsq(c@.drop_last(), #[trigger] w.take(i)) && tells(c@.last(), w.skip(i), t);
      let a = fitsq_some(c@.drop_last(), w.take(i));
      let b = choose|b: Keys<S>| #[trigger] says(c@.last(), b, t) && spells(b, w.skip(i));
      spells_app(a, w.take(i), b, w.skip(i));
      assert(w.take(i) + w.skip(i) =~= w);
      assert(catq(c@.drop_last(), (a + b).take(a.len() as int)));
      concat_is(c, a + b);
      assert(cat_saysq(c@, a + b, t));
      assert(says(m, a + b, t));
    }
  }
}
pub open spec fn fits_altq<S, T>(a: Alts<S, T>, w: Seq<S>) -> bool { exists|j: int| 0 <= j < a.len() && fits((#[trigger] a[j]).0, w) }
pub open spec fn tells_altq<S, T>(a: Alts<S, T>, w: Seq<S>, t: T) -> bool { exists|j: int| 0 <= j < a.len() && ((#[trigger] a[j]).1 == Some(t) && fits(a[j].0, w) || tells(a[j].0, w, t)) }
pub proof fn fits_alter<S, T>(a: Vec<(Mir<S, T>, Option<T>)>, w: Seq<S>)
  ensures fits(Mir::Alter(a), w) == fits_altq(a@, w), forall|t: T| #[trigger] tells(Mir::Alter(a), w, t) == tells_altq(a@, w, t),
{
  reveal(fits); reveal(tells);
  let m = Mir::Alter(a);
  if fits(m, w) {
    let u = choose|u: Keys<S>| #[trigger] ends(m, u) && spells(u, w); alter_is(a, u);
    let j = choose|j: int| 0 <= j < a@.len() && ends((#[trigger] a@[j]).0, u); assert(fits(a@[j].0, w));
  }
  if fits_altq(a@, w) {
    let j = choose|j: int| 0 <= j < a@.len() && fits((#[trigger] a@[j]).0, w);
    let u = choose|u: Keys<S>| #[trigger] ends(a@[j].0, u) && spells(u, w); alter_is(a, u); assert(altq(a@, u));
  }
  assert forall|t: T| #[trigger] tells(m, w, t) == tells_altq(a@, w, t) by {
    if tells(m, w, t) {
      let u = choose|u: Keys<S>| #[trigger] says(m, u, t) && spells(u, w); alter_is(a, u);
      assert(alt_saysq(a@, u, t));
      let j = choose|j: int| 0 <= j < a@.len() && ((#[trigger] a@[j]).1 == Some(t) && ends(a@[j].0, u) || says(a@[j].0, u, t));
      if says(a@[j].0, u, t) { assert(tells(a@[j].0, w, t)); } else { assert(fits(a@[j].0, w)); }
    }
    if tells_altq(a@, w, t) {
      let j = choose|j: int| 0 <= j < a@.len() && ((#[trigger] a@[j]).1 == Some(t) && fits(a@[j].0, w) || tells(a@[j].0, w, t));
      let u = if tells(a@[j].0, w, t) { choose|u: Keys<S>| #[trigger] says(a@[j].0, u, t) && spells(u, w) } else { choose|u: Keys<S>| #[trigger] ends(a@[j].0, u) && spells(u, w) };
      alter_is(a, u);
      assert(alt_saysq(a@, u, t));
      assert(says(m, u, t));
    }
  }
}
pub open spec fn fits_star<S, T>(k: Mir<S, T>, n: nat, w: Seq<S>) -> bool decreases n {
  if n == 0 { w.len() == 0 } else { exists|i: int| 0 <= i <= w.len() && fits_star(k, (n - 1) as nat, #[trigger] w.take(i)) && fits(k, w.skip(i)) }
}
pub open spec fn fits_stars<S, T>(k: Mir<S, T>, w: Seq<S>) -> bool { exists|n: nat| #[trigger] fits_star(k, n, w) }
proof fn star_fits<S, T>(k: Mir<S, T>, n: nat, u: Keys<S>, w: Seq<S>)
  requires star(k, n, u), spells(u, w),
  ensures fits_star(k, n, w),
  decreases n,
{
  reveal(fits);
  if n > 0 {
    let i = choose|i: int| 0 <= i <= u.len() && star(k, (n - 1) as nat, #[trigger] u.take(i)) && ends(k, u.skip(i));
    spells_cut(u, w, i);
    star_fits(k, (n - 1) as nat, u.take(i), w.take(i));
    assert(fits(k, w.skip(i)));
  }
}
proof fn star_some<S, T>(k: Mir<S, T>, n: nat, w: Seq<S>) -> (u: Keys<S>)
  requires fits_star(k, n, w),
  ensures star(k, n, u), spells(u, w),
  decreases n,
{
  reveal(fits);
  if n > 0 {
    let i = choose|i: int| 0 <= i <= w.len() && fits_star(k, (n - 1) as nat, #[trigger] w.take(i)) && fits(k, w.skip(i));
    let a = star_some(k, (n - 1) as nat, w.take(i));
    let b = choose|b: Keys<S>| #[trigger] ends(k, b) && spells(b, w.skip(i));
    spells_app(a, w.take(i), b, w.skip(i));
    assert(w.take(i) + w.skip(i) =~= w);
    assert(star(k, (n - 1) as nat, (a + b).take(a.len() as int)));
    a + b
  } else { Seq::empty() }
}
pub proof fn fits_kleene<S, T>(k: Box<Mir<S, T>>, w: Seq<S>)
  ensures fits(Mir::Kleene(k), w) == fits_stars(*k, w),
{
  let m = Mir::Kleene(k);
  reveal(fits);
  if fits(m, w) { let u = choose|u: Keys<S>| #[trigger] ends(m, u) && spells(u, w); let n = choose|n: nat| #[trigger] times(n) && star(*k, n, u); star_fits(*k, n, u, w); }
  if fits_stars(*k, w) { let n = choose|n: nat| #[trigger] fits_star(*k, n, w); let u = star_some(*k, n, w); assert(times(n)); assert(ends(m, u)); }
}
pub proof fn tells_none<S, T>(m: Mir<S, T>, w: Seq<S>, t: T)
  requires m is Empty || m is Ranges || m is Kleene || untagged(m),
  ensures !tells(m, w, t),
{
  reveal(tells);
  if tells(m, w, t) { let u = choose|u: Keys<S>| #[trigger] says(m, u, t) && spells(u, w); if untagged(m) { untagged_silent(m, u, t); } }
}
// ---- the same tree over other ranges
/// r is an expression of the symbols in a.
pub open spec fn leaf<S, T>(a: Seq<(S, S)>, r: Mir<S, T>) -> bool {
  &&& forall|w: Seq<S>| #[trigger] fits(r, w) == (w.len() == 1 && within(a, w[0]))
  &&& untagged(r) && full(r)
}
pub open spec fn alike<S, T>(m: Mir<S, T>, r: Mir<S, T>) -> bool decreases m {
  match m {
    Mir::Empty => r is Empty,
    Mir::Ranges(a) => leaf(a@, r),
    Mir::Concat(c) => r is Concat && r->Concat_0.len() == c.len() && forall|j: int| 0 <= j < c.len() ==> alike(#[trigger] c[j], r->Concat_0[j]),
    Mir::Alter(a) => r is Alter && r->Alter_0.len() == a.len() && forall|j: int| 0 <= j < a.len() ==> alike((#[trigger] a[j]).0, r->Alter_0[j].0) && r->Alter_0[j].1 == a[j].1,
    Mir::Kleene(k) => r is Kleene && alike(*k, *(r->Kleene_0)),
  }
}
/// The same symbol sequences with the same tags.
#[verifier::opaque]
pub open spec fn equal<S, T>(m: Mir<S, T>, r: Mir<S, T>) -> bool {
  &&& forall|w: Seq<S>| #[trigger] fits(r, w) == fits(m, w)
  &&& forall|w: Seq<S>, t: T| #[trigger] tells(r, w, t) == tells(m, w, t)
}
pub open spec fn equals<S, T>(a: Mirs<S, T>, b: Mirs<S, T>) -> bool { a.len() == b.len() && forall|j: int| 0 <= j < a.len() ==> equal(#[trigger] a[j], b[j]) }
proof fn equals_fits<S, T>(a: Mirs<S, T>, b: Mirs<S, T>, w: Seq<S>)
  requires equals(a, b),
  ensures fitsq(a, w) == fitsq(b, w),
  decreases a.len(),
{
  if a.len() > 0 {
    let a1 = a.drop_last(); let b1 = b.drop_last();
    assert forall|j: int| 0 <= j < a1.len() implies equal(#[trigger] a1[j], b1[j]) by { assert(equal(a[j], b[j])); }
    assert(equal(a[a.len() - 1], b[a.len() - 1]));
    reveal(equal);
    assert forall|i: int| 0 <= i <= w.len() implies fitsq(a1, #[trigger] w.take(i)) == fitsq(b1, w.take(i)) by { equals_fits(a1, b1, w.take(i)); }
    if fitsq(a, w) { let i = choose|i: int| 0 <= i <= w.len() && fitsq(a1, #[trigger] w.take(i)) && fits(a.last(), w.skip(i)); assert(fitsq(b1, w.take(i)) && fits(b.last(), w.skip(i))); }
    if fitsq(b, w) { let i = choose|i: int| 0 <= i <= w.len() && fitsq(b1, #[trigger] w.take(i)) && fits(b.last(), w.skip(i)); assert(fitsq(a1, w.take(i)) && fits(a.last(), w.skip(i))); }
  }
}
proof fn equals_tells<S, T>(a: Mirs<S, T>, b: Mirs<S, T>, w: Seq<S>, t: T)
  requires equals(a, b),
  ensures cat_tellsq(a, w, t) == cat_tellsq(b, w, t),
{
  if a.len() > 0 {
    let a1 = a.drop_last(); let b1 = b.drop_last();
    assert forall|j: int| 0 <= j < a1.len() implies equal(#[trigger] a1[j], b1[j]) by { assert(equal(a[j], b[j])); }
    assert(equal(a[a.len() - 1], b[a.len() - 1]));
    reveal(equal);
    assert forall|i: int| 0 <= i <= w.len() implies fitsq(a1, #[trigger] w.take(i)) == fitsq(b1, w.take(i)) by { equals_fits(a1, b1, w.take(i)); }
    if cat_tellsq(a, w, t) { let i = choose|i: int| 0 <= i <= w.len() && fitsq(a1, #[trigger] w.take(i)) && tells(a.last(), w.skip(i), t); assert(fitsq(b1, w.take(i)) && tells(b.last(), w.skip(i), t)); }
    if cat_tellsq(b, w, t) { let i = choose|i: int| 0 <= i <= w.len() && fitsq(b1, #[trigger] w.take(i)) && tells(b.last(), w.skip(i), t); assert(fitsq(a1, w.take(i)) && tells(a.last(), w.skip(i), t)); }
  }
}
pub proof fn equal_concat<S, T>(c: Vec<Mir<S, T>>, d: Vec<Mir<S, T>>)
  requires equals(c@, d@),
  ensures equal(Mir::Concat(c), Mir::Concat(d)),
{
  reveal(equal);
  assert forall|w: Seq<S>| #[trigger] fits(Mir::Concat(d), w) == fits(Mir::Concat(c), w) by { fits_concat(c, w); fits_concat(d, w); equals_fits(c@, d@, w); }
  assert forall|w: Seq<S>, t: T| #[trigger] tells(Mir::Concat(d), w, t) == tells(Mir::Concat(c), w, t) by {
    fits_concat(c, w); fits_concat(d, w); equals_tells(c@, d@, w, t);
    assert(tells(Mir::Concat(c), w, t) == cat_tellsq(c@, w, t));
  }
}
pub proof fn equal_alter<S, T>(a: Vec<(Mir<S, T>, Option<T>)>, b: Vec<(Mir<S, T>, Option<T>)>)
  requires a.len() == b.len(), forall|j: int| 0 <= j < a.len() ==> equal((#[trigger] a[j]).0, b[j].0) && b[j].1 == a[j].1,
  ensures equal(Mir::Alter(a), Mir::Alter(b)),
{
  let m = Mir::Alter(a); let r = Mir::Alter(b);
  reveal(equal);
  assert forall|w: Seq<S>| #[trigger] fits(r, w) == fits(m, w) by {
    fits_alter(a, w); fits_alter(b, w);
    if fits_altq(a@, w) { let j = choose|j: int| 0 <= j < a@.len() && fits((#[trigger] a@[j]).0, w); assert(equal(a[j].0, b[j].0)); assert(fits(b@[j].0, w)); }
    if fits_altq(b@, w) { let j = choose|j: int| 0 <= j < b@.len() && fits((#[trigger] b@[j]).0, w); assert(equal(a[j].0, b[j].0)); assert(fits(a@[j].0, w)); }
  }
  assert forall|w: Seq<S>, t: T| #[trigger] tells(r, w, t) == tells(m, w, t) by {
    fits_alter(a, w); fits_alter(b, w);
    assert(tells(m, w, t) == tells_altq(a@, w, t));
    if tells_altq(a@, w, t) { let j = choose|j: int| 0 <= j < a@.len() && ((#[trigger] a@[j]).1 == Some(t) && fits(a@[j].0, w) || tells(a@[j].0, w, t)); assert(equal(a[j].0, b[j].0) && b[j].1 == a[j].1); assert(fits(b@[j].0, w) == fits(a@[j].0, w)); assert(tells(b@[j].0, w, t) == tells(a@[j].0, w, t)); }
    if tells_altq(b@, w, t) { let j = choose|j: int| 0 <= j < b@.len() && ((#[trigger] b@[j]).1 == Some(t) && fits(b@[j].0, w) || tells(b@[j].0, w, t)); assert(equal(a[j].0, b[j].0) && b[j].1 == a[j].1); assert(fits(b@[j].0, w) == fits(a@[j].0, w)); assert(tells(b@[j].0, w, t) == tells(a@[j].0, w, t)); }
  }
}
proof fn star_equal<S, T>(k: Mir<S, T>, r: Mir<S, T>, n: nat, w: Seq<S>)
  requires equal(k, r),
  ensures fits_star(k, n, w) == fits_star(r, n, w),
  decreases n,
{
  reveal(equal);
  if n > 0 {
    assert forall|i: int| 0 <= i <= w.len() implies fits_star(k, (n - 1) as nat, #[trigger] w.take(i)) == fits_star(r, (n - 1) as nat, w.take(i)) by { star_equal(k, r, (n - 1) as nat, w.take(i)); }
    if fits_star(k, n, w) { let i = choose|i: int| 0 <= i <= w.len() && fits_star(k, (n - 1) as nat, #[trigger] w.take(i)) && fits(k, w.skip(i)); assert(fits_star(r, (n - 1) as nat, w.take(i)) && fits(r, w.skip(i))); }
    if fits_star(r, n, w) { let i = choose|i: int| 0 <= i <= w.len() && fits_star(r, (n - 1) as nat, #[trigger] w.take(i)) && fits(r, w.skip(i)); assert(fits_star(k, (n - 1) as nat, w.take(i)) && fits(k, w.skip(i))); }
  }
}
pub proof fn equal_kleene<S, T>(k: Box<Mir<S, T>>, r: Box<Mir<S, T>>)
  requires equal(*k, *r),
  ensures equal(Mir::Kleene(k), Mir::Kleene(r)),
{
  reveal(equal);
  let m = Mir::Kleene(k); let n = Mir::Kleene(r);
  assert forall|w: Seq<S>| #[trigger] fits(n, w) == fits(m, w) by {
    fits_kleene(k, w); fits_kleene(r, w);
    assert forall|x: nat| fits_star(*k, x, w) == fits_star(*r, x, w) by { star_equal(*k, *r, x, w); }
    if fits_stars(*k, w) { let x = choose|x: nat| #[trigger] fits_star(*k, x, w); assert(fits_star(*r, x, w)); }
    if fits_stars(*r, w) { let x = choose|x: nat| #[trigger] fits_star(*r, x, w); assert(fits_star(*k, x, w)); }
  }
  assert forall|w: Seq<S>, t: T| #[trigger] tells(n, w, t) == tells(m, w, t) by { tells_none(n, w, t); tells_none(m, w, t); }
}
/// Trees over equal ranges match the same.
pub proof fn alike_equal<S, T>(m: Mir<S, T>, r: Mir<S, T>)
  requires alike(m, r),
  ensures equal(m, r), untagged(r) == untagged(m), placed(r) == placed(m), full(m) ==> full(r),
  decreases m,
{
  match m {
    Mir::Empty => { reveal(equal); }
    Mir::Ranges(a) => {
      reveal(equal);
      assert forall|w: Seq<S>| #[trigger] fits(r, w) == fits(m, w) by { fits_ranges::<S, T>(a, w); }
      assert forall|w: Seq<S>, t: T| #[trigger] tells(r, w, t) == tells(m, w, t) by { tells_none(r, w, t); tells_none(m, w, t); }
      untagged_placed(r);
    }
    Mir::Concat(c) => {
      let d = r->Concat_0;
      assert forall|j: int| 0 <= j < c.len() implies equal(#[trigger] c[j], d[j]) && untagged(d[j]) == untagged(c[j]) && placed(d[j]) == placed(c[j]) && (full(c[j]) ==> full(d[j])) by { alike_equal(c[j], d[j]); }
      assert(equals(c@, d@)) by { assert forall|j: int| 0 <= j < c@.len() implies equal(#[trigger] c@[j], d@[j]) by { assert(equal(c[j], d[j])); } }
      equal_concat(c, d);
      assert(untagged(r) == untagged(m)) by { if untagged(r) { assert forall|j: int| 0 <= j < c.len() implies untagged(#[trigger] c[j]) by { assert(untagged(d[j])); } } if untagged(m) { assert forall|j: int| 0 <= j < d.len() implies untagged(#[trigger] d[j]) by { assert(untagged(c[j])); } } }
      assert(placed(r) == placed(m)) by {
        if placed(r) { assert forall|j: int| 0 <= j < c.len() implies placed(#[trigger] c[j]) by { assert(placed(d[j])); } assert forall|j: int| 0 <= j < c.len() - 1 implies untagged(#[trigger] c[j]) by { assert(untagged(d[j])); } }
        if placed(m) { assert forall|j: int| 0 <= j < d.len() implies placed(#[trigger] d[j]) by { assert(placed(c[j])); } assert forall|j: int| 0 <= j < d.len() - 1 implies untagged(#[trigger] d[j]) by { assert(untagged(c[j])); } }
      }
      if full(m) { assert forall|j: int| 0 <= j < d.len() implies full(#[trigger] d[j]) by { assert(full(c[j])); } }
    }
    Mir::Alter(a) => {
      let b = r->Alter_0;
      assert forall|j: int| 0 <= j < a.len() implies equal((#[trigger] a[j]).0, b[j].0) && b[j].1 == a[j].1 && untagged(b[j].0) == untagged(a[j].0) && placed(b[j].0) == placed(a[j].0) && (full(a[j].0) ==> full(b[j].0)) by { alike_equal(a[j].0, b[j].0); }
      equal_alter(a, b);
      assert(untagged(r) == untagged(m)) by { if untagged(r) { assert forall|j: int| 0 <= j < a.len() implies (#[trigger] a[j]).1 is None && untagged(a[j].0) by { assert(untagged(b[j].0)); } } if untagged(m) { assert forall|j: int| 0 <= j < b.len() implies (#[trigger] b[j]).1 is None && untagged(b[j].0) by { assert(untagged(a[j].0)); } } }
      assert(placed(r) == placed(m)) by {
        if placed(r) { assert forall|j: int| 0 <= j < a.len() implies placed((#[trigger] a[j]).0) && (a[j].1 is Some ==> untagged(a[j].0)) by { assert(placed(b[j].0)); } }
        if placed(m) { assert forall|j: int| 0 <= j < b.len() implies placed((#[trigger] b[j]).0) && (b[j].1 is Some ==> untagged(b[j].0)) by { assert(placed(a[j].0)); } }
      }
      if full(m) { assert forall|j: int| 0 <= j < b.len() implies full((#[trigger] b[j]).0) by { assert(full(a[j].0)); } }
    }
    Mir::Kleene(k) => { alike_equal(*k, *(r->Kleene_0)); equal_kleene(k, r->Kleene_0); }
  }
}
pub proof fn same_equal<S, T>(m: Mir<S, T>, r: Mir<S, T>)
  requires forall|u: Keys<S>| #[trigger] ends(r, u) == ends(m, u), forall|u: Keys<S>, t: T| #[trigger] says(r, u, t) == says(m, u, t),
  ensures equal(m, r),
{
  reveal(fits); reveal(tells); reveal(equal);
  assert forall|w: Seq<S>| #[trigger] fits(r, w) == fits(m, w) by {
    if fits(r, w) { let u = choose|u: Keys<S>| #[trigger] ends(r, u) && spells(u, w); assert(ends(m, u)); }
    if fits(m, w) { let u = choose|u: Keys<S>| #[trigger] ends(m, u) && spells(u, w); assert(ends(r, u)); }
  }
  assert forall|w: Seq<S>, t: T| #[trigger] tells(r, w, t) == tells(m, w, t) by {
    if tells(r, w, t) { let u = choose|u: Keys<S>| #[trigger] says(r, u, t) && spells(u, w); assert(says(m, u, t)); }
    if tells(m, w, t) { let u = choose|u: Keys<S>| #[trigger] says(m, u, t) && spells(u, w); assert(says(r, u, t)); }
  }
}
pub proof fn equal_trans<S, T>(a: Mir<S, T>, b: Mir<S, T>, c: Mir<S, T>)
  requires equal(a, b), equal(b, c),
  ensures equal(a, c),
{
  reveal(equal);
  assert forall|w: Seq<S>| #[trigger] fits(c, w) == fits(a, w) by { assert(fits(b, w) == fits(a, w)); }
  assert forall|w: Seq<S>, t: T| #[trigger] tells(c, w, t) == tells(a, w, t) by { assert(tells(b, w, t) == tells(a, w, t)); }
}
