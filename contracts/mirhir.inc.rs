// ------------------------------------------------------------ the expression of a tree
//@ rewrite pattern of a parameter to a let :: fn new_from_literal(Literal(bs): Literal) -> Result<Self, Error> { ==> fn new_from_literal(l: Literal) -> Result<Self, Error> { let Literal(bs) = l;
//@ rewrite iterator adapters to a loop :: from_utf8(&bs).map(|s| Self::Concat(s.chars().map(|c| $e).collect())).map_err(|_| $f) ==> match utf8_(&bs) { Some(s_) => { let mut o_: Vec<Self> = Vec::new(); let n_ = s_.len(); for i_ in 0..n_ { let c = s_[i_]; let x_ = $e; o_.push(x_); } let z_ = Self::Concat(o_); Ok(z_) } None => Err($f) }
//@ rewrite iterator adapters to a loop :: Ok(Self::Concat(bs.iter().map(|b| $e).collect()$o_c)) ==> { let s_ = slice_(&bs); let mut o_: Vec<Self> = Vec::new(); let n_ = s_.len(); for i_ in 0..n_ { let b = &s_[i_]; let x_ = $e; o_.push(x_); } let z_ = Self::Concat(o_); Ok(z_) }
//@ rewrite iterator adapters to a loop :: Self::Ranges(b.ranges().iter().map(|r| $e).collect()$o_c) ==> { let v_ = b.ranges(); let mut o_ = Vec::new(); let n_ = v_.len(); for i_ in 0..n_ { let r = &v_[i_]; let x_ = $e; o_.push(x_); } let z_ = Self::Ranges(o_); z_ }
//@ rewrite iterator adapters to a loop :: Self::Ranges(u.ranges().iter().map(|r| $e).collect()$o_c) ==> { let y_ = u.ranges(); let mut o_ = Vec::new(); let n_ = y_.len(); for i_ in 0..n_ { let r = &y_[i_]; let x_ = $e; o_.push(x_); } let q_ = Self::Ranges(o_); q_ }
//@ rewrite iterator adapters to a loop :: once(Ok($i)).chain((1..=$m).map(|n| $e)).map(|r| r.map(|e| $f)).collect::<Result<_, _>>().map(Self::Alter) ==> { let mut o_: Vec<(Self, Option<T>)> = Vec::new(); let e = $i; o_.push($f); let m_ = $m; for i_ in 0..m_ { let n = i_ + 1; match $e { Ok(e) => { let x_ = $f; o_.push(x_); } Err(x_) => { return Err(x_); } } } let a_ = Self::Alter(o_); Ok(a_) }
//@ rewrite iterator adapters to a loop :: repeat(hir).take(n).map(Self::new).collect::<Result<_, _>>().map(Self::Concat) ==> { let mut o_: Vec<Self> = Vec::new(); for i_ in 0..n { match Self::new(clone_(&hir)) { Ok(x_) => { o_.push(x_); } Err(x_) => { return Err(x_); } } } let z_ = Self::Concat(o_); Ok(z_) }
//@ rewrite iterator adapters to a loop :: c.into_iter().map(Self::new).collect::<Result<_, _>>().map(Self::Concat) ==> { let mut o_: Vec<Self> = Vec::new(); for h_ in c { match Self::new(h_) { Ok(x_) => { o_.push(x_); } Err(x_) => { return Err(x_); } } } let c_ = Self::Concat(o_); Ok(c_) }
//@ rewrite iterator adapters to a loop :: a.into_iter().map(|hir| Self::new(hir).map(|e| $f)).collect::<Result<_, _>>().map(Self::Alter) ==> { let mut o_: Vec<(Self, Option<T>)> = Vec::new(); for hir in a { match Self::new(hir) { Ok(e) => { let x_ = $f; o_.push(x_); } Err(x_) => { return Err(x_); } } } let l_ = Self::Alter(o_); Ok(l_) }
//@ rewrite map of a result to a match :: Self::new(*sub).map(|e| $f) ==> match Self::new(unbox_(sub)) { Ok(e) => { let k_ = $f; Ok(k_) } Err(x_) => Err(x_) }
//@ rewrite contents of a box :: Self::new(*c.sub) ==> Self::new(unbox_(c.sub))
//@ rewrite clone of a value :: *sub.clone() ==> clone_(&*sub)
//@ rewrite map of an option to a match :: max.map(|m| $e) ==> match max { Some(m) => Some($e), None => None }
//@ rewrite vector of two :: Ok(Self::Concat(vec![rep1, rep2])) ==> { let mut o_: Vec<Self> = Vec::new(); o_.push(rep1); o_.push(rep2); let p_ = Self::Concat(o_); Ok(p_) }
//@ rewrite question mark to a match :: let rep1 = $e?; ==> let rep1 = match $e { Ok(x_) => x_, Err(x_) => { return Err(x_); } };
//@ rewrite question mark to a match :: let rep2 = $e?; ==> let rep2 = match $e { Ok(x_) => x_, Err(x_) => { return Err(x_); } };
//@ rewrite vector of one :: vec![$e] ==> one_($e)
#[verifier::external_body]
fn unreached_<T>() -> T requires false { unimplemented!() }
#[verifier::external_body]
fn utf8_(b: &Box<[u8]>) -> (r: Option<Vec<char>>) ensures match r { Some(v) => utf8((*b)@) == Some(v@), None => utf8((*b)@) is None } { unimplemented!() }
#[verifier::external_body]
fn slice_(b: &Box<[u8]>) -> (r: &[u8]) ensures r@ == (*b)@ { unimplemented!() }
fn one_<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); v }
pub open spec fn hsize(k: HirKind) -> nat decreases k, 0nat {
  match k {
    HirKind::Repetition(r) => 1 + hsize((*r.sub).kind),
    HirKind::Capture(c) => 1 + hsize((*c.sub).kind),
    HirKind::Concat(c) => 1 + hsizes(c, c.len() as nat),
    HirKind::Alternation(c) => 1 + hsizes(c, c.len() as nat),
    _ => 0,
  }
}
pub open spec fn hsizes(c: Vec<Hir>, n: nat) -> nat decreases c, n {
  if n == 0 || n > c.len() { 0 } else { hsizes(c, (n - 1) as nat) + hsize(c[n - 1].kind) }
}
proof fn hsizes_at(c: Vec<Hir>, n: nat, j: int)
  requires 0 <= j < n <= c.len(),
  ensures hsize(c[j].kind) <= hsizes(c, n),
  decreases n,
{ if j < n - 1 { hsizes_at(c, (n - 1) as nat, j); } }
pub open spec fn rank(k: HirKind) -> nat { match k { HirKind::Repetition(r) => if r.min != 0 { 1 } else { 0 }, _ => 0 } }
// ------------------------------------------------------------ lists of trees and of expressions
proof fn reps_add<S>(h: Hir, n: nat, m: nat, w: Seq<S>)
  ensures hrep(h, n + m, w) == exists|i: int| 0 <= i <= w.len() && hrep(h, n, #[trigger] w.take(i)) && hrep(h, m, w.skip(i)),
  decreases m,
{
  if m == 0 {
    if hrep(h, n, w) { let i = w.len() as int; assert(w.take(i) =~= w); assert(hrep(h, m, w.skip(i))); }
    if exists|i: int| 0 <= i <= w.len() && hrep(h, n, #[trigger] w.take(i)) && hrep(h, m, w.skip(i)) {
      let i = choose|i: int| 0 <= i <= w.len() && hrep(h, n, #[trigger] w.take(i)) && hrep(h, m, w.skip(i));
      assert(w.skip(i).len() == 0); assert(w.take(i) =~= w);
    }
  } else {
    if hrep(h, n + m, w) {
      let j = choose|j: int| 0 <= j <= w.len() && hrep(h, (n + m - 1) as nat, #[trigger] w.take(j)) && hfits(h.kind, w.skip(j));
      reps_add(h, n, (m - 1) as nat, w.take(j));
      let v = w.take(j);
      let i = choose|i: int| 0 <= i <= v.len() && hrep(h, n, #[trigger] v.take(i)) && hrep(h, (m - 1) as nat, v.skip(i));
      assert(v.take(i) =~= w.take(i));
      assert(w.skip(i).take(j - i) =~= v.skip(i)); assert(w.skip(i).skip(j - i) =~= w.skip(j));
      assert(hrep(h, m, w.skip(i)));
    }
    if exists|i: int| 0 <= i <= w.len() && hrep(h, n, #[trigger] w.take(i)) && hrep(h, m, w.skip(i)) {
      let i = choose|i: int| 0 <= i <= w.len() && hrep(h, n, #[trigger] w.take(i)) && hrep(h, m, w.skip(i));
      let x = w.skip(i);
      let d = choose|d: int| 0 <= d <= x.len() && hrep(h, (m - 1) as nat, #[trigger] x.take(d)) && hfits(h.kind, x.skip(d));
      let j = i + d;
      let v = w.take(j);
      assert(v.take(i) =~= w.take(i)); assert(v.skip(i) =~= x.take(d)); assert(w.skip(j) =~= x.skip(d));
      reps_add(h, n, (m - 1) as nat, v);
      assert(hrep(h, (n + m - 1) as nat, w.take(j)));
    }
  }
}
/// n expressions, each as the tree.
proof fn reps_fit<S, T>(h: Hir, s: Mirs<S, T>, w: Seq<S>)
  requires forall|j: int| 0 <= j < s.len() ==> built(h.kind, #[trigger] s[j]),
  ensures fitsq(s, w) == hrep(h, s.len(), w),
  decreases s.len(),
{
  if s.len() > 0 {
    let p = s.drop_last(); let n = (s.len() - 1) as nat;
    assert(built(h.kind, s[s.len() - 1]));
    assert forall|j: int| 0 <= j < p.len() implies built(h.kind, #[trigger] p[j]) by { assert(p[j] == s[j]); }
    assert forall|i: int| 0 <= i <= w.len() implies fitsq(p, #[trigger] w.take(i)) == hrep(h, n, w.take(i)) && fits(s.last(), w.skip(i)) == hfits(h.kind, w.skip(i)) by { reps_fit(h, p, w.take(i)); }
  }
}
proof fn cats_fit<S, T>(c: Vec<Hir>, s: Mirs<S, T>, w: Seq<S>)
  requires s.len() <= c.len(), forall|j: int| 0 <= j < s.len() ==> built(c[j].kind, #[trigger] s[j]),
  ensures fitsq(s, w) == hcat(c, s.len(), w),
  decreases s.len(),
{
  if s.len() > 0 {
    let p = s.drop_last(); let n = (s.len() - 1) as nat;
    assert(built(c[n as int].kind, s[s.len() - 1]));
    assert forall|j: int| 0 <= j < p.len() implies built(c[j].kind, #[trigger] p[j]) by { assert(p[j] == s[j]); }
    assert forall|i: int| 0 <= i <= w.len() implies fitsq(p, #[trigger] w.take(i)) == hcat(c, n, w.take(i)) && fits(s.last(), w.skip(i)) == hfits(c[n as int].kind, w.skip(i)) by { cats_fit(c, p, w.take(i)); }
  }
}
proof fn star_fit<S, T>(h: Hir, m: Mir<S, T>, n: nat, w: Seq<S>)
  requires built(h.kind, m),
  ensures fits_star(m, n, w) == hrep(h, n, w),
  decreases n,
{
  if n > 0 {
    assert forall|i: int| 0 <= i <= w.len() implies fits_star(m, (n - 1) as nat, #[trigger] w.take(i)) == hrep(h, (n - 1) as nat, w.take(i)) && fits(m, w.skip(i)) == hfits(h.kind, w.skip(i)) by { star_fit(h, m, (n - 1) as nat, w.take(i)); }
  }
}
/// Untagged, with closed ranges; whole: without empty lists and ranges.
pub open spec fn plain<S, T>(m: Mir<S, T>, whole: bool) -> bool { untagged(m) && valid(m) && (whole ==> full(m) && !hole(m)) }
proof fn plain_concat<S, T>(o: Vec<Mir<S, T>>, whole: bool)
  requires forall|j: int| 0 <= j < o@.len() ==> plain(#[trigger] o@[j], whole), whole ==> o@.len() > 0,
  ensures plain(Mir::Concat(o), whole),
{
  let m = Mir::Concat(o);
  assert(m->Concat_0 == o);
  assert forall|j: int| 0 <= j < o.len() implies plain(#[trigger] o[j], whole) by { assert(plain(o@[j], whole)); }
  assert(valid(m)) by { assert forall|k: Vec<(S, S)>| #[trigger] has_range(m, k) implies valid_one(k@) by { let j = choose|j: int| 0 <= j < o.len() && has_range(#[trigger] o[j], k); assert(valid(o@[j])); } }
  if whole && hole(m) { let k = choose|k: Vec<(S, S)>| #[trigger] has_range(m, k) && k@.len() == 0; let j = choose|j: int| 0 <= j < o.len() && has_range(#[trigger] o[j], k); assert(hole(o@[j])); }
}
proof fn plain_alter<S, T>(o: Vec<(Mir<S, T>, Option<T>)>, whole: bool)
  requires forall|j: int| 0 <= j < o@.len() ==> plain((#[trigger] o@[j]).0, whole) && o@[j].1 is None, whole ==> o@.len() > 0,
  ensures plain(Mir::Alter(o), whole),
{
  let m = Mir::Alter(o);
  assert(m->Alter_0 == o);
  assert forall|j: int| 0 <= j < o.len() implies plain((#[trigger] o[j]).0, whole) && o[j].1 is None by { assert(plain(o@[j].0, whole)); }
  assert(valid(m)) by { assert forall|k: Vec<(S, S)>| #[trigger] has_range(m, k) implies valid_one(k@) by { let j = choose|j: int| 0 <= j < o.len() && has_range((#[trigger] o[j]).0, k); assert(valid(o@[j].0)); } }
  if whole && hole(m) { let k = choose|k: Vec<(S, S)>| #[trigger] has_range(m, k) && k@.len() == 0; let j = choose|j: int| 0 <= j < o.len() && has_range((#[trigger] o[j]).0, k); assert(hole(o@[j].0)); }
}
/// n times the tree, as an expression.
pub open spec fn repeated<S, T>(h: Hir, n: nat, m: Mir<S, T>) -> bool {
  &&& untagged(m) && valid(m)
  &&& n > 0 && regular::<S>(h.kind) ==> full(m) && !hole(m)
  &&& forall|w: Seq<S>| #[trigger] fits(m, w) == hrep(h, n, w)
}
proof fn repeat_done<S, T>(h: Hir, o: Vec<Mir<S, T>>)
  requires forall|j: int| 0 <= j < o@.len() ==> built(h.kind, #[trigger] o@[j]),
  ensures repeated(h, o@.len(), Mir::Concat(o)),
{
  let m = Mir::Concat(o);
  assert forall|j: int| 0 <= j < o@.len() implies plain(#[trigger] o@[j], regular::<S>(h.kind)) by { assert(built(h.kind, o@[j])); }
  if o@.len() > 0 { plain_concat(o, regular::<S>(h.kind)); } else { plain_concat(o, false); }
  assert forall|w: Seq<S>| #[trigger] fits(m, w) == hrep(h, o@.len(), w) by { fits_concat(o, w); reps_fit(h, o@, w); }
}
proof fn concat_done<S, T>(c: Vec<Hir>, o: Vec<Mir<S, T>>)
  requires o@.len() == c.len(), forall|j: int| 0 <= j < o@.len() ==> built(c[j].kind, #[trigger] o@[j]),
  ensures built(HirKind::Concat(c), Mir::Concat(o)),
{
  let m = Mir::Concat(o); let k = HirKind::Concat(c);
  assert(k->Concat_0 == c);
  assert forall|j: int| 0 <= j < o@.len() implies plain(#[trigger] o@[j], regular::<S>(k)) by { assert(built(c[j].kind, o@[j])); }
  plain_concat(o, regular::<S>(k));
  assert forall|w: Seq<S>| #[trigger] fits(m, w) == hfits(k, w) by { fits_concat(o, w); cats_fit(c, o@, w); }
}
proof fn alter_done<S, T>(c: Vec<Hir>, o: Vec<(Mir<S, T>, Option<T>)>)
  requires o@.len() == c.len(), forall|j: int| 0 <= j < o@.len() ==> built(c[j].kind, (#[trigger] o@[j]).0) && o@[j].1 is None,
  ensures built(HirKind::Alternation(c), Mir::Alter(o)),
{
  let m = Mir::Alter(o); let k = HirKind::Alternation(c);
  assert(k->Alternation_0 == c);
  assert forall|j: int| 0 <= j < o@.len() implies plain((#[trigger] o@[j]).0, regular::<S>(k)) && o@[j].1 is None by { assert(built(c[j].kind, o@[j].0)); }
  plain_alter(o, regular::<S>(k));
  assert forall|w: Seq<S>| #[trigger] fits(m, w) == hfits(k, w) by {
    fits_alter(o, w);
    if fits_altq(o@, w) { let j = choose|j: int| 0 <= j < o@.len() && fits((#[trigger] o@[j]).0, w); assert(hfits(c[j].kind, w)); }
    if hfits(k, w) { let j = choose|j: int| 0 <= j < c.len() && hfits((#[trigger] c[j]).kind, w); assert(fits(o@[j].0, w)); }
  }
}
proof fn kleene_done<S, T>(r: Repetition, b: Box<Mir<S, T>>)
  requires r.min == 0, r.max is None, built((*r.sub).kind, *b),
  ensures built(HirKind::Repetition(r), Mir::Kleene(b)),
{
  let m = Mir::Kleene(b); let k = HirKind::Repetition(r);
  assert(m->Kleene_0 == b);
  assert(valid(m)) by { assert forall|x: Vec<(S, S)>| #[trigger] has_range(m, x) implies valid_one(x@) by { assert(has_range(*b, x)); } }
  if hole(m) { let x = choose|x: Vec<(S, S)>| #[trigger] has_range(m, x) && x@.len() == 0; assert(has_range(*b, x)); assert(hole(*b)); }
  assert forall|w: Seq<S>| #[trigger] fits(m, w) == hfits(k, w) by {
    fits_kleene(b, w);
    if fits_stars(*b, w) { let n = choose|n: nat| #[trigger] fits_star(*b, n, w); star_fit(*r.sub, *b, n, w); assert(times(n)); }
    if hfits(k, w) { let n = choose|n: nat| #[trigger] times(n) && hrep(*r.sub, n, w); star_fit(*r.sub, *b, n, w); assert(fits_star(*b, n, w)); }
  }
}
/// At least min, and then up to the rest.
proof fn least_done<S, T>(r: Repetition, q: Repetition, o: Vec<Mir<S, T>>)
  requires
    r.min > 0, r.max is Some ==> r.min <= r.max->0, q.min == 0, q.sub == r.sub, q.max is Some == r.max is Some, q.max is Some ==> q.max->0 == r.max->0 - r.min,
    o@.len() == 2, repeated(*r.sub, r.min as nat, o@[0]), built(HirKind::Repetition(q), o@[1]),
  ensures built(HirKind::Repetition(r), Mir::Concat(o)),
{
  let m = Mir::Concat(o); let k = HirKind::Repetition(r); let h = *r.sub;
  plain_concat(o, regular::<S>(k));
  assert forall|w: Seq<S>| #[trigger] fits(m, w) == hfits(k, w) by {
    fits_concat(o, w);
    let s = o@; let p = s.drop_last(); let a = r.min as nat;
    assert(p.drop_last() =~= Seq::<Mir<S, T>>::empty());
    assert forall|i: int| 0 <= i <= w.len() implies fitsq(p, #[trigger] w.take(i)) == hrep(h, a, w.take(i)) by {
      let v = w.take(i);
      assert(p.last() == o@[0]);
      if fitsq(p, v) { let j = choose|j: int| 0 <= j <= v.len() && fitsq(p.drop_last(), #[trigger] v.take(j)) && fits(p.last(), v.skip(j)); assert(v.take(j).len() == 0); assert(v.skip(j) =~= v); }
      if hrep(h, a, v) { assert(fits(o@[0], v)); assert(v.skip(0) =~= v); assert(v.take(0).len() == 0); assert(fitsq(p.drop_last(), v.take(0))); }
    }
    if fitsq(s, w) {
      let i = choose|i: int| 0 <= i <= w.len() && fitsq(p, #[trigger] w.take(i)) && fits(s.last(), w.skip(i));
      assert(fits(o@[1], w.skip(i)));
      let n = choose|n: nat| #[trigger] times(n) && (q.max is Some ==> n <= q.max->0) && hrep(*q.sub, n, w.skip(i));
      reps_add(h, a, n, w);
      assert(hrep(h, a, w.take(i)));
      assert(times(a + n));
      assert(hrep(h, a + n, w));
    }
    if hfits(k, w) {
      let n = choose|n: nat| #[trigger] times(n) && r.min <= n && (r.max is Some ==> n <= r.max->0) && hrep(h, n, w);
      let d = (n - a) as nat;
      reps_add(h, a, d, w);
      let i = choose|i: int| 0 <= i <= w.len() && hrep(h, a, #[trigger] w.take(i)) && hrep(h, d, w.skip(i));
      assert(times(d));
      assert(hfits(HirKind::Repetition(q), w.skip(i)));
      assert(fits(s.last(), w.skip(i)));
      assert(fitsq(p, w.take(i)));
    }
  }
}
/// None, one, two, up to max times.
pub open spec fn upto<S, T>(h: Hir, n: nat, o: Seq<(Mir<S, T>, Option<T>)>) -> bool { o.len() == n && forall|j: int| 0 <= j < o.len() ==> repeated(h, j as nat, (#[trigger] o[j]).0) && (regular::<S>(h.kind) ==> full(o[j].0) && !hole(o[j].0)) && o[j].1 is None }
proof fn upto_one<S, T>(h: Hir, o: Seq<(Mir<S, T>, Option<T>)>)
  requires o.len() == 1, o[0].0 is Empty, o[0].1 is None,
  ensures upto(h, 1, o),
{
  assert forall|w: Seq<S>| #[trigger] fits(o[0].0, w) == hrep(h, 0, w) by { fits_empty::<S, T>(w); }
  assert(repeated(h, 0, o[0].0));
}
proof fn upto_done<S, T>(r: Repetition, o: Vec<(Mir<S, T>, Option<T>)>)
  requires r.min == 0, r.max is Some, upto(*r.sub, r.max->0 as nat + 1, o@),
  ensures built(HirKind::Repetition(r), Mir::Alter(o)),
{
  let m = Mir::Alter(o); let k = HirKind::Repetition(r); let h = *r.sub;
  assert forall|j: int| 0 <= j < o@.len() implies plain((#[trigger] o@[j]).0, regular::<S>(k)) && o@[j].1 is None by { assert(repeated(h, j as nat, o@[j].0)); }
  plain_alter(o, regular::<S>(k));
  assert forall|w: Seq<S>| #[trigger] fits(m, w) == hfits(k, w) by {
    fits_alter(o, w);
    if fits_altq(o@, w) { let j = choose|j: int| 0 <= j < o@.len() && fits((#[trigger] o@[j]).0, w); assert(repeated(h, j as nat, o@[j].0)); assert(times(j as nat)); assert(hrep(h, j as nat, w)); }
    if hfits(k, w) { let n = choose|n: nat| #[trigger] times(n) && (r.max is Some ==> n <= r.max->0) && hrep(h, n, w); assert(repeated(h, n, o@[n as int].0)); assert(fits(o@[n as int].0, w)); }
  }
}
proof fn one_fits<S, T>(x: S, w: Seq<S>, v: Vec<(S, S)>)
  requires v@ == seq![(x, x)],
  ensures fits(Mir::<S, T>::Ranges(v), w) == (w == seq![x]), plain(Mir::<S, T>::Ranges(v), true),
{
  fits_ranges::<S, T>(v, w);
  assert(v@[0] == (x, x));
  if w.len() == 1 && within(v@, w[0]) { assert(in_one((x, x), w[0])); ord_one(w[0], x); assert(w =~= seq![x]); }
  if w == seq![x] { assert(in_one(v@[0], w[0])); }
}
/// A list of single symbols.
pub open spec fn letters<S, T>(s: Mirs<S, T>, l: Seq<S>) -> bool { s.len() == l.len() && forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]) is Ranges && (s[j]->Ranges_0)@ == seq![(l[j], l[j])] }
proof fn letters_fit<S, T>(s: Mirs<S, T>, l: Seq<S>, w: Seq<S>)
  requires letters(s, l),
  ensures fitsq(s, w) == (w == l),
  decreases s.len(),
{
  if s.len() == 0 { if w.len() == 0 { assert(w =~= l); } } else {
    let n = s.len() - 1; let p = s.drop_last(); let q = l.drop_last();
    assert forall|j: int| 0 <= j < p.len() implies (#[trigger] p[j]) is Ranges && (p[j]->Ranges_0)@ == seq![(q[j], q[j])] by { assert(p[j] == s[j]); }
    assert(s[n] is Ranges);
    let v = s[n]->Ranges_0;
    if fitsq(s, w) {
      let i = choose|i: int| 0 <= i <= w.len() && fitsq(p, #[trigger] w.take(i)) && fits(s.last(), w.skip(i));
      letters_fit(p, q, w.take(i));
      one_fits::<S, T>(l[n], w.skip(i), v);
      assert(w =~= w.take(i) + w.skip(i));
      assert(l =~= q + seq![l[n]]);
    }
    if w == l {
      assert(w.take(n) =~= q); assert(w.skip(n) =~= seq![l[n]]);
      letters_fit(p, q, w.take(n));
      one_fits::<S, T>(l[n], w.skip(n), v);
      assert(fits(s.last(), w.skip(n)));
    }
  }
}
proof fn literal_done<S, T>(l: Literal, o: Vec<Mir<S, T>>)
  requires lit::<S>(l) is Some, letters(o@, lit::<S>(l)->0),
  ensures built(HirKind::Literal(l), Mir::Concat(o)),
{
  let m = Mir::Concat(o); let k = HirKind::Literal(l);
  let a = lit::<S>(l)->0;
  assert forall|j: int| 0 <= j < o@.len() implies plain(#[trigger] o@[j], true) by { one_fits::<S, T>(a[j], a, o@[j]->Ranges_0); }
  if o@.len() > 0 { plain_concat(o, true); } else { plain_concat(o, false); }
  assert forall|w: Seq<S>| #[trigger] fits(m, w) == hfits(k, w) by { fits_concat(o, w); letters_fit(o@, a, w); }
}
proof fn class_done<S, T>(c: Class, o: Vec<(S, S)>)
  requires cls::<S>(c) is Some, o@ == cls::<S>(c)->0, valid_one(o@),
  ensures built(HirKind::Class(c), Mir::<S, T>::Ranges(o)),
{
  let m = Mir::<S, T>::Ranges(o); let k = HirKind::Class(c);
  assert(m->Ranges_0 == o);
  assert forall|w: Seq<S>| #[trigger] fits(m, w) == hfits(k, w) by { fits_ranges::<S, T>(o, w); }
}
//@ item laps_regex/src/mir.rs impl Mir#0
//@ fn new
    requires sane(hir.kind),
    ensures means(hir.kind, r),
    decreases hsize(hir.kind), 2nat,
//@ fn new_from_hir_kind
    requires sane(kind),
    ensures means(kind, r),
    decreases hsize(kind), rank(kind),
//@ entry
    let ghost k = kind;
    proof {
      match k {
        HirKind::Empty => { assert forall|w: Seq<S>| #[trigger] fits(Mir::<S, T>::Empty, w) == hfits(k, w) by { fits_empty::<S, T>(w); } }
        _ => {}
      }
    }
//@ after let p_ = $s_e;
    proof { let r0 = k->Repetition_0; least_done(r0, Repetition { min: 0, max: match r0.max { Some(m) => Some((m - r0.min) as u32), None => None }, greedy: true, sub: r0.sub }, p_->Concat_0); }
//@ after o_.push($f); let m_ = $m;
    let ghost h = *(k->Repetition_0).sub;
    proof { upto_one(h, o_@); }
//@ loop 0
    invariant k == kind, k is Repetition, k->Repetition_0.min == 0, sub == k->Repetition_0.sub, k->Repetition_0.greedy, sane(h.kind), hsize(k) == 1 + hsize(h.kind), h == *(k->Repetition_0).sub, upto(h, i_ as nat + 1, o_@),
//@ loop 1
    invariant k == kind, k is Concat, sane(k), it1.seq() == (k->Concat_0)@, o_@.len() == it1.index(), forall|j: int| 0 <= j < o_@.len() ==> built((k->Concat_0)@[j].kind, #[trigger] o_@[j]),
//@ loopbody 1
    proof { let c0 = k->Concat_0; let j = it1.index(); assert(h_ == c0@[j]); assert(sane(c0[j].kind)); hsizes_at(c0, c0.len() as nat, j); }
//@ loop 2
    invariant k == kind, k is Alternation, sane(k), it2.seq() == (k->Alternation_0)@, o_@.len() == it2.index(), forall|j: int| 0 <= j < o_@.len() ==> built((k->Alternation_0)@[j].kind, (#[trigger] o_@[j]).0) && o_@[j].1 is None,
//@ loopbody 2
    proof { let c0 = k->Alternation_0; let j = it2.index(); assert(hir == c0@[j]); assert(sane(c0[j].kind)); hsizes_at(c0, c0.len() as nat, j); }
//@ after let a_ = $s_e;
    proof { upto_done(k->Repetition_0, a_->Alter_0); }
//@ after let k_ = $s_e;
    proof { kleene_done(k->Repetition_0, k_->Kleene_0); }
//@ after let c_ = $s_e;
    proof { concat_done(k->Concat_0, c_->Concat_0); }
//@ after let l_ = $s_e;
    proof { alter_done(k->Alternation_0, l_->Alter_0); }
//@ fn new_n_repeats
    requires sane(hir.kind),
    ensures match r { Ok(m) => repeated(hir, n as nat, m), Err(e) => refused::<S>(hir.kind, e) },
    decreases hsize(hir.kind), 3nat,
//@ loop 0
    invariant sane(hir.kind), o_@.len() == i_, forall|j: int| 0 <= j < o_@.len() ==> built(hir.kind, #[trigger] o_@[j]),
//@ after let z_ = $s_e;
    proof { repeat_done(hir, z_->Concat_0); }
//@ end
//@ item laps_regex/src/mir.rs impl MirBuilder for Mir#0
//@ fn new_from_literal
//@ entry
    proof { lit_char(l); ord_char(); }
//@ loop 0
    invariant n_ == s_@.len(), lit::<char>(l) == Some(s_@), o_@.len() == i_, forall|j: int| 0 <= j < o_@.len() ==> (#[trigger] o_@[j]) is Ranges && (o_@[j]->Ranges_0)@ == seq![(s_@[j], s_@[j])],
//@ after let z_ = $s_e;
    proof { literal_done(l, z_->Concat_0); }
//@ fn new_from_class
//@ entry
    let ghost c0 = c;
    proof { cls_char(c); ord_char(); }
//@ loop 0
    invariant n_ == v_@.len(), v_@ == b.set@, o_@.len() == i_, forall|j: int| 0 <= j < o_@.len() ==> #[trigger] o_@[j] == (v_@[j].start as char, v_@[j].end as char),
//@ after let z_ = $s_e;
    proof { assert((z_->Ranges_0)@ =~= cls::<char>(c0)->0); assert(valid_one((z_->Ranges_0)@)) by { assert forall|i: int| 0 <= i < n_ implies v_@[i].start <= v_@[i].end by {} } class_done::<char, T>(c0, z_->Ranges_0); }
//@ loop 1
    invariant n_ == y_@.len(), y_@ == u.set@, o_@.len() == i_, forall|j: int| 0 <= j < o_@.len() ==> #[trigger] o_@[j] == (y_@[j].start, y_@[j].end),
//@ after let q_ = $s_e;
    proof { assert((q_->Ranges_0)@ =~= cls::<char>(c0)->0); class_done::<char, T>(c0, q_->Ranges_0); }
//@ end
//@ item laps_regex/src/mir.rs impl MirBuilder for Mir#1
//@ fn new_from_literal
//@ entry
    proof { lit_u8(l); ord_u8(); }
//@ loop 0
    invariant n_ == s_@.len(), lit::<u8>(l) == Some(s_@), o_@.len() == i_, forall|j: int| 0 <= j < o_@.len() ==> (#[trigger] o_@[j]) is Ranges && (o_@[j]->Ranges_0)@ == seq![(s_@[j], s_@[j])],
//@ after let z_ = $s_e;
    proof { literal_done(l, z_->Concat_0); }
//@ fn new_from_class
//@ entry
    let ghost c0 = c;
    proof { cls_u8(c); ord_u8(); }
//@ loop 0
    invariant n_ == v_@.len(), o_@.len() == i_, forall|j: int| 0 <= j < o_@.len() ==> #[trigger] o_@[j] == (v_@[j].start, v_@[j].end),
//@ after let z_ = $s_e;
    proof { assert((z_->Ranges_0)@ =~= cls::<u8>(c0)->0); class_done::<u8, T>(c0, z_->Ranges_0); }
//@ end
