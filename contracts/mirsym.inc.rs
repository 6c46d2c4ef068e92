// ------------------------------------------------------------ the symbol classes of an expression
//@ rewrite references to lists :: Self::endpoints_of(&$e) ==> Self::endpoints_of($e.as_slice())
//@ rewrite references to lists :: Self::endpoints_of(s) ==> Self::endpoints_of(s.as_slice())
//@ rewrite references to lists :: Self::ranges_contains(&rs, $e) ==> Self::ranges_contains(rs.as_slice(), $e)
//@ rewrite search by key to a function with its contract :: ranges.binary_search_by_key(&at, |(l, _)| l) ==> search_(ranges.as_slice(), at)
//@ rewrite search by key to a function with its contract :: ranges.binary_search_by_key(&left, |(l, _)| l) ==> search_(ranges, left)
//@ rewrite extend of a list by the end of another :: right.extend(ranges.drain(i..)) ==> append_(&mut right, drain_(&mut ranges, i))
//@ rewrite end of a list :: ranges.drain(i..).collect() ==> drain_(&mut ranges, i)
//@ rewrite mem::take :: mem::take(&mut ranges) ==> take_(&mut ranges)
//@ rewrite mem::take :: mem::take(rs) ==> take_(rs)
//@ rewrite value in a block, to state a fact about it :: Ok(i) => drain_(&mut ranges, i), ==> Ok(i) => { let c_ = drain_(&mut ranges, i); c_ }
//@ rewrite value in a block, to state a fact about it :: Err(0) => take_(&mut ranges), ==> Err(0) => { let t_ = take_(&mut ranges); t_ }
//@ rewrite guarded arms to if and else :: Self::Ranges(rs) if rs.is_empty() => Err(Error::MatchesNothing), Self::Ranges(rs) => { $s_b } ==> Self::Ranges(rs) => { if rs.len() == 0 { Err(Error::MatchesNothing) } else { $s_b } }
//@ rewrite sorting to a function with its contract :: rs.sort_unstable() ==> sort_(rs)
//@ rewrite comparison to a function with its contract :: if &cr <= lr => ==> if le_(&cr, lr) =>
//@ rewrite comparison to a function with its contract :: cl.prev().as_ref() <= Some(lr) ==> prev_le_(&cl.prev(), lr)
//@ rewrite fold with guarded arms to a loop with if and else :: *rs = new_rs.into_iter().fold(Vec::new(), |mut rs, (cl, cr)| { match rs.last_mut() { Some((_, lr)) if $e => {} Some((_, lr)) if $f => *lr = cr, _ => rs.push((cl, cr))$o_c } rs }); ==> let mut o_: Vec<(S, S)> = Vec::new(); for p_ in new_rs { let (cl, cr) = p_; let n_ = o_.len(); if n_ > 0 && { let lr = &o_[n_ - 1].1; $e } {} else if n_ > 0 && { let lr = &o_[n_ - 1].1; $f } { let q_ = at_mut_(&mut o_, n_ - 1); q_.1 = cr; } else { o_.push((cl, cr)); } } *rs = o_;
//@ rewrite loop over borrowed elements by index :: for e in c { e.normalize_ranges()?; } ==> let n_ = c.len(); for i_ in 0..n_ { c[i_].normalize_ranges()?; }
//@ rewrite loop over borrowed elements by index :: for (e, _) in a { e.normalize_ranges()?; } ==> let n_ = a.len(); for i_ in 0..n_ { a[i_].0.normalize_ranges()?; }
//@ rewrite value in a block, to state a fact about it :: Self::Kleene(k) => k.normalize_ranges() ==> Self::Kleene(k) => { let k_ = k.normalize_ranges(); k_ }
//@ rewrite parameter with mut to a let :: fn split_ranges(mut ranges: Vec<(S, S)>, at: &S) -> SplitRanges<S> { $s_b } ==> fn split_ranges(ranges_: Vec<(S, S)>, at: &S) -> SplitRanges<S> { let mut ranges = ranges_; $s_b }
//@ rewrite index of a list :: ranges.get_mut(i - 1).unwrap() ==> at_mut_(&mut ranges, i - 1)
//@ rewrite comparison to a function with its contract :: if at > r { $s_a } else { $s_b } ==> if lt_(r, at) { let d_ = $s_a; d_ } else { $s_b }
//@ rewrite comparison to a function with its contract :: left <= &ranges.get(i - 1).unwrap().1 ==> le_(left, &ranges[i - 1].1)
//@ rewrite clone to a function with its contract :: r.clone() ==> clone_(r)
//@ rewrite clone to a function with its contract :: at.clone() ==> clone_(at)
//@ rewrite set of one element :: [rs.clone()].into() ==> { let mut s_ = HashSet::new(); s_.insert(clone_(rs)); s_ }
//@ rewrite iterator adapters to a loop :: c.iter().flat_map(|e| e.collect_symbols()).collect() ==> { let mut s_ = HashSet::new(); for i_ in 0..c.len() { s_.extend_(c[i_].collect_symbols()); } s_ }
//@ rewrite iterator adapters to a loop :: a.iter().flat_map(|(e, _)| e.collect_symbols()).collect() ==> { let mut s_ = HashSet::new(); for i_ in 0..a.len() { s_.extend_(a[i_].0.collect_symbols()); } s_ }
#[verifier::external_body]
fn lt_<S>(a: &S, b: &S) -> (r: bool) ensures r == (ord(*a) < ord(*b)) { unimplemented!() }
#[verifier::external_body]
fn le_<S>(a: &S, b: &S) -> (r: bool) ensures r == (ord(*a) <= ord(*b)) { unimplemented!() }
#[verifier::external_body]
fn take_<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
#[verifier::external_body]
fn drain_<T>(v: &mut Vec<T>, i: usize) -> (r: Vec<T>) requires i <= old(v)@.len() ensures final(v)@ == old(v)@.take(i as int), r@ == old(v)@.skip(i as int) { unimplemented!() }
#[verifier::external_body]
fn at_mut_<T>(v: &mut Vec<T>, i: usize) -> (r: &mut T) requires i < old(v)@.len() ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r)) { unimplemented!() }
#[verifier::external_body]
fn search_<S>(v: &[(S, S)], x: &S) -> (r: Result<usize, usize>)
  requires forall|i: int, j: int| 0 <= i < j < v@.len() ==> ord((#[trigger] v@[i]).0) <= ord((#[trigger] v@[j]).0),
  ensures
    r is Ok ==> r->Ok_0 < v@.len() && v@[r->Ok_0 as int].0 == *x,
    r is Err ==> r->Err_0 <= v@.len() && (forall|i: int| 0 <= i < r->Err_0 ==> ord((#[trigger] v@[i]).0) < ord(*x)) && forall|i: int| r->Err_0 <= i < v@.len() ==> ord(*x) < ord((#[trigger] v@[i]).0),
{ unimplemented!() }
#[verifier::external_body]
fn sort_<S>(v: &mut Vec<(S, S)>)
  ensures final(v)@.len() == old(v)@.len(), forall|x: (S, S)| #[trigger] final(v)@.contains(x) == old(v)@.contains(x),
    forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> ord((#[trigger] final(v)@[i]).0) <= ord((#[trigger] final(v)@[j]).0),
{ unimplemented!() }
#[verifier::external_body]
fn prev_le_<S>(a: &Option<S>, b: &S) -> (r: bool) ensures r == (*a is Some ==> ord(a->0) <= ord(*b)) { unimplemented!() }
/// Ranges one after the other.
pub open spec fn sorted<S>(k: Seq<(S, S)>) -> bool {
  &&& k.len() > 0
  &&& forall|i: int| 0 <= i < k.len() ==> ord((#[trigger] k[i]).0) <= ord(k[i].1)
  &&& forall|i: int, j: int| 0 <= i < j < k.len() ==> ord((#[trigger] k[i]).1) < ord((#[trigger] k[j]).0)
}
/// The starts of the ranges, and what follows their ends, are in cs.
#[verifier::opaque]
pub open spec fn cutq<S>(cs: Set<S>, q: Seq<(S, S)>) -> bool { forall|i: int| 0 <= i < q.len() ==> cs.contains((#[trigger] q[i]).0) && forall|x: S| #[trigger] is_next(q[i].1, Some(x)) ==> cs.contains(x) }
#[verifier::opaque]
pub open spec fn split<S>(p: Seq<(S, S)>, at: S, a: Seq<(S, S)>, b: Seq<(S, S)>) -> bool {
  &&& forall|cs: Set<S>| #[trigger] cutq(cs, p) && cs.contains(at) ==> cutq(cs, a) && cutq(cs, b)
  &&& forall|c: S| #[trigger] within(a, c) == (within(p, c) && ord(c) < ord(at))
  &&& forall|c: S| #[trigger] within(b, c) == (within(p, c) && ord(c) >= ord(at))
  &&& (a.len() > 0) == (ord(p[0].0) < ord(at))
  &&& (b.len() > 0) == (ord(p.last().1) >= ord(at))
  &&& a.len() > 0 ==> sorted(a) && a[0].0 == p[0].0 && ord(a.last().1) < ord(at)
  &&& b.len() > 0 ==> sorted(b) && b.last().1 == p.last().1 && ord(at) <= ord(b[0].0)
}
proof fn within_app<S>(a: Seq<(S, S)>, b: Seq<(S, S)>, c: S)
  ensures within(a + b, c) == (within(a, c) || within(b, c)),
{
  let s = a + b;
  if within(s, c) { let i = choose|i: int| 0 <= i < s.len() && in_one(#[trigger] s[i], c); if i < a.len() { assert(in_one(a[i], c)); } else { assert(in_one(b[i - a.len()], c)); } }
  if within(a, c) { let i = choose|i: int| 0 <= i < a.len() && in_one(#[trigger] a[i], c); assert(in_one(s[i], c)); }
  if within(b, c) { let i = choose|i: int| 0 <= i < b.len() && in_one(#[trigger] b[i], c); assert(in_one(s[i + a.len()], c)); }
}
proof fn within_one<S>(r: (S, S), c: S)
  ensures within(seq![r], c) == in_one(r, c),
{ if in_one(r, c) { assert(in_one(seq![r][0], c)); } }
/// Split between ranges.
proof fn split_between<S>(p: Seq<(S, S)>, at: S, i: int)
  requires sorted(p), 0 <= i <= p.len(), forall|j: int| 0 <= j < i ==> ord((#[trigger] p[j]).1) < ord(at), forall|j: int| i <= j < p.len() ==> ord(at) <= ord((#[trigger] p[j]).0),
  ensures split(p, at, p.take(i), p.skip(i)),
{
  reveal(split);
  let a = p.take(i); let b = p.skip(i);
  assert(p =~= a + b);
  assert forall|c: S| #[trigger] within(a, c) == (within(p, c) && ord(c) < ord(at)) by {
    within_app(a, b, c);
    if within(a, c) { let j = choose|j: int| 0 <= j < a.len() && in_one(#[trigger] a[j], c); assert(ord(p[j].1) < ord(at)); }
    if within(b, c) { let j = choose|j: int| 0 <= j < b.len() && in_one(#[trigger] b[j], c); assert(ord(at) <= ord(p[j + i].0)); }
  }
  assert forall|c: S| #[trigger] within(b, c) == (within(p, c) && ord(c) >= ord(at)) by {
    within_app(a, b, c);
    if within(a, c) { let j = choose|j: int| 0 <= j < a.len() && in_one(#[trigger] a[j], c); assert(ord(p[j].1) < ord(at)); }
    if within(b, c) { let j = choose|j: int| 0 <= j < b.len() && in_one(#[trigger] b[j], c); assert(ord(at) <= ord(p[j + i].0)); }
  }
  if i > 0 { assert(ord(p[0].1) < ord(at)); assert(ord(p[0].0) <= ord(p[0].1)); } else { assert(ord(at) <= ord(p[0].0)); }
  let n = p.len() - 1;
  if i <= n { assert(ord(at) <= ord(p[n].0)); assert(ord(p[n].0) <= ord(p[n].1)); } else { assert(ord(p[n].1) < ord(at)); }
  assert forall|cs: Set<S>| #[trigger] cutq(cs, p) && cs.contains(at) implies cutq(cs, a) && cutq(cs, b) by {
    reveal(cutq);
    assert forall|j: int| 0 <= j < b.len() implies cs.contains((#[trigger] b[j]).0) && forall|x: S| #[trigger] is_next(b[j].1, Some(x)) ==> cs.contains(x) by { assert(b[j] == p[j + i]); }
  }
}
/// Split inside of a range.
proof fn split_inside<S>(p: Seq<(S, S)>, at: S, i: int, e: S, a: Seq<(S, S)>, b: Seq<(S, S)>)
  requires
    sorted(p), 0 < i <= p.len(), ord(p[i - 1].0) < ord(at), ord(at) <= ord(p[i - 1].1), is_prev(at, Some(e)),
    a == p.take(i).update(i - 1, (p[i - 1].0, e)), b == seq![(at, p[i - 1].1)] + p.skip(i),
  ensures split(p, at, a, b),
{
  reveal(split);
  let x = p.take(i - 1); let y = p.skip(i); let r = p[i - 1];
  let r1 = (r.0, e); let r2 = (at, r.1);
  assert(ord(r.0) <= ord(e));
  assert(a =~= x + seq![r1]);
  assert(p =~= x + (seq![r] + y));
  assert forall|c: S| (#[trigger] within(x, c)) ==> ord(c) < ord(at) by { if within(x, c) { let j = choose|j: int| 0 <= j < x.len() && in_one(#[trigger] x[j], c); assert(ord(p[j].1) < ord(p[i - 1].0)); } }
  assert forall|c: S| (#[trigger] within(y, c)) ==> ord(c) >= ord(at) by { if within(y, c) { let j = choose|j: int| 0 <= j < y.len() && in_one(#[trigger] y[j], c); assert(ord(p[i - 1].1) < ord(p[j + i].0)); } }
  assert forall|c: S| #[trigger] in_one(r, c) == (in_one(r1, c) || in_one(r2, c)) && (in_one(r1, c) ==> ord(c) < ord(at)) && (in_one(r2, c) ==> ord(c) >= ord(at)) by { assert(!(ord(e) < ord(c) < ord(at))); }
  assert forall|c: S| #[trigger] within(a, c) == (within(p, c) && ord(c) < ord(at)) by {
    within_app(x, seq![r1], c); within_one(r1, c); within_app(x, seq![r] + y, c); within_app(seq![r], y, c); within_one(r, c);
    assert(in_one(r, c) == (in_one(r1, c) || in_one(r2, c)));
  }
  assert forall|c: S| #[trigger] within(b, c) == (within(p, c) && ord(c) >= ord(at)) by {
    within_app(seq![r2], y, c); within_one(r2, c); within_app(x, seq![r] + y, c); within_app(seq![r], y, c); within_one(r, c);
    assert(in_one(r, c) == (in_one(r1, c) || in_one(r2, c)));
  }
  assert(ord(p[0].0) < ord(at)) by { if i > 1 { assert(ord(p[0].1) < ord(p[i - 1].0)); assert(ord(p[0].0) <= ord(p[0].1)); } }
  let n = p.len() - 1;
  assert(ord(at) <= ord(p[n].1)) by { if i - 1 < n { assert(ord(p[i - 1].1) < ord(p[n].0)); assert(ord(p[n].0) <= ord(p[n].1)); } }
  assert(sorted(a)) by {
    assert forall|j: int| 0 <= j < a.len() implies ord((#[trigger] a[j]).0) <= ord(a[j].1) by { if j < i - 1 { assert(ord(p[j].0) <= ord(p[j].1)); } }
    assert forall|j: int, k: int| 0 <= j < k < a.len() implies ord((#[trigger] a[j]).1) < ord((#[trigger] a[k]).0) by { assert(ord(p[j].1) < ord(p[k].0)); }
  }
  assert(sorted(b)) by {
    assert forall|j: int| 0 <= j < b.len() implies ord((#[trigger] b[j]).0) <= ord(b[j].1) by { if j > 0 { assert(b[j] == p[j + i - 1]); assert(ord(p[j + i - 1].0) <= ord(p[j + i - 1].1)); } }
    assert forall|j: int, k: int| 0 <= j < k < b.len() implies ord((#[trigger] b[j]).1) < ord((#[trigger] b[k]).0) by { assert(b[k] == p[k + i - 1]); assert(b[j].1 == p[j + i - 1].1); assert(ord(p[j + i - 1].1) < ord(p[k + i - 1].0)); }
  }
  assert forall|cs: Set<S>| #[trigger] cutq(cs, p) && cs.contains(at) implies cutq(cs, a) && cutq(cs, b) by {
    reveal(cutq);
    assert forall|j: int| 0 <= j < a.len() implies cs.contains((#[trigger] a[j]).0) && forall|x: S| #[trigger] is_next(a[j].1, Some(x)) ==> cs.contains(x) by {
      assert(cs.contains(p[j].0));
      if j == i - 1 { assert forall|x: S| #[trigger] is_next(e, Some(x)) implies cs.contains(x) by { assert(!(ord(e) < ord(at) < ord(x))); assert(!(ord(e) < ord(x) < ord(at))); ord_one(x, at); } }
    }
    assert forall|j: int| 0 <= j < b.len() implies cs.contains((#[trigger] b[j]).0) && forall|x: S| #[trigger] is_next(b[j].1, Some(x)) ==> cs.contains(x) by { assert(b[j].1 == p[j + i - 1].1); assert(cs.contains(p[j + i - 1].0)); if j > 0 { assert(b[j] == p[j + i - 1]); } }
  }
}
pub open spec fn normal<S, T>(m: Mir<S, T>) -> bool { forall|k: Vec<(S, S)>| #[trigger] has_range(m, k) ==> sorted(k@) }
pub open spec fn normalized<S, T>(m: Mir<S, T>, r: Mir<S, T>, x: Result<(), Error>) -> bool {
  match x { Ok(_) => alike(m, r) && normal(r), Err(e) => e is MatchesNothing && hole(m) }
}
proof fn same_within<S>(a: Seq<(S, S)>, b: Seq<(S, S)>)
  requires forall|x: (S, S)| #[trigger] a.contains(x) == b.contains(x),
  ensures forall|c: S| #[trigger] within(a, c) == within(b, c), valid_one(b) ==> valid_one(a),
{
  assert forall|c: S| #[trigger] within(a, c) == within(b, c) by {
    if within(a, c) { let i = choose|i: int| 0 <= i < a.len() && in_one(#[trigger] a[i], c); assert(a.contains(a[i])); assert(b.contains(a[i])); let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i]; assert(in_one(b[j], c)); }
    if within(b, c) { let i = choose|i: int| 0 <= i < b.len() && in_one(#[trigger] b[i], c); assert(b.contains(b[i])); assert(a.contains(b[i])); let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i]; assert(in_one(a[j], c)); }
  }
  assert forall|i: int| 0 <= i < a.len() && valid_one(b) implies ord((#[trigger] a[i]).0) <= ord(a[i].1) by { assert(a.contains(a[i])); assert(b.contains(a[i])); }
}
/// The ranges p, merged to o; what follows starts not before the last of o.
#[verifier::opaque]
pub open spec fn merged<S>(p: Seq<(S, S)>, o: Seq<(S, S)>) -> bool {
  &&& (o.len() > 0) == (p.len() > 0)
  &&& o.len() > 0 ==> sorted(o) && ord(o.last().0) <= ord(p.last().0)
  &&& forall|c: S| #[trigger] within(o, c) == within(p, c)
}
proof fn merged_none<S>()
  ensures merged(Seq::<(S, S)>::empty(), Seq::<(S, S)>::empty()),
{ reveal(merged); }
proof fn merged_push<S>(p: Seq<(S, S)>, o: Seq<(S, S)>, r: (S, S))
  requires merged(p, o), ord(r.0) <= ord(r.1), o.len() > 0 ==> ord(o.last().1) < ord(r.0),
  ensures merged(p.push(r), o.push(r)),
{
  reveal(merged);
  assert forall|c: S| #[trigger] within(o.push(r), c) == within(p.push(r), c) by {
    assert(o.push(r) =~= o + seq![r]); assert(p.push(r) =~= p + seq![r]);
    within_app(o, seq![r], c); within_app(p, seq![r], c);
    assert(within(o, c) == within(p, c));
  }
  let q = o.push(r);
  assert forall|i: int, j: int| 0 <= i < j < q.len() implies ord((#[trigger] q[i]).1) < ord((#[trigger] q[j]).0) by {
    if j < o.len() { assert(ord(o[i].1) < ord(o[j].0)); } else if i < o.len() - 1 { assert(ord(o[i].1) < ord(o[o.len() - 1].0)); assert(ord(o[o.len() - 1].0) <= ord(o[o.len() - 1].1)); }
  }
  assert forall|i: int| 0 <= i < q.len() implies ord((#[trigger] q[i]).0) <= ord(q[i].1) by { if i < o.len() { assert(ord(o[i].0) <= ord(o[i].1)); } }
}
proof fn merged_skip<S>(p: Seq<(S, S)>, o: Seq<(S, S)>, r: (S, S))
  requires merged(p, o), ord(r.0) <= ord(r.1), o.len() > 0, ord(p.last().0) <= ord(r.0), ord(r.1) <= ord(o.last().1),
  ensures merged(p.push(r), o),
{
  reveal(merged);
  assert forall|c: S| #[trigger] within(o, c) == within(p.push(r), c) by {
    assert(p.push(r) =~= p + seq![r]);
    within_app(p, seq![r], c); within_one(r, c);
    if in_one(r, c) { assert(in_one(o[o.len() - 1], c)); }
    assert(within(o, c) == within(p, c) || in_one(r, c));
  }
}
proof fn merged_grow<S>(p: Seq<(S, S)>, o: Seq<(S, S)>, r: (S, S), q: Option<S>)
  requires merged(p, o), ord(r.0) <= ord(r.1), o.len() > 0, ord(p.last().0) <= ord(r.0), ord(r.1) > ord(o.last().1), is_prev(r.0, q), q is Some ==> ord(q->0) <= ord(o.last().1),
  ensures merged(p.push(r), o.update(o.len() - 1, (o.last().0, r.1))),
{
  reveal(merged);
  let l = o.last(); let g = (l.0, r.1);
  let u = o.update(o.len() - 1, g);
  assert(o =~= o.drop_last() + seq![l]); assert(u =~= o.drop_last() + seq![g]); assert(p.push(r) =~= p + seq![r]);
  assert forall|c: S| #[trigger] within(u, c) == within(p.push(r), c) by {
    within_app(p, seq![r], c); within_one(r, c); within_one(l, c); within_one(g, c); within_app(o.drop_last(), seq![l], c); within_app(o.drop_last(), seq![g], c);
    assert(within(o, c) == within(p, c));
    if in_one(g, c) && !in_one(l, c) { if q is Some { assert(!(ord(q->0) < ord(c) < ord(r.0))); } assert(in_one(r, c)); }
  }
  assert forall|i: int, j: int| 0 <= i < j < u.len() implies ord((#[trigger] u[i]).1) < ord((#[trigger] u[j]).0) by { assert(ord(o[i].1) < ord(o[j].0)); }
  assert forall|i: int| 0 <= i < u.len() implies ord((#[trigger] u[i]).0) <= ord(u[i].1) by { assert(ord(o[i].0) <= ord(o[i].1)); }
}
proof fn merged_done<S, T>(a: Vec<(S, S)>, p: Seq<(S, S)>, o: Vec<(S, S)>)
  requires forall|x: (S, S)| #[trigger] p.contains(x) == a@.contains(x), p.len() > 0, merged(p, o@),
  ensures leaf(a@, Mir::<S, T>::Ranges(o)), sorted(o@),
{
  reveal(merged);
  same_within(p, a@);
  let r = Mir::<S, T>::Ranges(o);
  assert forall|w: Seq<S>| #[trigger] fits(r, w) == (w.len() == 1 && within(a@, w[0])) by { fits_ranges::<S, T>(o, w); if w.len() == 1 { assert(within(o@, w[0]) == within(p, w[0])); assert(within(p, w[0]) == within(a@, w[0])); } }
}
proof fn of_concat<S, T>(c: Vec<Mir<S, T>>)
  ensures
    forall|j: int, k: Vec<(S, S)>| 0 <= j < c.len() && has_range(#[trigger] c[j], k) ==> #[trigger] has_range(Mir::Concat(c), k),
    forall|j: int| 0 <= j < c.len() ==> (hole(#[trigger] c[j]) ==> hole(Mir::Concat(c))) && (valid(Mir::Concat(c)) ==> valid(c[j])),
    (forall|j: int| 0 <= j < c.len() ==> normal(#[trigger] c[j])) ==> normal(Mir::Concat(c)),
{
  let m = Mir::Concat(c);
  assert forall|j: int, k: Vec<(S, S)>| 0 <= j < c.len() && has_range(#[trigger] c[j], k) implies #[trigger] has_range(m, k) by { assert(m->Concat_0 == c); }
  assert forall|j: int| 0 <= j < c.len() && valid(m) implies valid(#[trigger] c[j]) by { assert forall|k: Vec<(S, S)>| #[trigger] has_range(c[j], k) implies valid_one(k@) by { assert(has_range(m, k)); } }
  assert forall|j: int| 0 <= j < c.len() && hole(#[trigger] c[j]) implies hole(m) by { let k = choose|k: Vec<(S, S)>| #[trigger] has_range(c[j], k) && k@.len() == 0; assert(has_range(m, k)); }
  if forall|j: int| 0 <= j < c.len() ==> normal(#[trigger] c[j]) {
    assert forall|k: Vec<(S, S)>| #[trigger] has_range(m, k) implies sorted(k@) by { let j = choose|j: int| 0 <= j < c.len() && has_range(#[trigger] c[j], k); assert(normal(c[j])); }
  }
}
proof fn of_alter<S, T>(c: Vec<(Mir<S, T>, Option<T>)>)
  ensures
    forall|j: int, k: Vec<(S, S)>| 0 <= j < c.len() && has_range((#[trigger] c[j]).0, k) ==> #[trigger] has_range(Mir::Alter(c), k),
    forall|j: int| 0 <= j < c.len() ==> (hole((#[trigger] c[j]).0) ==> hole(Mir::Alter(c))) && (valid(Mir::Alter(c)) ==> valid(c[j].0)),
    (forall|j: int| 0 <= j < c.len() ==> normal((#[trigger] c[j]).0)) ==> normal(Mir::Alter(c)),
{
  let m = Mir::Alter(c);
  assert forall|j: int, k: Vec<(S, S)>| 0 <= j < c.len() && has_range((#[trigger] c[j]).0, k) implies #[trigger] has_range(m, k) by { assert(m->Alter_0 == c); }
  assert forall|j: int| 0 <= j < c.len() && valid(m) implies valid((#[trigger] c[j]).0) by { assert forall|k: Vec<(S, S)>| #[trigger] has_range(c[j].0, k) implies valid_one(k@) by { assert(has_range(m, k)); } }
  assert forall|j: int| 0 <= j < c.len() && hole((#[trigger] c[j]).0) implies hole(m) by { let k = choose|k: Vec<(S, S)>| #[trigger] has_range(c[j].0, k) && k@.len() == 0; assert(has_range(m, k)); }
  if forall|j: int| 0 <= j < c.len() ==> normal((#[trigger] c[j]).0) {
    assert forall|k: Vec<(S, S)>| #[trigger] has_range(m, k) implies sorted(k@) by { let j = choose|j: int| 0 <= j < c.len() && has_range((#[trigger] c[j]).0, k); assert(normal(c[j].0)); }
  }
}
//@ item laps_regex/src/mir.rs type SymbolSetTriple
//@ end
//@ item laps_regex/src/mir.rs type SplitRanges
//@ end
//@ item laps_regex/src/mir.rs impl Mir#1
//@ drop optimize symbol_set into_triple rebuild opt_without_rebuild optimize_concat optimize_alter optimize_kleene
//@ fn normalize_ranges
    requires valid(*old(self)),
    ensures normalized(*old(self), *final(self), r),
    decreases *old(self),
//@ entry
    let ghost m = *self;
    proof {
      match m {
        Mir::Ranges(a) => { assert(has_range(m, a)); merged_none::<S>(); }
        Mir::Concat(c) => { of_concat(c); }
        Mir::Alter(a) => { of_alter(a); }
        Mir::Kleene(k) => {
          assert forall|x: Vec<(S, S)>| has_range(*k, x) == #[trigger] has_range(m, x) by {}
          assert(valid(*k)) by { assert forall|x: Vec<(S, S)>| #[trigger] has_range(*k, x) implies valid_one(x@) by { assert(has_range(m, x)); } }
          if hole(*k) { let x = choose|x: Vec<(S, S)>| #[trigger] has_range(*k, x) && x@.len() == 0; assert(has_range(m, x)); }
        }
        Mir::Empty => {}
      }
    }
//@ after let new_rs = $s_e;
    let ghost new_rs_ = new_rs@;
    proof { same_within(new_rs@, (m->Ranges_0)@); assert(new_rs_.take(0) =~= Seq::<(S, S)>::empty()); merged_none::<S>(); }
//@ loop 0
    invariant new_rs_.len() > 0, merged(new_rs_.take(it0.index()), o_@), (o_@.len() > 0) == (it0.index() > 0), valid_one(new_rs_), it0.seq() == new_rs_,
      forall|i: int, j: int| 0 <= i < j < new_rs_.len() ==> ord((#[trigger] new_rs_[i]).0) <= ord((#[trigger] new_rs_[j]).0),
//@ loopbody 0
    let ghost o0 = o_@; let ghost p0 = new_rs_.take(it0.index()); let ghost r0 = p_;
    proof { assert(new_rs_.take(it0.index() + 1) =~= p0.push(r0)); if p0.len() > 0 { assert(p0.last() == new_rs_[it0.index() - 1]); } }
//@ loopend 0
    proof {
      if o_@.len() > o0.len() {
        merged_push(p0, o0, r0);
      } else if ord(r0.1) <= ord(o0.last().1) {
        merged_skip(p0, o0, r0);
      } else {
        let q = choose|q: Option<S>| #[trigger] is_prev(r0.0, q) && (q is Some ==> ord(q->0) <= ord(o0.last().1));
        merged_grow(p0, o0, r0, q);
      }
    }
//@ after *rs = o_;
    proof { assert(new_rs_.take(new_rs_.len() as int) =~= new_rs_); merged_done::<S, T>(m->Ranges_0, new_rs_, *rs); }
//@ loop 1
    invariant
      m is Concat, n_ == c@.len(), c@.len() == (m->Concat_0)@.len(), *old(self) == m,
      forall|j: int| 0 <= j < (m->Concat_0)@.len() ==> valid(#[trigger] (m->Concat_0)@[j]) && (hole((m->Concat_0)@[j]) ==> hole(m)),
      forall|j: int| 0 <= j < i_ ==> alike((m->Concat_0)@[j], #[trigger] c@[j]) && normal(c@[j]),
      forall|j: int| i_ <= j < c@.len() ==> #[trigger] c@[j] == (m->Concat_0)@[j],
//@ after for i_ in 0..n_ { c[i_].normalize_ranges()?; }
    proof { of_concat(*c); assert(alike(m, Mir::Concat(*c))); }
//@ loop 2
    invariant
      m is Alter, n_ == a@.len(), a@.len() == (m->Alter_0)@.len(), *old(self) == m,
      forall|j: int| 0 <= j < (m->Alter_0)@.len() ==> valid((#[trigger] (m->Alter_0)@[j]).0) && (hole((m->Alter_0)@[j].0) ==> hole(m)),
      forall|j: int| 0 <= j < i_ ==> alike((m->Alter_0)@[j].0, (#[trigger] a@[j]).0) && normal(a@[j].0) && a@[j].1 == (m->Alter_0)@[j].1,
      forall|j: int| i_ <= j < a@.len() ==> #[trigger] a@[j] == (m->Alter_0)@[j],
//@ after for i_ in 0..n_ { a[i_].0.normalize_ranges()?; }
    proof { of_alter(*a); assert(alike(m, Mir::Alter(*a))); }
//@ after let k_ = $s_e;
    proof {
      if k_ is Ok {
        let x = Mir::<S, T>::Kleene(*k);
        assert(alike(m, x));
        assert(normal(x)) by { assert forall|y: Vec<(S, S)>| #[trigger] has_range(x, y) implies sorted(y@) by { assert(has_range(**k, y)); } }
      }
    }
//@ fn endpoints_of
    requires ranges@.len() > 0,
    ensures *r.0 == ranges@[0].0, *r.1 == ranges@.last().1,
//@ fn split_ranges
    requires sorted(ranges_@),
    ensures split(ranges_@, *at, r.0@, r.1@),
//@ entry
    let ghost p = ranges_@;
    proof { assert forall|i: int, j: int| 0 <= i < j < p.len() implies ord((#[trigger] p[i]).0) <= ord((#[trigger] p[j]).0) by { assert(ord(p[i].1) < ord(p[j].0)); assert(ord(p[i].0) <= ord(p[i].1)); } }
//@ after let c_ = $s_e;
    proof { split_between(p, *at, i as int); }
//@ after let t_ = $s_e;
    proof { assert(p.take(0) =~= ranges@ && p.skip(0) =~= p); split_between(p, *at, 0); }
//@ after let d_ = $s_e;
    proof {
      assert(p.update(i - 1, p[i - 1]) =~= p);
      split_between(p, *at, i as int);
    }
//@ after append_(&mut right, drain_(&mut ranges, i));
    proof {
      let e = ranges@[i - 1].1;
      assert(ranges@ =~= p.take(i as int).update(i - 1, (p[i - 1].0, e)));
      assert(right@ =~= seq![(*at, p[i - 1].1)] + p.skip(i as int));
      split_inside(p, *at, i as int, e, ranges@, right@);
    }
//@ fn ranges_contains
    requires sorted(ranges@),
    ensures r == within(ranges@, *left),
//@ entry
    let ghost p = ranges@;
    proof {
      assert forall|i: int, j: int| 0 <= i < j < p.len() implies ord((#[trigger] p[i]).0) <= ord((#[trigger] p[j]).0) by { assert(ord(p[i].1) < ord(p[j].0)); assert(ord(p[i].0) <= ord(p[i].1)); }
      assert forall|i: int| 0 <= i < p.len() && ord((#[trigger] p[i]).0) == ord(*left) implies within(p, *left) by { assert(in_one(p[i], *left)); }
      assert forall|i: int| 0 < i <= p.len() && ord((#[trigger] p[i - 1]).0) < ord(*left) && (forall|j: int| i <= j < p.len() ==> ord(*left) < ord((#[trigger] p[j]).0)) implies within(p, *left) == (ord(*left) <= ord(p[i - 1].1)) by {
        if ord(*left) <= ord(p[i - 1].1) { assert(in_one(p[i - 1], *left)); }
        if within(p, *left) { let j = choose|j: int| 0 <= j < p.len() && in_one(#[trigger] p[j], *left); if j < i - 1 { assert(ord(p[j].1) < ord(p[i - 1].0)); } }
      }
    }
//@ fn collect_symbols
    ensures forall|k: Vec<(S, S)>| #[trigger] r@.contains(k) == has_range(*self, k),
    decreases *self,
//@ loop 0
    invariant *self is Concat, *c == self->Concat_0, forall|k: Vec<(S, S)>| #[trigger] s_@.contains(k) == exists|j: int| 0 <= j < i_ && has_range(#[trigger] c[j], k),
//@ loop 1
    invariant *self is Alter, *a == self->Alter_0, forall|k: Vec<(S, S)>| #[trigger] s_@.contains(k) == exists|j: int| 0 <= j < i_ && has_range((#[trigger] a[j]).0, k),
//@ end
