// ------------------------------------------------------------ lists of expressions
/// Tags only where nothing follows, and none inside of another.
pub open spec fn placed<S, T>(m: Mir<S, T>) -> bool decreases m {
  match m {
    Mir::Concat(c) => (forall|j: int| 0 <= j < c.len() ==> placed(#[trigger] c[j])) && forall|j: int| 0 <= j < c.len() - 1 ==> untagged(#[trigger] c[j]),
    Mir::Alter(a) => forall|j: int| 0 <= j < a.len() ==> placed((#[trigger] a[j]).0) && (a[j].1 is Some ==> untagged(a[j].0)),
    Mir::Kleene(k) => placed(*k) && untagged(*k),
    _ => true,
  }
}
/// No empty lists.
pub open spec fn full<S, T>(m: Mir<S, T>) -> bool decreases m {
  match m {
    Mir::Concat(c) => c.len() > 0 && forall|j: int| 0 <= j < c.len() ==> full(#[trigger] c[j]),
    Mir::Alter(a) => a.len() > 0 && forall|j: int| 0 <= j < a.len() ==> full((#[trigger] a[j]).0),
    Mir::Kleene(k) => full(*k),
    _ => true,
  }
}
pub proof fn tails_is<S, T>(m: Mir<S, T>)
  ensures tails(m) == (placed(m) && full(m)),
  decreases m,
{
  match m {
    Mir::Concat(c) => { assert forall|j: int| 0 <= j < c.len() implies tails(#[trigger] c[j]) == (placed(c[j]) && full(c[j])) by { tails_is(c[j]); } }
    Mir::Alter(a) => { assert forall|j: int| 0 <= j < a.len() implies tails((#[trigger] a[j]).0) == (placed(a[j].0) && full(a[j].0)) by { tails_is(a[j].0); } }
    Mir::Kleene(k) => { tails_is(*k); }
    _ => {}
  }
}
pub proof fn untagged_placed<S, T>(m: Mir<S, T>)
  requires untagged(m),
  ensures placed(m),
  decreases m,
{
  match m {
    Mir::Concat(c) => { assert forall|j: int| 0 <= j < c.len() implies placed(#[trigger] c[j]) by { untagged_placed(c[j]); } }
    Mir::Alter(a) => { assert forall|j: int| 0 <= j < a.len() implies placed((#[trigger] a[j]).0) && (a[j].1 is Some ==> untagged(a[j].0)) by { untagged_placed(a[j].0); } }
    Mir::Kleene(k) => { untagged_placed(*k); }
    _ => {}
  }
}
pub proof fn untagged_silent<S, T>(m: Mir<S, T>, u: Keys<S>, t: T)
  requires untagged(m),
  ensures !says(m, u, t),
  decreases m,
{
  match m {
    Mir::Concat(c) => {
      if says(m, u, t) {
        let i = choose|i: int| 0 <= i <= u.len() && cat(c, (c.len() - 1) as nat, #[trigger] u.take(i)) && says(c[c.len() - 1], u.skip(i), t);
        untagged_silent(c[c.len() - 1], u.skip(i), t);
      }
    }
    Mir::Alter(a) => {
      if says(m, u, t) {
        let j = choose|j: int| 0 <= j < a.len() && ((#[trigger] a[j]).1 == Some(t) && ends(a[j].0, u) || says(a[j].0, u, t));
        untagged_silent(a[j].0, u, t);
      }
    }
    _ => {}
  }
}
pub type Mirs<S, T> = Seq<Mir<S, T>>;
pub type Alts<S, T> = Seq<(Mir<S, T>, Option<T>)>;
/// One expression after the other.
pub open spec fn catq<S, T>(s: Mirs<S, T>, u: Keys<S>) -> bool decreases s.len() {
  if s.len() == 0 { u.len() == 0 } else { exists|i: int| 0 <= i <= u.len() && catq(s.drop_last(), #[trigger] u.take(i)) && ends(s.last(), u.skip(i)) }
}
pub open spec fn cat_saysq<S, T>(s: Mirs<S, T>, u: Keys<S>, t: T) -> bool { s.len() > 0 && exists|i: int| 0 <= i <= u.len() && catq(s.drop_last(), #[trigger] u.take(i)) && says(s.last(), u.skip(i), t) }
pub proof fn cat_is<S, T>(c: Vec<Mir<S, T>>, n: nat, u: Keys<S>)
  requires n <= c.len(),
  ensures cat(c, n, u) == catq(c@.take(n as int), u),
  decreases n,
{
  if n > 0 {
    let s = c@.take(n as int);
    assert(s.drop_last() =~= c@.take(n - 1));
    assert(s.last() == c[n - 1]);
    assert forall|i: int| 0 <= i <= u.len() implies cat(c, (n - 1) as nat, #[trigger] u.take(i)) == catq(s.drop_last(), u.take(i)) by { cat_is(c, (n - 1) as nat, u.take(i)); }
    if cat(c, n, u) { let i = choose|i: int| 0 <= i <= u.len() && cat(c, (n - 1) as nat, #[trigger] u.take(i)) && ends(c[n - 1], u.skip(i)); assert(catq(s.drop_last(), u.take(i))); }
    if catq(s, u) { let i = choose|i: int| 0 <= i <= u.len() && catq(s.drop_last(), #[trigger] u.take(i)) && ends(s.last(), u.skip(i)); assert(cat(c, (n - 1) as nat, u.take(i))); }
  }
}
pub proof fn concat_is<S, T>(c: Vec<Mir<S, T>>, u: Keys<S>)
  ensures ends(Mir::Concat(c), u) == catq(c@, u), forall|t: T| #[trigger] says(Mir::Concat(c), u, t) == cat_saysq(c@, u, t),
{
  assert(c@.take(c.len() as int) =~= c@);
  cat_is(c, c.len() as nat, u);
  assert forall|t: T| #[trigger] says(Mir::Concat(c), u, t) == cat_saysq(c@, u, t) by {
    if c.len() > 0 {
      let n = (c.len() - 1) as nat;
      assert(c@.take(n as int) =~= c@.drop_last());
      assert forall|i: int| 0 <= i <= u.len() implies cat(c, n, #[trigger] u.take(i)) == catq(c@.drop_last(), u.take(i)) by { cat_is(c, n, u.take(i)); }
      if says(Mir::Concat(c), u, t) { let i = choose|i: int| 0 <= i <= u.len() && cat(c, n, #[trigger] u.take(i)) && says(c[n as int], u.skip(i), t); assert(catq(c@.drop_last(), u.take(i))); }
      if cat_saysq(c@, u, t) { let i = choose|i: int| 0 <= i <= u.len() && catq(c@.drop_last(), #[trigger] u.take(i)) && says(c@.last(), u.skip(i), t); assert(cat(c, n, u.take(i))); }
    }
  }
}
pub proof fn catq_app<S, T>(a: Mirs<S, T>, b: Mirs<S, T>, u: Keys<S>)
  ensures catq(a + b, u) == exists|i: int| 0 <= i <= u.len() && catq(a, #[trigger] u.take(i)) && catq(b, u.skip(i)),
  decreases b.len(),
{
  if b.len() == 0 {
    assert(a + b =~= a);
    let n = u.len() as int;
    assert(u.take(n) =~= u);
    if catq(a, u) { assert(catq(a, u.take(n)) && catq(b, u.skip(n))); }
    if exists|i: int| 0 <= i <= u.len() && catq(a, #[trigger] u.take(i)) && catq(b, u.skip(i)) { let i = choose|i: int| 0 <= i <= u.len() && catq(a, #[trigger] u.take(i)) && catq(b, u.skip(i)); assert(i == n); }
  } else {
    let b1 = b.drop_last();
    assert((a + b).drop_last() =~= a + b1);
    assert((a + b).last() == b.last());
    if catq(a + b, u) {
      let k = choose|k: int| 0 <= k <= u.len() && catq(a + b1, #[trigger] u.take(k)) && ends(b.last(), u.skip(k));
      catq_app(a, b1, u.take(k));
      let i = choose|i: int| 0 <= i <= k && catq(a, #[trigger] u.take(k).take(i)) && catq(b1, u.take(k).skip(i));
      assert(u.take(k).take(i) =~= u.take(i));
      assert(u.take(k).skip(i) =~= u.skip(i).take(k - i));
      assert(u.skip(i).skip(k - i) =~= u.skip(k));
      assert(catq(b, u.skip(i)));
    }
    if exists|i: int| 0 <= i <= u.len() && catq(a, #[trigger] u.take(i)) && catq(b, u.skip(i)) {
      let i = choose|i: int| 0 <= i <= u.len() && catq(a, #[trigger] u.take(i)) && catq(b, u.skip(i));
      let v = u.skip(i);
      let k = choose|k: int| 0 <= k <= v.len() && catq(b1, #[trigger] v.take(k)) && ends(b.last(), v.skip(k));
      let w = u.take(i + k);
      assert(w.take(i) =~= u.take(i));
      assert(w.skip(i) =~= v.take(k));
      assert(v.skip(k) =~= u.skip(i + k));
      catq_app(a, b1, w);
      assert(catq(a + b1, u.take(i + k)));
    }
  }
}
pub proof fn catq_one<S, T>(e: Mir<S, T>, u: Keys<S>)
  ensures catq(seq![e], u) == ends(e, u), forall|t: T| #[trigger] cat_saysq(seq![e], u, t) == says(e, u, t),
{
  let s = seq![e];
  assert(s.drop_last() =~= Seq::<Mir<S, T>>::empty());
  assert(u.take(0) =~= Seq::<Vec<(S, S)>>::empty());
  assert(u.skip(0) =~= u);
  assert(catq(s.drop_last(), u.take(0)));
  if catq(s, u) { let i = choose|i: int| 0 <= i <= u.len() && catq(s.drop_last(), #[trigger] u.take(i)) && ends(s.last(), u.skip(i)); assert(i == 0); }
}
/// Tags of a list come from its second half.
pub proof fn says_app<S, T>(a: Mirs<S, T>, b: Mirs<S, T>, u: Keys<S>, t: T)
  requires b.len() > 0,
  ensures cat_saysq(a + b, u, t) == exists|i: int| 0 <= i <= u.len() && catq(a, #[trigger] u.take(i)) && cat_saysq(b, u.skip(i), t),
{
  let b1 = b.drop_last();
  assert((a + b).drop_last() =~= a + b1);
  assert((a + b).last() == b.last());
  if cat_saysq(a + b, u, t) {
    let k = choose|k: int| 0 <= k <= u.len() && catq(a + b1, #[trigger] u.take(k)) && says(b.last(), u.skip(k), t);
    catq_app(a, b1, u.take(k));
    let i = choose|i: int| 0 <= i <= k && catq(a, #[trigger] u.take(k).take(i)) && catq(b1, u.take(k).skip(i));
    assert(u.take(k).take(i) =~= u.take(i));
    assert(u.take(k).skip(i) =~= u.skip(i).take(k - i));
    assert(u.skip(i).skip(k - i) =~= u.skip(k));
    assert(cat_saysq(b, u.skip(i), t));
  }
  if exists|i: int| 0 <= i <= u.len() && catq(a, #[trigger] u.take(i)) && cat_saysq(b, u.skip(i), t) {
    let i = choose|i: int| 0 <= i <= u.len() && catq(a, #[trigger] u.take(i)) && cat_saysq(b, u.skip(i), t);
    let v = u.skip(i);
    let k = choose|k: int| 0 <= k <= v.len() && catq(b1, #[trigger] v.take(k)) && says(b.last(), v.skip(k), t);
    let w = u.take(i + k);
    assert(w.take(i) =~= u.take(i));
    assert(w.skip(i) =~= v.take(k));
    assert(v.skip(k) =~= u.skip(i + k));
    catq_app(a, b1, w);
    assert(catq(a + b1, u.take(i + k)));
  }
}
/// One of several expressions.
pub open spec fn altq<S, T>(a: Alts<S, T>, u: Keys<S>) -> bool { exists|j: int| 0 <= j < a.len() && ends((#[trigger] a[j]).0, u) }
pub open spec fn alt_saysq<S, T>(a: Alts<S, T>, u: Keys<S>, t: T) -> bool { exists|j: int| 0 <= j < a.len() && ((#[trigger] a[j]).1 == Some(t) && ends(a[j].0, u) || says(a[j].0, u, t)) }
pub proof fn alter_is<S, T>(a: Vec<(Mir<S, T>, Option<T>)>, u: Keys<S>)
  ensures ends(Mir::Alter(a), u) == altq(a@, u), forall|t: T| #[trigger] says(Mir::Alter(a), u, t) == alt_saysq(a@, u, t),
{
  let m = Mir::Alter(a);
  let b = m->Alter_0;
  if ends(m, u) { let j = choose|j: int| 0 <= j < a.len() && ends((#[trigger] a[j]).0, u); assert(ends(a@[j].0, u)); }
  if altq(a@, u) { let j = choose|j: int| 0 <= j < a@.len() && ends((#[trigger] a@[j]).0, u); assert(ends(b[j].0, u)); }
  assert forall|t: T| #[trigger] says(m, u, t) == alt_saysq(a@, u, t) by {
    if says(m, u, t) { let j = choose|j: int| 0 <= j < a.len() && ((#[trigger] a[j]).1 == Some(t) && ends(a[j].0, u) || says(a[j].0, u, t)); assert(a@[j] == a[j]); }
    if alt_saysq(a@, u, t) { let j = choose|j: int| 0 <= j < a@.len() && ((#[trigger] a@[j]).1 == Some(t) && ends(a@[j].0, u) || says(a@[j].0, u, t)); assert(b[j] == a@[j]); }
  }
}
// ------------------------------------------------------------ how large an expression is
pub open spec fn size<S, T>(m: Mir<S, T>) -> nat decreases m, 0nat {
  match m {
    Mir::Concat(c) => 1 + cat_size(c, c.len() as nat),
    Mir::Alter(a) => 1 + alt_size(a, a.len() as nat),
    Mir::Kleene(k) => 1 + size(*k),
    _ => 1,
  }
}
pub open spec fn cat_size<S, T>(c: Vec<Mir<S, T>>, n: nat) -> nat decreases c, n { if n == 0 || n > c.len() { 0 } else { cat_size(c, (n - 1) as nat) + size(c[n - 1]) } }
pub open spec fn alt_size<S, T>(a: Vec<(Mir<S, T>, Option<T>)>, n: nat) -> nat decreases a, n { if n == 0 || n > a.len() { 0 } else { alt_size(a, (n - 1) as nat) + size(a[n - 1].0) } }
pub open spec fn sizeq<S, T>(s: Mirs<S, T>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { sizeq(s.drop_last()) + size(s.last()) } }
pub open spec fn asizeq<S, T>(a: Alts<S, T>) -> nat decreases a.len() { if a.len() == 0 { 0 } else { asizeq(a.drop_last()) + size(a.last().0) } }
pub proof fn cat_size_is<S, T>(c: Vec<Mir<S, T>>, n: nat)
  requires n <= c.len(),
  ensures cat_size(c, n) == sizeq(c@.take(n as int)),
  decreases n,
{
  if n > 0 { cat_size_is(c, (n - 1) as nat); assert(c@.take(n as int).drop_last() =~= c@.take(n - 1)); }
}
pub proof fn alt_size_is<S, T>(a: Vec<(Mir<S, T>, Option<T>)>, n: nat)
  requires n <= a.len(),
  ensures alt_size(a, n) == asizeq(a@.take(n as int)),
  decreases n,
{
  if n > 0 { alt_size_is(a, (n - 1) as nat); assert(a@.take(n as int).drop_last() =~= a@.take(n - 1)); }
}
pub proof fn concat_size<S, T>(c: Vec<Mir<S, T>>)
  ensures size(Mir::Concat(c)) == 1 + sizeq(c@),
{ cat_size_is(c, c.len() as nat); assert(c@.take(c.len() as int) =~= c@); }
pub proof fn alter_size<S, T>(a: Vec<(Mir<S, T>, Option<T>)>)
  ensures size(Mir::Alter(a)) == 1 + asizeq(a@),
{ alt_size_is(a, a.len() as nat); assert(a@.take(a.len() as int) =~= a@); }
pub proof fn sizeq_app<S, T>(a: Mirs<S, T>, b: Mirs<S, T>)
  ensures sizeq(a + b) == sizeq(a) + sizeq(b),
  decreases b.len(),
{
  if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); sizeq_app(a, b.drop_last()); }
}
pub proof fn asizeq_app<S, T>(a: Alts<S, T>, b: Alts<S, T>)
  ensures asizeq(a + b) == asizeq(a) + asizeq(b),
  decreases b.len(),
{
  if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); asizeq_app(a, b.drop_last()); }
}
pub proof fn sizeq_at<S, T>(s: Mirs<S, T>, j: int)
  requires 0 <= j < s.len(),
  ensures size(s[j]) <= sizeq(s),
  decreases s.len(),
{
  if j < s.len() - 1 { assert(s.drop_last()[j] == s[j]); sizeq_at(s.drop_last(), j); }
}
pub proof fn asizeq_at<S, T>(a: Alts<S, T>, j: int)
  requires 0 <= j < a.len(),
  ensures size(a[j].0) <= asizeq(a),
  decreases a.len(),
{
  if j < a.len() - 1 { assert(a.drop_last()[j] == a[j]); asizeq_at(a.drop_last(), j); }
}
