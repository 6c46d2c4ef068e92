/// What skipping or collecting until a symbol satisfies p answers and leaves.
pub open spec fn until<C>(f: spec_fn(C) -> bool, a: Is<C>, p: spec_fn(C) -> bool, r: Result<Seq<C>>, b: Is<C>) -> bool {
  exists|k: nat| #[trigger] upto(a.rest, p, k) && match r {
    Ok(v) => v == a.rest.take(k as int) && b == after(f, a, k) && if k < a.rest.len() { p(a.rest[k as int]) } else { !a.bad },
    Err(_) => failed(after(f, a, k), b),
  }
}
pub open spec fn skipped<C>(f: spec_fn(C) -> bool, a: Is<C>, p: spec_fn(C) -> bool, r: Result<()>, b: Is<C>) -> bool {
  exists|k: nat| #[trigger] upto(a.rest, p, k) && match r {
    Ok(_) => b == after(f, a, k) && if k < a.rest.len() { p(a.rest[k as int]) } else { !a.bad },
    Err(_) => failed(after(f, a, k), b),
  }
}
/// None of the first k symbols satisfies p.
pub open spec fn upto<C>(s: Seq<C>, p: spec_fn(C) -> bool, k: nat) -> bool { k <= s.len() && forall|i: int| 0 <= i < k ==> !p(#[trigger] s[i]) }
/// From the first collected symbol to the last; of the symbol not taken when there is none.
pub open spec fn covers<C>(f: spec_fn(C) -> bool, a: Is<C>, n: nat, sp: Span) -> bool {
  if n == 0 { sp == next_sp(f, a) }
  else { sp == Span { status: a.here.status, start: loc_at(f, a.rest, a.here.start, 1), end: loc_at(f, a.rest, a.here.start, n) } }
}
pub open spec fn val_fn<C, F: Fn(C) -> bool>(f: F) -> bool {
  (forall|c: C| f.requires((c,))) && (forall|c: C, a: bool, b: bool| f.ensures((c,), a) && f.ensures((c,), b) ==> a == b)
}
pub open spec fn val_pred<C, F: Fn(C) -> bool>(f: F) -> spec_fn(C) -> bool { |c: C| f.ensures((c,), true) }
pub open spec fn ref_fn<C, F: Fn(&C) -> bool>(f: F) -> bool {
  (forall|c: &C| f.requires((c,))) && (forall|c: &C, a: bool, b: bool| f.ensures((c,), a) && f.ensures((c,), b) ==> a == b)
}
pub open spec fn ref_pred<C, F: Fn(&C) -> bool>(f: F) -> spec_fn(C) -> bool { |c: C| f.ensures((&c,), true) }

//@ item src/input.rs trait InputStream props=C12
//@ ghost
  spec fn st(&self) -> Is<Self::CharType>;
  /// Which symbols are line feeds.
  spec fn feeds() -> spec_fn(Self::CharType) -> bool;
  spec fn inv(&self) -> bool;
//@ fn next_char_loc
    requires old(self).inv(), sane(Self::feeds(), old(self).st()),
    ensures final(self).inv(), read_one(Self::feeds(), old(self).st(), r, final(self).st()),
//@ fn unread
    requires old(self).inv(),
    ensures final(self).inv(), final(self).st() == put_back(old(self).st(), last),
//@ fn span
    requires self.inv(),
    ensures *r == self.st().here,
//@ fn set_line_col
    requires old(self).inv(),
    ensures final(self).inv(), final(self).st() == (Is { here: spot(old(self).st().here, Location { line, col }), ..old(self).st() }),
//@ fn next_char
    requires old(self).inv(), sane(Self::feeds(), old(self).st()),
    ensures final(self).inv(), read_one(Self::feeds(), old(self).st(), match r { Ok(c) => Ok((c, old(self).st().here.start)), Err(e) => Err(e) }, final(self).st()),
//@ fn next_char_span
    requires old(self).inv(), sane(Self::feeds(), old(self).st()),
    ensures
      final(self).inv(),
      read_one(Self::feeds(), old(self).st(), match r { Ok((c, _)) => Ok((c, old(self).st().here.start)), Err(e) => Err(e) }, final(self).st()),
      r is Ok ==> r->Ok_0.1 == next_sp(Self::feeds(), old(self).st()),
//@ entry
    proof { loc_one(Self::feeds(), self.st().rest, self.st().here.start); }
//@ fn next_span
    requires old(self).inv(), sane(Self::feeds(), old(self).st()),
    ensures
      final(self).inv(),
      r is Ok ==> *r->Ok_0 == next_sp(Self::feeds(), old(self).st()),
      match r { Ok(_) => final(self).st() == (if old(self).st().rest.len() > 0 { after(Self::feeds(), old(self).st(), 1) } else { old(self).st() }) && (old(self).st().rest.len() > 0 || !old(self).st().bad), Err(_) => failed(old(self).st(), final(self).st()) },
//@ entry
    proof { loc_one(Self::feeds(), self.st().rest, self.st().here.start); }
//@ fn peek
    requires old(self).inv(), sane(Self::feeds(), old(self).st()), clone_ok::<Self::CharType>(),
    ensures final(self).inv(), peeked(old(self).st(), r, final(self).st()),
//@ fn peek_with_span
    requires old(self).inv(), sane(Self::feeds(), old(self).st()), clone_ok::<Self::CharType>(),
    ensures
      final(self).inv(),
      peeked(old(self).st(), match r { Ok((c, _)) => Ok(c), Err(e) => Err(e) }, final(self).st()),
      r is Ok ==> r->Ok_0.1 == next_sp(Self::feeds(), old(self).st()),
//@ entry
    proof { loc_one(Self::feeds(), self.st().rest, self.st().here.start); }
//@ fn skip_until props=C13
    requires old(self).inv(), sane(Self::feeds(), old(self).st()), clone_ok::<Self::CharType>(), val_fn::<Self::CharType, F>(f),
    ensures
      final(self).inv(),
      skipped(Self::feeds(), old(self).st(), val_pred::<Self::CharType, F>(f), r, final(self).st()),
//@ entry
    let ghost mut k: nat = 0;
    let ghost a = self.st();
    proof { loc_one(Self::feeds(), a.rest, a.here.start); }
//@ loop 0
    invariant
      val_fn::<Self::CharType, F>(f), clone_ok::<Self::CharType>(),
      self.inv(), sane(Self::feeds(), a), a == old(self).st(),
      upto(a.rest, val_pred::<Self::CharType, F>(f), k),
      self.st() == after(Self::feeds(), a, k),
    decreases a.rest.len() - k,
//@ loopend 0
      proof { k = k + 1; }
//@ fn collect_until props=C13
    requires old(self).inv(), sane(Self::feeds(), old(self).st()), clone_ok::<Self::CharType>(), ref_fn::<Self::CharType, F>(f),
    ensures
      final(self).inv(),
      until(Self::feeds(), old(self).st(), ref_pred::<Self::CharType, F>(f), match r { Ok(v) => Ok(v@), Err(e) => Err(e) }, final(self).st()),
//@ entry
    let ghost mut k: nat = 0;
    let ghost a = self.st();
    proof { loc_one(Self::feeds(), a.rest, a.here.start); assert(upto(a.rest, ref_pred::<Self::CharType, F>(f), 0)); assert(a.rest.take(0) =~= Seq::empty()); }
//@ loop 0
    invariant
      ref_fn::<Self::CharType, F>(f), clone_ok::<Self::CharType>(),
      self.inv(), sane(Self::feeds(), a), a == old(self).st(),
      upto(a.rest, ref_pred::<Self::CharType, F>(f), k),
      self.st() == after(Self::feeds(), a, k),
      $let0@ == a.rest.take(k as int),
    ensures
      if k < a.rest.len() { ref_pred::<Self::CharType, F>(f)(a.rest[k as int]) } else { !a.bad },
    decreases a.rest.len() - k,
//@ loopend 0
      proof { k = k + 1; }
//@ fn collect_with_span_until props=C13
    requires old(self).inv(), sane(Self::feeds(), old(self).st()), clone_ok::<Self::CharType>(), ref_fn::<Self::CharType, F>(f),
    ensures
      final(self).inv(),
      until(Self::feeds(), old(self).st(), ref_pred::<Self::CharType, F>(f), match r { Ok((v, _)) => Ok(v@), Err(e) => Err(e) }, final(self).st()),
      r is Ok ==> covers(Self::feeds(), old(self).st(), r->Ok_0.0@.len(), r->Ok_0.1),
//@ entry
    let ghost mut k: nat = 0;
    let ghost a = self.st();
    proof { loc_one(Self::feeds(), a.rest, a.here.start); assert(upto(a.rest, ref_pred::<Self::CharType, F>(f), 0)); assert(a.rest.take(0) =~= Seq::empty()); }
//@ loop 0
    invariant
      ref_fn::<Self::CharType, F>(f), clone_ok::<Self::CharType>(),
      self.inv(), sane(Self::feeds(), a), a == old(self).st(),
      upto(a.rest, ref_pred::<Self::CharType, F>(f), k),
      self.st() == after(Self::feeds(), a, k),
      $let0@ == a.rest.take(k as int),
      covers(Self::feeds(), a, k, $let1),
    ensures
      if k < a.rest.len() { ref_pred::<Self::CharType, F>(f)(a.rest[k as int]) } else { !a.bad },
    decreases a.rest.len() - k,
//@ loopend 0
      proof { k = k + 1; }
//@ end
