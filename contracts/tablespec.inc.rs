//@ item laps_regex/src/table.rs struct StateTransTable attr=reject_recursive_types(S)
//@ end

impl<S, T> StateTransTable<S, T> {
  /// The range of the map a symbol is in: its right bound.
  pub open spec fn in_range(&self, r: S, s: S) -> bool {
    self.sym_map@.contains_key(r) && ord(self.sym_map@[r].0) <= ord(s) <= ord(r)
  }
  /// The table entry of a state for the symbols of the range ending with r.
  pub open spec fn entry(&self, id: int, r: S) -> usize { self.table@[self.sym_map@[r].1 * self.num_states + id] }
  pub open spec fn wf(&self) -> bool {
    &&& self.init_id < self.num_states
    &&& forall|r: S| #[trigger] self.sym_map@.contains_key(r) ==> ord(self.sym_map@[r].0) <= ord(r) && (self.sym_map@[r].1 + 1) * self.num_states <= self.table@.len()
    &&& forall|r1: S, r2: S| #[trigger] self.sym_map@.contains_key(r1) && #[trigger] self.sym_map@.contains_key(r2) && ord(r1) < ord(r2) ==> ord(r1) < ord(self.sym_map@[r2].0)
    &&& forall|i: int| 0 <= i < self.table@.len() ==> #[trigger] self.table@[i] <= self.num_states
  }
  /// Where a state goes with a symbol, as the exported parts say.
  pub open spec fn goes(&self, id: usize, s: S, r: Option<usize>) -> bool {
    if id >= self.num_states { r is None }
    else {
      &&& forall|x: S| #[trigger] self.in_range(x, s) ==> r == if self.entry(id as int, x) < self.num_states { Some(self.entry(id as int, x)) } else { None }
      &&& (forall|x: S| !#[trigger] self.in_range(x, s)) ==> r is None
    }
  }
  pub open spec fn next(&self, id: usize, s: S) -> Option<usize> {
    if id < self.num_states && exists|x: S| #[trigger] self.in_range(x, s) {
      let e = self.entry(id as int, choose|x: S| #[trigger] self.in_range(x, s));
      if e < self.num_states { Some(e) } else { None }
    } else { None }
  }
  /// The state behind a sequence of symbols.
  pub open spec fn run(&self, id: usize, w: Seq<S>) -> Option<usize>
    decreases w.len(),
  {
    if w.len() == 0 { Some(id) } else {
      match self.run(id, w.drop_last()) { Some(i) => self.next(i, w.last()), None => None }
    }
  }
  pub open spec fn tag(&self, id: usize) -> Option<&T> { if self.tags@.contains_key(id) { Some(&self.tags@[id]) } else { None } }
  pub proof fn one_range(&self, x: S, y: S, s: S)
    requires self.wf(), self.in_range(x, s), self.in_range(y, s),
    ensures x == y,
  {
    broadcast use ord_one;
    if ord(x) < ord(y) { assert(ord(x) < ord(self.sym_map@[y].0)); }
    if ord(y) < ord(x) { assert(ord(y) < ord(self.sym_map@[x].0)); }
    assert(ord(x) == ord(y));
  }
  pub proof fn goes_next(&self, id: usize, s: S)
    requires self.wf(),
    ensures self.goes(id, s, self.next(id, s)),
  {
    if id < self.num_states && exists|x: S| #[trigger] self.in_range(x, s) {
      let c = choose|x: S| #[trigger] self.in_range(x, s);
      assert forall|x: S| #[trigger] self.in_range(x, s) implies x == c by { self.one_range(x, c, s); }
    }
  }
  pub proof fn run_none(&self, id: usize, w: Seq<S>, k: int)
    requires 0 <= k <= w.len(), self.run(id, w.take(k)) is None,
    ensures self.run(id, w) is None,
    decreases w.len(),
  {
    if k < w.len() {
      assert(w.drop_last().take(k) =~= w.take(k));
      self.run_none(id, w.drop_last(), k);
    } else { assert(w.take(k) =~= w); }
  }
}
