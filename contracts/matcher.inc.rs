#[verifier::external_body]
fn first_from_<'a, S, V>(m: &'a BTreeMap<S, V>, s: &S) -> (r: Option<(&'a S, &'a V)>)
  ensures
    match r {
      Some((k, v)) => m@.contains_key(*k) && *v == m@[*k] && ord(*s) <= ord(*k) && forall|x: S| #[trigger] m@.contains_key(x) && ord(*s) <= ord(x) ==> ord(*k) <= ord(x),
      None => forall|x: S| #[trigger] m@.contains_key(x) ==> ord(x) < ord(*s),
    },
{ unimplemented!() }
#[verifier::external_body]
fn ge_<S>(a: &S, b: &S) -> (r: bool) ensures r == (ord(*a) >= ord(*b)) { unimplemented!() }
#[verifier::external_body]
fn chars_(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
/// The bytes of a string.
pub uninterp spec fn bytes(s: &str) -> Seq<u8>;
#[verifier::external_body]
fn bytes_(s: &str) -> (r: Vec<u8>) ensures r@ == bytes(s) { unimplemented!() }
pub trait AsRef_<X> { fn as_ref_(&self) -> &[X]; }
impl AsRef_<usize> for Box<[usize]> {
  fn as_ref_(&self) -> (r: &[usize]) ensures r@ == self@ { &**self }
}

//@ item laps_regex/src/table.rs impl StateTransTable#0 props=C03,C06
//@ drop new
//@ fn table
    ensures r@ == self.table@,
//@ fn init_id
    ensures r == self.init_id,
//@ fn num_states
    ensures r == self.num_states,
//@ fn sym_map
    ensures r@ == self.sym_map@,
//@ fn tags
    ensures r@ == self.tags@,
//@ fn next_state
    requires self.wf(),
    ensures r == self.next(id, *s), self.goes(id, *s, r),
//@ entry
    proof {
      broadcast use ord_one;
      self.goes_next(id, *s);
      assert(vstd::slice::spec_slice_len(&*self.table) == self.table@.len());
      assert(forall|k: S, x: S| #[trigger] self.sym_map@.contains_key(k) && #[trigger] self.in_range(x, *s) && ord(*s) <= ord(k) <= ord(x) ==> x == k) by {
        assert forall|k: S, x: S| #[trigger] self.sym_map@.contains_key(k) && #[trigger] self.in_range(x, *s) && ord(*s) <= ord(k) <= ord(x) implies x == k by {
          if ord(k) < ord(x) { assert(ord(k) < ord(self.sym_map@[x].0)); }
          assert(ord(k) == ord(x));
        }
      }
      assert forall|k: S| #[trigger] self.sym_map@.contains_key(k) implies (id < self.num_states ==> self.sym_map@[k].1 * self.num_states + id < self.table@.len()) && self.sym_map@[k].1 * self.num_states <= self.table@.len() by {
        assert((self.sym_map@[k].1 + 1) * self.num_states == self.sym_map@[k].1 * self.num_states + self.num_states) by (nonlinear_arith);
      }
      assert(forall|k: S| #[trigger] self.sym_map@.contains_key(k) && ord(self.sym_map@[k].0) <= ord(*s) <= ord(k) ==> self.in_range(k, *s));
    }
//@ fn is_final
    ensures r == self.tag(id),
//@ end

//@ item laps_regex/src/re.rs struct RegexMatcher attr=reject_recursive_types(S)
//@ end
impl<S, T> RegexMatcher<S, T> {
  pub open spec fn verdict(&self, w: Seq<S>) -> Option<&T> {
    match self.table.run(self.table.init_id, w) { Some(id) => self.table.tag(id), None => None }
  }
}
//@ item laps_regex/src/re.rs impl RegexMatcher#0 props=C03
//@ fn new
    requires table.wf(),
    ensures r.table == table, r.state == table.init_id,
//@ fn state
    ensures r == self.state,
//@ fn is_match attr=loop_isolation(false)
    requires self.table.wf(),
    ensures r == self.verdict(seq@),
//@ entry
    proof { assert(seq@.take(seq@.len() as int) =~= seq@); }
//@ loop 0
    invariant self.table.wf(), it0.seq().len() == seq@.len(), self.table.run(self.table.init_id, seq@.take(it0.index@)) == Some($let0),
    ensures self.table.run(self.table.init_id, seq@) == Some($let0),
//@ loopbody 0
    proof {
      assert(seq@.take(it0.index@ + 1).drop_last() =~= seq@.take(it0.index@));
      if self.table.next(id, *s) is None { self.table.run_none(self.table.init_id, seq@, it0.index@ + 1); }
    }
//@ fn is_accept
    requires old(self).table.wf(),
    ensures
      final(self).table == old(self).table,
      match old(self).table.next(old(self).state, *s) {
        Some(n) => r && final(self).state == n,
        None => !r && final(self).state == old(self).state,
      },
//@ fn is_final
    ensures r == self.table.tag(self.state),
//@ fn is_state_final
    ensures r == self.table.tag(id),
//@ fn reset
    ensures final(self).table == old(self).table, final(self).state == old(self).table.init_id,
//@ end
//@ item laps_regex/src/re.rs type CharsMatcher
//@ end
//@ item laps_regex/src/re.rs impl CharsMatcher props=C03
//@ fn is_str_match attr=loop_isolation(false)
    requires self.table.wf(),
    ensures r == self.verdict(s@),
//@ entry
    proof { assert(s@.take(s@.len() as int) =~= s@); }
//@ loop 0
    invariant self.table.wf(), it0.seq() == s@, self.table.run(self.table.init_id, s@.take(it0.index@)) == Some($let0),
    ensures self.table.run(self.table.init_id, s@) == Some($let0),
//@ loopbody 0
    proof {
      assert(s@.take(it0.index@ + 1).drop_last() =~= s@.take(it0.index@));
      if self.table.next($let0, $let1) is None { self.table.run_none(self.table.init_id, s@, it0.index@ + 1); }
    }
//@ end
//@ item laps_regex/src/re.rs type BytesMatcher
//@ end
//@ item laps_regex/src/re.rs impl BytesMatcher props=C03
//@ fn is_str_match attr=loop_isolation(false)
    requires self.table.wf(),
    ensures r == self.verdict(bytes(s)),
//@ entry
    let ghost w = bytes(s);
    proof { assert(w.take(w.len() as int) =~= w); }
//@ loop 0
    invariant self.table.wf(), it0.seq() == w, self.table.run(self.table.init_id, w.take(it0.index@)) == Some($let0),
    ensures self.table.run(self.table.init_id, w) == Some($let0),
//@ loopbody 0
    proof {
      assert(w.take(it0.index@ + 1).drop_last() =~= w.take(it0.index@));
      if self.table.next($let0, $let1) is None { self.table.run_none(self.table.init_id, w, it0.index@ + 1); }
    }
//@ end
//@ item laps_regex/src/re.rs impl From for StateTransTable props=C06
//@ free fn from_matcher<S, T>(matcher: RegexMatcher<S, T>) -> StateTransTable<S, T>
//@ fn from
    ensures r == matcher.table,
//@ end

// ------------------------------------------------------------ streaming and whole matches

/// The state of a matcher fed with the accepted ones of a sequence of symbols, from a state.
pub open spec fn fed<S, T>(t: StateTransTable<S, T>, from: usize, w: Seq<S>) -> (usize, bool)
  decreases w.len(),
{
  if w.len() == 0 { (from, true) } else {
    let (id, ok) = fed(t, from, w.drop_last());
    match t.next(id, w.last()) { Some(n) => (n, ok), None => (id, false) }
  }
}
/// Feeding agrees with matching at once: the whole match has a tag exactly when every symbol
/// is accepted and the final-tag query reports the tag.
proof fn streaming<S, T>(m: RegexMatcher<S, T>, w: Seq<S>)
  ensures
    fed(m.table, m.table.init_id, w).1 ==> m.verdict(w) == m.table.tag(fed(m.table, m.table.init_id, w).0),
    !fed(m.table, m.table.init_id, w).1 ==> m.verdict(w) is None,
{ runs(m.table, m.table.init_id, w); }
proof fn runs<S, T>(t: StateTransTable<S, T>, from: usize, w: Seq<S>)
  ensures t.run(from, w) == if fed(t, from, w).1 { Some(fed(t, from, w).0) } else { None },
  decreases w.len(),
{
  if w.len() > 0 { runs(t, from, w.drop_last()); }
}
