// ------------------------------------------------------------ automata
//@ assume the global counter of state numbers is passed to the functions that use it as a parameter; a number it has handed out does not come again (mutual exclusion of the lock; fewer than 2^64 states)
//@ rewrite the global counter as a parameter :: fn get_and_update_state_id() ==> fn get_and_update_state_id(c_: &mut Ids)
//@ rewrite the global counter as a parameter :: let mut id = next_state_id(); ==> let id = next_state_id(c_);
//@ rewrite the global counter as a parameter :: = get_and_update_state_id(); ==> = get_and_update_state_id(c_);
//@ rewrite the global counter as a parameter :: fn new() -> Self { let init = ==> fn new(c_: &mut Ids) -> Self { let init =
//@ rewrite the global counter as a parameter :: fn add_state(&mut self) ==> fn add_state(&mut self, c_: &mut Ids)
//@ rewrite the global counter as a parameter :: fn add_final_state(&mut self) ==> fn add_final_state(&mut self, c_: &mut Ids)
//@ rewrite the global counter as a parameter :: .add_state() ==> .add_state(c_)
//@ rewrite the global counter as a parameter :: .add_final_state() ==> .add_final_state(c_)
//@ rewrite the global counter as a parameter :: DenseFA::new() ==> DenseFA::new(c_)
//@ rewrite the global counter as a parameter :: MultiFA::new() ==> MultiFA::new(c_)
//@ rewrite map of an array :: [($k, $v)].into() ==> { let mut m_ = HashMap::new(); m_.insert($k, $v); m_ }
//@ rewrite HashMap::entry and or_default :: .entry($k).or_default() ==> .entry_or_($k, HashSet::new())
//@ rewrite extend of a map or set by another :: self.states.extend(fa.states) ==> self.states.extend_(fa.states)
//@ rewrite extend of a map or set by another :: self.finals.extend(fa.finals) ==> self.finals.extend_(fa.finals)
//@ rewrite Option::copied :: .iter().next().copied() ==> .any_()
//@ rewrite iterator adapters to a loop :: self.outs.iter().find_map(|(s, id)| ($c).then_some($e)) ==> { let mut r_ = None; let mut i_ = 0; while i_ < self.outs.len() && r_.is_none() { let (s, id) = &self.outs[i_]; if $c { r_ = Some($e); } i_ = i_ + 1; } r_ }
//@ rewrite comparison of symbols :: s == sym ==> same_(s, sym)
//@ include edges.inc.rs
pub struct Ids { n: usize }
impl Ids { pub uninterp spec fn view(&self) -> nat; }
#[verifier::external_body]
fn next_state_id(c: &mut Ids) -> (r: &mut usize)
  ensures *r >= old(c)@, *r < usize::MAX, final(c)@ == *final(r),
{ unimplemented!() }
//@ item laps_regex/src/fa.rs fn get_and_update_state_id
//@ fn get_and_update_state_id
    ensures r >= old(c_)@, r < final(c_)@,
//@ end
//@ item laps_regex/src/fa.rs trait State
//@ header pub trait State<S>: Sized
//@ ghost
  spec fn fresh(&self) -> bool;
  spec fn with(&self, sym: S, state: usize, post: &Self) -> bool;
//@ drop dump
//@ fn new
    ensures r.fresh(),
//@ fn add
    ensures old(self).with(sym, state, final(self)),
//@ end
//@ item laps_regex/src/fa.rs struct DenseState
//@ end
//@ item laps_regex/src/fa.rs impl DenseState only=1
//@ fn outs
    ensures r@ == self.outs@,
//@ end
//@ item laps_regex/src/fa.rs impl DenseState only=1
//@ fn next_state
    ensures
      r is Some ==> has_edge(self.outs@, *sym, r->0),
      r is None ==> forall|p: usize| !has_edge(self.outs@, *sym, p),
//@ loop 0
    invariant
      i_ <= self.outs.len(), r_ is Some ==> has_edge(self.outs@, *sym, r_->0),
      r_ is None ==> forall|i: int| 0 <= i < i_ ==> (#[trigger] self.outs@[i]).0 != *sym,
    decreases self.outs.len() - i_,
//@ loopbody 0
      proof { assert(has_edge(self.outs@, self.outs@[i_ as int].0, self.outs@[i_ as int].1)); }
//@ end
//@ item laps_regex/src/fa.rs impl State for DenseState
//@ ghost
  open spec fn fresh(&self) -> bool { self.outs@.len() == 0 }
  open spec fn with(&self, sym: S, state: usize, post: &Self) -> bool { post.outs@ == self.outs@.push((sym, state)) }
//@ drop dump
//@ fn new
//@ fn add
//@ end
//@ item laps_regex/src/fa.rs struct MultiState attr=reject_recursive_types(S)
//@ end
//@ item laps_regex/src/fa.rs impl MultiState
//@ fn outs
    ensures *r == self.outs,
//@ end
impl<S> MultiState<S> {
  pub open spec fn to(&self, k: S, p: usize) -> bool { self.outs@.contains_key(k) && self.outs@[k]@.contains(p) }
}
//@ item laps_regex/src/fa.rs impl State for MultiState
//@ ghost
  open spec fn fresh(&self) -> bool { self.outs@ == Map::<S, HashSet<usize>>::empty() }
  open spec fn with(&self, sym: S, state: usize, post: &Self) -> bool { forall|k: S, p: usize| #[trigger] post.to(k, p) == (self.to(k, p) || k == sym && p == state) }
//@ drop dump
//@ fn new
//@ fn add
//@ end
//@ item laps_regex/src/fa.rs struct FiniteAutomaton
//@ end
//@ item laps_regex/src/fa.rs type DenseFA
//@ end
//@ item laps_regex/src/fa.rs type MultiFA
//@ end
//@ item laps_regex/src/fa.rs impl FiniteAutomaton
//@ ghost
  pub open spec fn has(&self, q: usize) -> bool { self.states@.contains_key(q) }
  /// The initial state and the final states exist; all states were numbered before the counter stood at n.
  pub open spec fn ok(&self, n: nat) -> bool {
    &&& self.has(self.init)
    &&& forall|q: usize| #[trigger] self.finals@.contains(q) ==> self.has(q)
    &&& forall|q: usize| #[trigger] self.states@.contains_key(q) ==> q < n
  }
//@ drop dump
//@ fn new
    ensures r.states@.dom() == set![r.init], r.states@[r.init].fresh(), r.finals@ == Set::<usize>::empty(), old(c_)@ <= r.init < final(c_)@, r.ok(final(c_)@),
//@ fn add_state
    ensures
      old(c_)@ <= r < final(c_)@,
      exists|st: State| #[trigger] st.fresh() && final(self).states@ == old(self).states@.insert(r, st),
      final(self).init == old(self).init, final(self).finals == old(self).finals,
      old(self).ok(old(c_)@) ==> final(self).ok(final(c_)@) && !old(self).has(r),
//@ fn add_final_state
    ensures
      old(c_)@ <= r < final(c_)@,
      exists|st: State| #[trigger] st.fresh() && final(self).states@ == old(self).states@.insert(r, st),
      final(self).init == old(self).init, final(self).finals@ == old(self).finals@.insert(r),
      old(self).ok(old(c_)@) ==> final(self).ok(final(c_)@) && !old(self).has(r),
//@ fn set_final_state
    ensures
      r == old(self).has(id),
      final(self).states == old(self).states, final(self).init == old(self).init,
      final(self).finals@ == if r { old(self).finals@.insert(id) } else { old(self).finals@ },
//@ fn set_normal_state
    ensures
      r == old(self).has(id),
      final(self).states == old(self).states, final(self).init == old(self).init,
      final(self).finals@ == if r { old(self).finals@.remove(id) } else { old(self).finals@ },
//@ fn union
    ensures
      final(self).states@ == old(self).states@.union_prefer_right(fa.states@), final(self).init == old(self).init,
      final(self).finals@ == old(self).finals@.union(fa.finals@),
//@ fn states
    ensures *r == self.states,
//@ fn state
    ensures r == if self.has(id) { Some(&self.states@[id]) } else { None },
//@ fn state_mut
    ensures
      r is Some == old(self).has(id),
      r is Some ==> *r->0 == old(self).states@[id] && final(self).states@ == old(self).states@.insert(id, *final(r->0)),
      r is None ==> final(self).states@ == old(self).states@,
      final(self).init == old(self).init, final(self).finals == old(self).finals,
//@ fn init
    requires self.has(self.init),
    ensures *r == self.states@[self.init],
//@ fn init_mut
    requires old(self).has(old(self).init),
    ensures
      *r == old(self).states@[old(self).init], final(self).states@ == old(self).states@.insert(old(self).init, *final(r)),
      final(self).init == old(self).init, final(self).finals == old(self).finals,
//@ fn init_id
    ensures r == self.init,
//@ fn finals
    ensures *r == self.finals,
//@ fn final_id
    ensures
      r is Some ==> self.finals@.contains(r->0) && self.finals@.len() <= 1,
      r is None ==> self.finals@.len() != 1,
//@ end
