// ------------------------------------------------------------ what a deterministic automaton is
pub open spec fn at<K, V>(m: Map<K, V>, k: K) -> Option<V> { if m.contains_key(k) { Some(m[k]) } else { None } }
pub type Key<S> = Vec<(S, S)>;
impl<S, T> DFA<S, T> {
  pub open spec fn sound(&self) -> bool {
    &&& self.is_state(self.fa.init)
    &&& forall|q: usize| #[trigger] self.tags@.contains_key(q) ==> self.is_state(q)
    &&& forall|q: usize| #[trigger] self.tags@.contains_key(q) == self.fa.finals@.contains(q)
  }
  pub open spec fn is_state(&self, q: usize) -> bool { self.fa.states@.contains_key(q) }
  pub open spec fn outs(&self, q: usize) -> Seq<(Vec<(S, S)>, usize)> { self.fa.states@[q].outs@ }
  pub open spec fn edge(&self, q: usize, k: Vec<(S, S)>, p: usize) -> bool { self.is_state(q) && has_edge(self.outs(q), k, p) }
  pub open spec fn is_key(&self, k: Vec<(S, S)>) -> bool { exists|q: usize, p: usize| #[trigger] self.edge(q, k, p) }
  pub open spec fn wf(&self) -> bool {
    &&& self.fa.states@.dom().finite()
    &&& self.is_state(self.fa.init)
    &&& forall|q: usize| #[trigger] self.is_state(q) ==> one_edge(self.outs(q))
    &&& forall|q: usize, k: Vec<(S, S)>, p: usize| #[trigger] self.edge(q, k, p) ==> self.is_state(p) && proper(k@)
    &&& forall|q: usize| #[trigger] self.tags@.contains_key(q) ==> self.is_state(q)
    &&& forall|a: Vec<(S, S)>, b: Vec<(S, S)>| #[trigger] self.is_key(a) && #[trigger] self.is_key(b) && a != b ==> apart(a@, b@)
  }
  /// A state goes to another with a symbol.
  pub open spec fn goes(&self, q: usize, c: S, p: usize) -> bool { exists|k: Vec<(S, S)>| #[trigger] self.edge(q, k, p) && within(k@, c) }
}
