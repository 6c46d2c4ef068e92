// ------------------------------------------------------------ ordered sets of the standard library
pub mod se { use vstd::prelude::*; use super::*;
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct BTreeSet<K> { k: K }
impl<K> BTreeSet<K> {
  pub uninterp spec fn view(&self) -> Set<K>;
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
  /// `[k].into()`.
  #[verifier::external_body]
  pub fn one_(k: K) -> (r: Self) ensures r@ == set![k] { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
  #[verifier::external_body]
  pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<K>::empty()) { unimplemented!() }
  #[verifier::external_body]
  pub fn items_(&self) -> (r: Vec<&K>) ensures members(derefs(r@), self@) { unimplemented!() }
  #[verifier::external_body]
  pub fn copied_(&self) -> (r: Vec<K>) ensures members(r@, self@) { unimplemented!() }
  /// `extend` by the members of another set.
  #[verifier::external_body]
  pub fn extend(&mut self, m: &HashSet<K>) ensures final(self)@ == old(self)@.union(m@) { unimplemented!() }
  #[verifier::external_body]
  pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// Sets with the same members are equal.
pub broadcast axiom fn set_ext<K>(a: BTreeSet<K>, b: BTreeSet<K>)
  requires #[trigger] a@ == #[trigger] b@,
  ensures a == b;
}
use se::BTreeSet;
broadcast use se::set_ext;

