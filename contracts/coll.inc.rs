// ------------------------------------------------------------ maps and sets of the standard library

/// The entries of a map in some order.
pub open spec fn lists<K, V>(e: Seq<(K, V)>, m: Map<K, V>) -> bool {
  &&& e.len() == m.dom().len()
  &&& forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0 != (#[trigger] e[j]).0
  &&& forall|i: int| 0 <= i < e.len() ==> m.contains_key((#[trigger] e[i]).0) && m[e[i].0] == e[i].1
  &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k
}
/// The values of a map in some order.
pub open spec fn values<K, V>(v: Seq<V>, m: Map<K, V>) -> bool { exists|e: Seq<(K, V)>| #[trigger] lists(e, m) && v.len() == e.len() && forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == e[i].1 }
/// The members of a set in some order.
pub open spec fn members<K>(e: Seq<K>, s: Set<K>) -> bool {
  &&& e.len() == s.len()
  &&& e.no_duplicates()
  &&& forall|i: int| 0 <= i < e.len() ==> s.contains(#[trigger] e[i])
  &&& forall|k: K| #[trigger] s.contains(k) ==> e.contains(k)
}
pub open spec fn derefs<K>(e: Seq<&K>) -> Seq<K> { Seq::new(e.len(), |i: int| *e[i]) }
pub proof fn some_deref<K>(e: Seq<&K>, s: Set<K>)
  ensures members(derefs(e), s) ==> forall|k: K| #[trigger] s.contains(k) == exists|j: int| 0 <= j < e.len() && *(#[trigger] e[j]) == k,
{
  if members(derefs(e), s) {
    assert forall|k: K| #[trigger] s.contains(k) == exists|j: int| 0 <= j < e.len() && *(#[trigger] e[j]) == k by {
      if s.contains(k) { let j = choose|j: int| 0 <= j < e.len() && derefs(e)[j] == k; assert(*e[j] == k); }
      if exists|j: int| 0 <= j < e.len() && *(#[trigger] e[j]) == k { let j = choose|j: int| 0 <= j < e.len() && *(#[trigger] e[j]) == k; assert(s.contains(derefs(e)[j])); }
    }
  }
}
pub open spec fn derefs2<K, V>(e: Seq<(&K, &V)>) -> Seq<(K, V)> { Seq::new(e.len(), |i: int| (*e[i].0, *e[i].1)) }

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { k: K, v: V }
impl<K, V> BTreeMap<K, V> {
  pub uninterp spec fn view(&self) -> Map<K, V>;
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), r == if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None } { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { k: K, v: V }
impl<K, V> HashMap<K, V> {
  pub uninterp spec fn view(&self) -> Map<K, V>;
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn get(&self, k: &K) -> (r: Option<&V>)
    ensures r == if self@.contains_key(*k) { Some(&self@[*k]) } else { None },
  { unimplemented!() }
  #[verifier::external_body]
  pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
    ensures
      r is Some == old(self)@.contains_key(*k),
      r is Some ==> *r->0 == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->0)),
      r is None ==> final(self)@ == old(self)@,
  { unimplemented!() }
  /// `map[k]`.
  #[verifier::external_body]
  pub fn index_(&self, k: &K) -> (r: &V)
    requires self@.contains_key(*k),
    ensures *r == self@[*k],
  { unimplemented!() }
  #[verifier::external_body]
  pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures self@.dom().finite(), r == self@.dom().len() { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), r == if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None } { unimplemented!() }
  /// `entry(k).or_insert(v)`.
  #[verifier::external_body]
  pub fn entry_or_(&mut self, k: K, v: V) -> (r: &mut V)
    ensures
      *r == if old(self)@.contains_key(k) { old(self)@[k] } else { v },
      final(self)@ == old(self)@.insert(k, *final(r)),
  { unimplemented!() }
  /// `extend` by another map.
  #[verifier::external_body]
  pub fn extend_(&mut self, m: HashMap<K, V>) ensures final(self)@ == old(self)@.union_prefer_right(m@) { unimplemented!() }
  #[verifier::external_body]
  pub fn keys_(&self) -> (r: Vec<&K>) ensures self@.dom().finite(), members(derefs(r@), self@.dom()) { unimplemented!() }
  #[verifier::external_body]
  pub fn entries_(&self) -> (r: Vec<(&K, &V)>) ensures self@.dom().finite(), lists(derefs2(r@), self@) { unimplemented!() }
  #[verifier::external_body]
  pub fn into_entries_(self) -> (r: Vec<(K, V)>) ensures self@.dom().finite(), lists(r@, self@) { unimplemented!() }
  #[verifier::external_body]
  pub fn into_values_(self) -> (r: Vec<V>) ensures values(r@, self@) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { k: K }
impl<K> HashSet<K> {
  pub uninterp spec fn view(&self) -> Set<K>;
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
  #[verifier::external_body]
  pub fn remove(&mut self, k: &K) -> (r: bool) ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k) { unimplemented!() }
  #[verifier::external_body]
  pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures self@.finite(), r == self@.len() { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<K>::empty()) { unimplemented!() }
  /// `extend` by another set.
  #[verifier::external_body]
  pub fn extend_(&mut self, m: HashSet<K>) ensures final(self)@ == old(self)@.union(m@) { unimplemented!() }
  /// `iter().next().copied()`.
  #[verifier::external_body]
  pub fn any_(&self) -> (r: Option<K>) ensures r is Some ==> self@.contains(r->0), r is None ==> self@ == Set::<K>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn items_(&self) -> (r: Vec<&K>) ensures self@.finite(), members(derefs(r@), self@) { unimplemented!() }
  #[verifier::external_body]
  pub fn into_items_(self) -> (r: Vec<K>) ensures self@.finite(), members(r@, self@) { unimplemented!() }
}
