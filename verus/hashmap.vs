@@ text
/// std's HashMap as a finite map
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K, V> HashMap<K, V> {
  pub uninterp spec fn m(&self) -> Map<K, V>;
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r.m() == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r is Some <==> self.m().dom().contains(*k), r is Some ==> *r->0 == self.m()[*k] { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).m() == old(self).m().insert(k, v) { unimplemented!() }
}
