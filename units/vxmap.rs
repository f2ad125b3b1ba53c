// ---- hash maps: the contract of std::collections::HashMap, with keys identified by what Eq/Hash
// compare (VxKey::kv), iteration in an unspecified order ----
verus! {
pub trait VxKey { type KV; spec fn kv(&self) -> Self::KV; }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct HashMap<K: VxKey, V> { _k: std::marker::PhantomData<K>, _v: std::marker::PhantomData<V> }
impl<K: VxKey, V> View for HashMap<K, V> { type V = Map<K::KV, (K, V)>; uninterp spec fn view(&self) -> Map<K::KV, (K, V)>; }
/// the pairs of s are the entries of m, each exactly once
pub open spec fn entries_of<K: VxKey, V>(s: Seq<(&K, &V)>, m: Map<K::KV, (K, V)>) -> bool {
  &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0.kv()) && m[s[i].0.kv()] == (*s[i].0, *s[i].1)
  &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.kv() != (#[trigger] s[j]).0.kv()
  &&& forall|k: K::KV| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kv() == k
}
/// the values of s are the values of m, each entry exactly once
pub open spec fn values_of<K: VxKey, V>(s: Seq<&V>, m: Map<K::KV, (K, V)>) -> bool {
  exists|e: Seq<(&K, &V)>| #[trigger] entries_of(e, m) && e.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == *e[i].1
}
pub open spec fn keys_wf<K: VxKey, V>(m: Map<K::KV, (K, V)>) -> bool { forall|k: K::KV| #[trigger] m.dom().contains(k) ==> m[k].0.kv() == k }
impl<K: VxKey, V> HashMap<K, V> {
  pub axiom fn axiom_wf(&self) ensures keys_wf(self@);
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K::KV, (K, V)>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn iter(&self) -> (r: Vec<(&K, &V)>) ensures entries_of(r@, self@) { unimplemented!() }
  #[verifier::external_body] pub fn values(&self) -> (r: Vec<&V>) ensures values_of(r@, self@) { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() =~= Set::empty()) { unimplemented!() }
  #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(k.kv()) { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r is Some == self@.dom().contains(k.kv()), r matches Some(v) ==> *v == self@[k.kv()].1 { unimplemented!() }
  #[verifier::external_body] pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
    ensures r is Some == old(self)@.dom().contains(k.kv()), r is None ==> final(self)@ == old(self)@,
      r matches Some(v) ==> *v == old(self)@[k.kv()].1 && final(self)@ == old(self)@.insert(k.kv(), (old(self)@[k.kv()].0, *final(v))) { unimplemented!() }
  /// an existing entry keeps its key and gets the new value
  #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
    ensures final(self)@ == old(self)@.insert(k.kv(), (if old(self)@.dom().contains(k.kv()) { old(self)@[k.kv()].0 } else { k }, v)),
      r == (if old(self)@.dom().contains(k.kv()) { Some(old(self)@[k.kv()].1) } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>)
    ensures final(self)@ == old(self)@.remove(k.kv()), r == (if old(self)@.dom().contains(k.kv()) { Some(old(self)@[k.kv()].1) } else { None }) { unimplemented!() }
}
/// entry(key).or_insert_with(|| v)
#[verifier::external_body]
pub fn vx_entry<K: VxKey, V>(m: &mut HashMap<K, V>, k: K, v: V) -> (r: &mut V)
  ensures *r == (if old(m)@.dom().contains(k.kv()) { old(m)@[k.kv()].1 } else { v }),
    final(m)@ == old(m)@.insert(k.kv(), (if old(m)@.dom().contains(k.kv()) { old(m)@[k.kv()].0 } else { k }, *final(r))) { unimplemented!() }
impl<K: VxKey + Clone, V: Clone> Clone for HashMap<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
// ---- collect() into a Vec or a map ----
pub trait VxCollect<T>: Sized { spec fn added(&self, x: T, r: Self) -> bool; spec fn is_new(&self) -> bool; fn vx_new() -> (r: Self) ensures r.is_new(); fn vx_add(&mut self, x: T) ensures old(self).added(x, *final(self)); }
impl<T> VxCollect<T> for Vec<T> { open spec fn added(&self, x: T, r: Self) -> bool { r@ == self@.push(x) } open spec fn is_new(&self) -> bool { self@ == Seq::<T>::empty() }
  fn vx_new() -> (r: Self) { Vec::new() } fn vx_add(&mut self, x: T) { self.push(x); } }
impl<K: VxKey, V> VxCollect<(K, V)> for HashMap<K, V> {
  open spec fn added(&self, x: (K, V), r: Self) -> bool { r@ == self@.insert(x.0.kv(), (if self@.dom().contains(x.0.kv()) { self@[x.0.kv()].0 } else { x.0 }, x.1)) }
  open spec fn is_new(&self) -> bool { self@ == Map::<K::KV, (K, V)>::empty() }
  fn vx_new() -> (r: Self) { HashMap::new() } fn vx_add(&mut self, x: (K, V)) { let _ = self.insert(x.0, x.1); } }
pub fn vx_collect_new<T, C: VxCollect<T>>() -> (r: C) ensures r.is_new() { C::vx_new() }
pub fn vx_collect_add<T, C: VxCollect<T>>(c: &mut C, x: T) ensures old(c).added(x, *final(c)) { c.vx_add(x); }
// ---- Ord ----
pub trait VxOrd { spec fn le(&self, o: &Self) -> bool; fn vx_le(&self, o: &Self) -> (r: bool) ensures r == self.le(o); }
pub fn vx_le<T: VxOrd>(a: &T, b: &T) -> (r: bool) ensures r == a.le(b) { a.vx_le(b) }
/// the order of str (lexicographic by code point): a total order
pub uninterp spec fn str_le(a: Seq<char>, b: Seq<char>) -> bool;
pub broadcast axiom fn axiom_str_le_total(a: Seq<char>, b: Seq<char>) ensures #[trigger] str_le(a, b) || str_le(b, a);
pub broadcast axiom fn axiom_str_le_anti(a: Seq<char>, b: Seq<char>) requires #[trigger] str_le(a, b), #[trigger] str_le(b, a) ensures a == b;
pub broadcast axiom fn axiom_str_le_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>) requires #[trigger] str_le(a, b), #[trigger] str_le(b, c) ensures str_le(a, c);
pub broadcast group str_order { axiom_str_le_total, axiom_str_le_anti, axiom_str_le_trans }
}
