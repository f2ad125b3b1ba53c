// ---- std::hash and PartialEq as contracts: `q` is what a value is compared by, `feed` what it gives a hasher ----
verus! {
#[verifier::external_body] pub struct Tk { _p: () }
/// what a std type (text, number, Option, Vec, bytes, a derived enum) gives a hasher: a function of what it is compared by
pub uninterp spec fn feed_of<Q>(q: Q) -> Seq<Tk>;
pub trait Hasher { spec fn fed(&self) -> Seq<Tk>; }
pub trait VxEq { type Q; spec fn q(&self) -> Self::Q; fn vx_eqf(&self, o: &Self) -> (r: bool) ensures r == (self.q() == o.q()); }
pub fn vx_eq<T: VxEq>(a: &T, b: &T) -> (r: bool) ensures r == (a.q() == b.q()) { a.vx_eqf(b) }
pub trait Hash: VxEq { spec fn feed(q: Self::Q) -> Seq<Tk>; fn hash<H: Hasher>(&self, state: &mut H) ensures final(state).fed() == old(state).fed() + Self::feed(self.q()); }
/// equal values give a hasher the same input; equality is an equivalence relation
pub proof fn theorem_hash_respects_eq<T: Hash>(a: T, b: T, c: T)
  ensures a.q() == b.q() ==> T::feed(a.q()) == T::feed(b.q()), a.q() == a.q(), a.q() == b.q() && b.q() == c.q() ==> a.q() == c.q() {}
macro_rules! vx_std_eq { ($($t:ty, $q:ty, $s:ident => $e:expr);* $(;)?) => { verus! { $(
  impl VxEq for $t { type Q = $q; open spec fn q(&self) -> $q { let $s = self; $e } #[verifier::external_body] fn vx_eqf(&self, o: &Self) -> (r: bool) { unimplemented!() } }
  impl Hash for $t { open spec fn feed(q: $q) -> Seq<Tk> { feed_of(q) } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
)* } } }
vx_std_eq! { String, Seq<char>, s => s.view(); str, Seq<char>, s => s.view(); usize, usize, s => *s; u16, u16, s => *s; i32, i32, s => *s; bool, bool, s => *s; u64, u64, s => *s; i64, i64, s => *s; }
impl<T: VxEq> VxEq for &T { type Q = T::Q; open spec fn q(&self) -> T::Q { (**self).q() } fn vx_eqf(&self, o: &Self) -> (r: bool) { (**self).vx_eqf(*o) } }
pub open spec fn q_opt<T: VxEq>(o: Option<T>) -> Option<T::Q> { match o { Some(x) => Some(x.q()), None => None } }
impl<T: VxEq> VxEq for Option<T> { type Q = Option<T::Q>; open spec fn q(&self) -> Option<T::Q> { q_opt(*self) } #[verifier::external_body] fn vx_eqf(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<T: Hash> Hash for Option<T> { open spec fn feed(q: Option<T::Q>) -> Seq<Tk> { feed_of(q) } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
pub open spec fn q_seq<T: VxEq>(s: Seq<T>) -> Seq<T::Q> { s.map_values(|x: T| x.q()) }
impl<T: VxEq> VxEq for Vec<T> { type Q = Seq<T::Q>; open spec fn q(&self) -> Seq<T::Q> { q_seq(self@) } #[verifier::external_body] fn vx_eqf(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<T: Hash> Hash for Vec<T> { open spec fn feed(q: Seq<T::Q>) -> Seq<Tk> { feed_of(q) } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
impl<A: VxEq, B: VxEq> VxEq for (A, B) { type Q = (A::Q, B::Q); open spec fn q(&self) -> (A::Q, B::Q) { (self.0.q(), self.1.q()) } #[verifier::external_body] fn vx_eqf(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<A: VxEq, B: VxEq, C: VxEq> VxEq for (A, B, C) { type Q = (A::Q, B::Q, C::Q); open spec fn q(&self) -> (A::Q, B::Q, C::Q) { (self.0.q(), self.1.q(), self.2.q()) } #[verifier::external_body] fn vx_eqf(&self, o: &Self) -> (r: bool) { unimplemented!() } }
/// maps are equal when they hold equal values for the same keys
pub open spec fn q_map<K: VxKey, V: VxEq>(m: Map<K::KV, (K, V)>) -> Map<K::KV, V::Q> { m.map_values(|p: (K, V)| p.1.q()) }
impl<K: VxKey, V: VxEq> VxEq for HashMap<K, V> { type Q = Map<K::KV, V::Q>; open spec fn q(&self) -> Map<K::KV, V::Q> { q_map(self@) } #[verifier::external_body] fn vx_eqf(&self, o: &Self) -> (r: bool) { unimplemented!() } }
/// std::mem::Discriminant
pub struct VxDiscr { pub d: u64 }
impl VxEq for VxDiscr { type Q = u64; open spec fn q(&self) -> u64 { self.d } fn vx_eqf(&self, o: &Self) -> (r: bool) { self.d == o.d } }
impl Hash for VxDiscr { open spec fn feed(q: u64) -> Seq<Tk> { feed_of(q) } #[verifier::external_body] fn hash<H: Hasher>(&self, state: &mut H) { unimplemented!() } }
// ---- pairs in key order ----
/// the order of the keys: total
pub trait VxKeyOrd: VxKey { spec fn kle(a: Self::KV, b: Self::KV) -> bool; proof fn kle_order(a: Self::KV, b: Self::KV, c: Self::KV) ensures Self::kle(a, b) || Self::kle(b, a), Self::kle(a, b) && Self::kle(b, a) ==> a == b, Self::kle(a, b) && Self::kle(b, c) ==> Self::kle(a, c); }
pub open spec fn keys_sorted<K: VxKeyOrd, V>(s: Seq<(&K, &V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] K::kle(s[i].0.kv(), s[j].0.kv()) }
/// a set of keys as a list in order
pub open spec fn lists<K: VxKeyOrd>(s: Seq<K::KV>, d: Set<K::KV>) -> bool {
  &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] K::kle(s[i], s[j]) && s[i] != s[j]
  &&& forall|k: K::KV| d.contains(k) == #[trigger] s.contains(k)
}
pub open spec fn skeys<K: VxKeyOrd>(d: Set<K::KV>) -> Seq<K::KV> { choose|s: Seq<K::KV>| lists::<K>(s, d) }
pub proof fn lemma_lists_unique<K: VxKeyOrd>(s: Seq<K::KV>, t: Seq<K::KV>, d: Set<K::KV>) requires lists::<K>(s, d), lists::<K>(t, d) ensures s == t decreases s.len() {
  if s.len() == 0 { if t.len() > 0 { assert(t.contains(t[0])); assert(s.contains(t[0])); } assert(s =~= t); }
  else {
    assert(s.contains(s[0])); assert(t.contains(s[0])); let i = choose|i: int| 0 <= i < t.len() && t[i] == s[0];
    assert(t.contains(t[0])); assert(s.contains(t[0])); let j = choose|j: int| 0 <= j < s.len() && s[j] == t[0];
    K::kle_order(s[0], t[0], s[0]); if i > 0 { assert(K::kle(t[0], t[i])); } if j > 0 { assert(K::kle(s[0], s[j])); }
    assert(s[0] == t[0]);
    let (s1, t1, d1) = (s.skip(1), t.skip(1), d.remove(s[0]));
    assert(lists::<K>(s1, d1)) by { lemma_lists_tail::<K>(s, d); }
    assert(lists::<K>(t1, d1)) by { lemma_lists_tail::<K>(t, d); }
    lemma_lists_unique::<K>(s1, t1, d1); assert(s =~= seq![s[0]] + s1); assert(t =~= seq![t[0]] + t1);
  }
}
pub proof fn lemma_lists_tail<K: VxKeyOrd>(s: Seq<K::KV>, d: Set<K::KV>) requires lists::<K>(s, d), s.len() > 0 ensures lists::<K>(s.skip(1), d.remove(s[0])) {
  let s1 = s.skip(1);
  assert forall|i: int, j: int| 0 <= i < j < s1.len() implies #[trigger] K::kle(s1[i], s1[j]) && s1[i] != s1[j] by { assert(K::kle(s[i + 1], s[j + 1])); }
  assert forall|k: K::KV| d.remove(s[0]).contains(k) == #[trigger] s1.contains(k) by {
    if s1.contains(k) { let i = choose|i: int| 0 <= i < s1.len() && s1[i] == k; assert(s[i + 1] == k); assert(s.contains(k)); assert(K::kle(s[0], s[i + 1])); }
    if d.remove(s[0]).contains(k) { assert(s.contains(k)); let i = choose|i: int| 0 <= i < s.len() && s[i] == k; assert(s1[i - 1] == k); }
  }
}
pub open spec fn kvs<K: VxKey, V>(s: Seq<(&K, &V)>) -> Seq<K::KV> { s.map_values(|p: (&K, &V)| p.0.kv()) }
/// the sorted entries of a map are its keys in order
pub proof fn lemma_sorted<K: VxKeyOrd, V>(s: Seq<(&K, &V)>, m: Map<K::KV, (K, V)>) requires entries_of(s, m), keys_sorted(s) ensures kvs(s) == skeys::<K>(m.dom()), lists::<K>(skeys::<K>(m.dom()), m.dom()) {
  let t = kvs(s);
  assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] K::kle(t[i], t[j]) && t[i] != t[j] by { assert(K::kle(s[i].0.kv(), s[j].0.kv())); assert(s[i].0.kv() != s[j].0.kv()); }
  assert forall|k: K::KV| m.dom().contains(k) == #[trigger] t.contains(k) by {
    if m.dom().contains(k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kv() == k; assert(t[i] == k); }
    if t.contains(k) { let i = choose|i: int| 0 <= i < t.len() && t[i] == k; assert(s[i].0.kv() == k); }
  }
  assert(lists::<K>(t, m.dom())); lemma_lists_unique::<K>(t, skeys::<K>(m.dom()), m.dom());
}
/// a sorted permutation of the pairs: what was the list of the entries of a map still is
#[verifier::external_body]
pub fn vx_sort_key_std<'a, K: VxKeyOrd, V>(v: Vec<(&'a K, &'a V)>) -> (r: Vec<(&'a K, &'a V)>)
  ensures keys_sorted(r@), forall|m: Map<K::KV, (K, V)>| entries_of(v@, m) ==> #[trigger] entries_of(r@, m) { unimplemented!() }
pub fn vx_sort_key<'a, K: VxKeyOrd, V>(v: Vec<(&'a K, &'a V)>) -> (r: Vec<(&'a K, &'a V)>)
  ensures keys_sorted(r@), forall|m: Map<K::KV, (K, V)>| entries_of(v@, m) ==> #[trigger] entries_of(r@, m) && kvs(r@) == skeys::<K>(m.dom())
{ let r = vx_sort_key_std(v); proof { assert forall|m: Map<K::KV, (K, V)>| entries_of(v@, m) implies #[trigger] entries_of(r@, m) && kvs(r@) == skeys::<K>(m.dom()) by { lemma_sorted(r@, m); } } r }
/// maps whose entries in key order are the same pairs are the same
pub proof fn lemma_same_pairs<K: VxKeyOrd, V: VxEq>(a: Seq<(&K, &V)>, b: Seq<(&K, &V)>, m: Map<K::KV, (K, V)>, n: Map<K::KV, (K, V)>)
  requires entries_of(a, m), entries_of(b, n), keys_sorted(a), keys_sorted(b) ensures (q_map(m) == q_map(n)) == (a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0.kv() == b[i].0.kv() && a[i].1.q() == b[i].1.q()) {
  lemma_sorted(a, m); lemma_sorted(b, n); let same = a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0.kv() == b[i].0.kv() && a[i].1.q() == b[i].1.q();
  if q_map(m) == q_map(n) { assert(m.dom() =~= q_map(m).dom()); assert(n.dom() =~= q_map(n).dom()); assert(kvs(a) == kvs(b)); assert(a.len() == kvs(a).len() && b.len() == kvs(b).len());
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).0.kv() == b[i].0.kv() && a[i].1.q() == b[i].1.q() by { assert(kvs(a)[i] == a[i].0.kv() && kvs(b)[i] == b[i].0.kv()); let k = a[i].0.kv(); assert(m.dom().contains(k) && n.dom().contains(b[i].0.kv())); assert(q_map(m)[k] == q_map(n)[k]); } }
  if same { assert(kvs(a) =~= kvs(b)); lemma_lists_dom::<K, V>(a, m); lemma_lists_dom::<K, V>(b, n); assert forall|k: K::KV| m.dom().contains(k) == n.dom().contains(k) by { assert(kvs(a).contains(k) == kvs(b).contains(k)); } assert(m.dom() =~= n.dom());
    assert forall|k: K::KV| m.dom().contains(k) implies #[trigger] q_map(m)[k] == q_map(n)[k] by { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0.kv() == k; assert(n.dom().contains(b[i].0.kv())); } assert(q_map(m) =~= q_map(n)); }
}
pub proof fn lemma_lists_dom<K: VxKeyOrd, V>(s: Seq<(&K, &V)>, m: Map<K::KV, (K, V)>) requires entries_of(s, m) ensures forall|k: K::KV| m.dom().contains(k) == #[trigger] kvs(s).contains(k) {
  let t = kvs(s);
  assert forall|k: K::KV| m.dom().contains(k) == #[trigger] t.contains(k) by {
    if m.dom().contains(k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kv() == k; assert(t[i] == k); }
    if t.contains(k) { let i = choose|i: int| 0 <= i < t.len() && t[i] == k; assert(s[i].0.kv() == k); } }
}
impl VxKey for String { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
impl VxKeyOrd for String { open spec fn kle(a: Seq<char>, b: Seq<char>) -> bool { str_le(a, b) } proof fn kle_order(a: Seq<char>, b: Seq<char>, c: Seq<char>) { broadcast use str_order; let _ = (str_le(a, b), str_le(b, a), str_le(b, c)); } }
}
