verus! {
// ---- the entries of a map whose value satisfies f ----
pub open spec fn live<K: VxKey, V>(m: Map<K::KV, (K, V)>, f: spec_fn(V) -> bool) -> Map<K::KV, (K, V)> { m.restrict(m.dom().filter(|k: K::KV| f(m[k].1))) }
pub open spec fn part<K: VxKey, V>(b: Seq<(&K, &V)>, s: Seq<(&K, &V)>, i: int, f: spec_fn(V) -> bool) -> bool {
  &&& forall|j: int| 0 <= j < b.len() ==> f(*(#[trigger] b[j]).1) && exists|k: int| 0 <= k < i && s[k] == b[j]
  &&& forall|j: int, l: int| 0 <= j < l < b.len() ==> (#[trigger] b[j]).0.kv() != (#[trigger] b[l]).0.kv()
  &&& forall|k: int| 0 <= k < i && f(*(#[trigger] s[k]).1) ==> exists|j: int| 0 <= j < b.len() && b[j] == s[k]
}
pub proof fn lemma_part_step<K: VxKey, V>(b: Seq<(&K, &V)>, b2: Seq<(&K, &V)>, s: Seq<(&K, &V)>, i: int, f: spec_fn(V) -> bool, m: Map<K::KV, (K, V)>)
  requires entries_of(s, m), part(b, s, i, f), 0 <= i < s.len(), b2 == (if f(*s[i].1) { b.push(s[i]) } else { b }) ensures part(b2, s, i + 1, f) {
  assert forall|j: int| 0 <= j < b2.len() implies f(*(#[trigger] b2[j]).1) && exists|k: int| 0 <= k < i + 1 && s[k] == b2[j] by { if j < b.len() { assert(b2[j] == b[j]); let k = choose|k: int| 0 <= k < i && s[k] == b[j]; assert(s[k] == b2[j]); } else { assert(s[i] == b2[j]); } }
  assert forall|j: int, l: int| 0 <= j < l < b2.len() implies (#[trigger] b2[j]).0.kv() != (#[trigger] b2[l]).0.kv() by { assert(b2[j] == b[j]); if l < b.len() { assert(b2[l] == b[l]); } else { let k = choose|k: int| 0 <= k < i && s[k] == b[j]; assert(s[k].0.kv() != s[i].0.kv()); } }
  assert forall|k: int| 0 <= k < i + 1 && f(*(#[trigger] s[k]).1) implies exists|j: int| 0 <= j < b2.len() && b2[j] == s[k] by { if k < i { let j = choose|j: int| 0 <= j < b.len() && b[j] == s[k]; assert(b2[j] == s[k]); } else { assert(b2[b.len() as int] == s[k]); } }
}
pub proof fn lemma_part_end<K: VxKey, V>(b: Seq<(&K, &V)>, s: Seq<(&K, &V)>, f: spec_fn(V) -> bool, m: Map<K::KV, (K, V)>)
  requires entries_of(s, m), part(b, s, s.len() as int, f) ensures entries_of(b, live(m, f)) {
  let lm = live(m, f);
  assert forall|i: int| 0 <= i < b.len() implies lm.dom().contains((#[trigger] b[i]).0.kv()) && lm[b[i].0.kv()] == (*b[i].0, *b[i].1) by { let k = choose|k: int| 0 <= k < s.len() && s[k] == b[i]; assert(m.dom().contains(s[k].0.kv())); }
  assert forall|k: K::KV| #[trigger] lm.dom().contains(k) implies exists|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0.kv() == k by { assert(m.dom().contains(k)); let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kv() == k; assert(f(*s[i].1)); let j = choose|j: int| 0 <= j < b.len() && b[j] == s[i]; assert(b[j].0.kv() == k); }
}
}
