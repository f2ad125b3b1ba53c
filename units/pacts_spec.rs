// ---- pacts: what they are written as and read from; interactions by the contracts of their own functions ----
verus! {
pub type JO = Map<Seq<char>, JV>;
pub type TM = Map<Seq<char>, Seq<char>>;
/// metadata of a V1 to V3 pact
pub type MD = Map<Seq<char>, TM>;
pub open spec fn jget(v: JV, k: Seq<char>) -> Option<JV> { match v { JV::Obj(m) => if m.dom().contains(k) { Some(m[k]) } else { None }, _ => None } }
pub open spec fn hitem(v: JV) -> Seq<char> { match v { JV::Str(s) => s, v => jprint(v) } }
pub open spec fn jname(v: JV, k: Seq<char>, d: Seq<char>) -> Seq<char> { match jget(v, k) { Some(JV::Str(s)) => s, Some(x) => jprint(x), None => d } }
pub open spec fn opt_ins(m: JO, k: Seq<char>, b: bool, v: JV) -> JO { if b { m.insert(k, v) } else { m } }
#[verifier::external_body] pub fn json_to_string(v: &Value) -> (r: String) ensures r@ == jtext(jv(*v)) { unimplemented!() }
#[verifier::external_body] pub fn vx_lit<'a>(s: &'a str) -> (r: &'a str) ensures r@ == s@, forall|b: &str| (#[trigger] b@) == s@ ==> b == r { unimplemented!() }
pub fn vx_obj_mut(v: &mut Value) -> (r: &mut JMap) requires *old(v) is Object ensures *r == old(v)->Object_0, *final(v) == Value::Object(*final(r)) { match v { Value::Object(m) => m, _ => vx_panic() } }
pub open spec fn pairs_of(s: Seq<(&String, &Value)>, m: JO) -> bool { (forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0@) && jv(*s[i].1) == m[s[i].0@]) && forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k }
impl JMap { #[verifier::external_body] pub fn iter(&self) -> (r: Vec<(&String, &Value)>) ensures pairs_of(r@, jm(*self)) { unimplemented!() }
  pub fn default() -> (r: JMap) ensures jm(r) == Map::<Seq<char>, JV>::empty() { JMap::new() } }
impl VxCollect<(String, Value)> for JMap { open spec fn added(&self, x: (String, Value), r: Self) -> bool { jm(r) == jm(*self).insert(x.0@, jv(x.1)) } open spec fn is_new(&self) -> bool { jm(*self) == Map::<Seq<char>, JV>::empty() }
  fn vx_new() -> (r: Self) { JMap::new() } fn vx_add(&mut self, x: (String, Value)) { let _ = self.insert(x.0, x.1); } }
impl VxKey for String { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
pub fn vx_entries<'a>(m: &'a HashMap<String, Value>) -> (r: Vec<(&'a String, &'a Value)>) ensures entries_of(r@, m@) { m.iter() }
pub fn vx_item_of<T>(x: Option<T>) -> (r: Option<T>) ensures r == x { x }
#[verifier::external_body] pub fn vx_enum<'a, T>(v: &'a Vec<T>) -> (r: Vec<(usize, &'a T)>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == (i as usize, &v@[i]), v@.len() <= usize::MAX { unimplemented!() }
// ---- std::collections::BTreeMap with text keys ----
pub trait VxText { spec fn tx(&self) -> Seq<char>; }
impl VxText for str { open spec fn tx(&self) -> Seq<char> { self@ } }
impl VxText for String { open spec fn tx(&self) -> Seq<char> { self@ } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { _k: std::marker::PhantomData<K>, _v: std::marker::PhantomData<V> }
impl<K, V> View for BTreeMap<K, V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
pub open spec fn bents<K: VxText, V>(s: Seq<(&K, &V)>, m: Map<Seq<char>, V>) -> bool {
  (forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0.tx()) && m[s[i].0.tx()] == *s[i].1) && forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.tx() == k }
impl<K: VxText, V> BTreeMap<K, V> {
  #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn iter(&self) -> (r: Vec<(&K, &V)>) ensures bents(r@, self@) { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() =~= Set::empty()) { unimplemented!() }
  #[verifier::external_body] pub fn contains_key<Q: VxText + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.dom().contains(k.tx()) { unimplemented!() }
  #[verifier::external_body] pub fn get<Q: VxText + ?Sized>(&self, k: &Q) -> (r: Option<&V>) ensures r is Some == self@.dom().contains(k.tx()), r matches Some(v) ==> *v == self@[k.tx()] { unimplemented!() }
  #[verifier::external_body] pub fn get_mut<Q: VxText + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
    ensures r is Some == old(self)@.dom().contains(k.tx()), r is None ==> final(self)@ == old(self)@, r matches Some(v) ==> *v == old(self)@[k.tx()] && final(self)@ == old(self)@.insert(k.tx(), *final(v)) { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.tx(), v) { unimplemented!() }
  #[verifier::external_body] pub fn remove<Q: VxText + ?Sized>(&mut self, k: &Q) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(k.tx()), r == (if old(self)@.dom().contains(k.tx()) { Some(old(self)@[k.tx()]) } else { None }) { unimplemented!() }
}
impl<K: VxText, V> VxCollect<(K, V)> for BTreeMap<K, V> { open spec fn added(&self, x: (K, V), r: Self) -> bool { r@ == self@.insert(x.0.tx(), x.1) } open spec fn is_new(&self) -> bool { self@ == Map::<Seq<char>, V>::empty() }
  fn vx_new() -> (r: Self) { BTreeMap::new() } fn vx_add(&mut self, x: (K, V)) { let _ = self.insert(x.0, x.1); } }
impl<K: VxText, V> Default for BTreeMap<K, V> { fn default() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { BTreeMap::new() } }
pub open spec fn smap(m: BTreeMap<String, String>) -> TM { m@.map_values(|s: String| s@) }
pub open spec fn mdt(m: BTreeMap<String, BTreeMap<String, String>>) -> MD { m@.map_values(|x: BTreeMap<String, String>| smap(x)) }
pub open spec fn mdv(m: BTreeMap<String, Value>) -> JO { m@.map_values(|v: Value| jv(v)) }
pub open spec fn tj(m: TM) -> JV { JV::Obj(m.map_values(|s: Seq<char>| JV::Str(s))) }
impl VxToValue for BTreeMap<String, String> { open spec fn tv(&self) -> JV { tj(smap(*self)) } #[verifier::external_body] fn vx_to_value(&self) -> (r: Value) { unimplemented!() } }
impl VxToValue for BTreeMap<String, Value> { open spec fn tv(&self) -> JV { JV::Obj(mdv(*self)) } #[verifier::external_body] fn vx_to_value(&self) -> (r: Value) { unimplemented!() } }
#[verifier::external_body] pub fn vx_clone_text(m: &BTreeMap<String, BTreeMap<String, String>>) -> (r: BTreeMap<String, BTreeMap<String, String>>) ensures mdt(r) == mdt(*m) { unimplemented!() }
#[verifier::external_body] pub fn vx_clone_values(m: &BTreeMap<String, Value>) -> (r: BTreeMap<String, Value>) ensures mdv(r) == mdv(*m) { unimplemented!() }
/// entry(k).or_insert(v)
pub trait VxOrInsert<K> { spec fn om(&self) -> JO; spec fn ok(k: K) -> Seq<char>; fn vx_oi(&mut self, k: K, v: Value) -> (r: &mut Value)
  ensures jv(*r) == (if old(self).om().dom().contains(Self::ok(k)) { old(self).om()[Self::ok(k)] } else { jv(v) }), final(self).om() == old(self).om().insert(Self::ok(k), jv(*final(r))); }
impl<'a> VxOrInsert<&'a str> for JMap { open spec fn om(&self) -> JO { jm(*self) } open spec fn ok(k: &'a str) -> Seq<char> { k@ } #[verifier::external_body] fn vx_oi(&mut self, k: &'a str, v: Value) -> (r: &mut Value) { unimplemented!() } }
impl VxOrInsert<String> for BTreeMap<String, Value> { open spec fn om(&self) -> JO { mdv(*self) } open spec fn ok(k: String) -> Seq<char> { k@ } #[verifier::external_body] fn vx_oi(&mut self, k: String, v: Value) -> (r: &mut Value) { unimplemented!() } }
pub fn vx_or_insert<K, M: VxOrInsert<K>>(m: &mut M, k: K, v: Value) -> (r: &mut Value)
  ensures jv(*r) == (if old(m).om().dom().contains(M::ok(k)) { old(m).om()[M::ok(k)] } else { jv(v) }), final(m).om() == old(m).om().insert(M::ok(k), jv(*final(r))) { m.vx_oi(k, v) }
// ---- options of a list ----
pub open spec fn opts<T>(s: Seq<Option<T>>) -> Seq<T> decreases s.len() { if s.len() == 0 { seq![] } else { match s.last() { Some(x) => opts(s.drop_last()).push(x), None => opts(s.drop_last()) } } }
pub proof fn lemma_opts<T>(s: Seq<Option<T>>, n: int) requires 0 <= n < s.len() ensures opts(s.take(n + 1)) == (match s[n] { Some(x) => opts(s.take(n)).push(x), None => opts(s.take(n)) }) { assert(s.take(n + 1).drop_last() =~= s.take(n)); }
pub proof fn lemma_opts_all<T>(s: Seq<Option<T>>, r: Seq<T>) requires s.len() == r.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == Some(r[i]) ensures opts(s) == r decreases s.len() {
  if s.len() > 0 { lemma_opts_all(s.drop_last(), r.drop_last()); assert(r.drop_last().push(r.last()) =~= r); } else { assert(r =~= seq![]); } }
// ---- versions ----
impl Copy for PactSpecification {}
impl Clone for PactSpecification { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub open spec fn version_text(s: PactSpecification) -> Seq<char> { match s { PactSpecification::V1 => "1.0.0"@, PactSpecification::V1_1 => "1.1.0"@, PactSpecification::V2 => "2.0.0"@, PactSpecification::V3 => "3.0.0"@, PactSpecification::V4 => "4.0"@, PactSpecification::Unknown => "unknown"@ } }
/// major and minor of what lenient_semver reads
pub uninterp spec fn semver(s: Seq<char>) -> Option<(u64, u64)>;
pub axiom fn axiom_semver() ensures semver("1.0.0"@) == Some((1u64, 0u64)), semver("1.1.0"@) == Some((1u64, 1u64)), semver("2.0.0"@) == Some((2u64, 0u64)), semver("3.0.0"@) == Some((3u64, 0u64)), semver("4.0"@) == Some((4u64, 0u64)), semver("unknown"@) is None;
pub struct VxVersion { pub major: u64, pub minor: u64 }
#[verifier::external_body] pub fn vx_semver(s: &str) -> (r: Result<VxVersion, VxError>) ensures r is Ok == semver(s@) is Some, r is Ok ==> semver(s@) == Some((r->Ok_0.major, r->Ok_0.minor)) { unimplemented!() }
/// the specification a version names; a version of a supported major number without a specification of its own is read as that major's
pub open spec fn spec_of(v: Seq<char>) -> PactSpecification { match semver(v) { None => PactSpecification::Unknown, Some((a, b)) => if a == 1 { if b == 1 { PactSpecification::V1_1 } else { PactSpecification::V1 } } else if a == 2 { PactSpecification::V2 } else if a == 3 { PactSpecification::V3 } else if a == 4 { PactSpecification::V4 } else { PactSpecification::Unknown } } }
pub open spec fn parse_spec(v: Seq<char>) -> Option<PactSpecification> { match semver(v) { None => None, Some((a, b)) => if a == 1 && b == 0 { Some(PactSpecification::V1) } else if a == 1 && b == 1 { Some(PactSpecification::V1_1) } else if a == 2 && b == 0 { Some(PactSpecification::V2) } else if a == 3 && b == 0 { Some(PactSpecification::V3) } else if a == 4 && b == 0 { Some(PactSpecification::V4) } else { None } } }
pub proof fn theorem_version(s: PactSpecification) ensures spec_of(version_text(s)) == s, !(s is Unknown) ==> parse_spec(version_text(s)) == Some(s) { axiom_semver(); }
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_upper(s: &str) -> (r: String) ensures r@ == upper(s@) { unimplemented!() }
pub open spec fn spec_named(u: Seq<char>) -> PactSpecification { if u == "V1"@ { PactSpecification::V1 } else if u == "V1.1"@ { PactSpecification::V1_1 } else if u == "V2"@ { PactSpecification::V2 } else if u == "V3"@ { PactSpecification::V3 } else if u == "V4"@ { PactSpecification::V4 } else { PactSpecification::Unknown } }
pub open spec fn spec_name(s: PactSpecification) -> Seq<char> { match s { PactSpecification::V1 => "V1"@, PactSpecification::V1_1 => "V1.1"@, PactSpecification::V2 => "V2"@, PactSpecification::V3 => "V3"@, PactSpecification::V4 => "V4"@, PactSpecification::Unknown => "unknown"@ } }
pub axiom fn axiom_upper() ensures upper("V1"@) == "V1"@, upper("V1.1"@) == "V1.1"@, upper("V2"@) == "V2"@, upper("V3"@) == "V3"@, upper("V4"@) == "V4"@, upper("unknown"@) == "UNKNOWN"@;
pub proof fn lemma_names() ensures "V1"@.len() == 2, "V1.1"@.len() == 4, "V2"@.len() == 2, "V3"@.len() == 2, "V4"@.len() == 2, "unknown"@.len() == 7, "UNKNOWN"@.len() == 7, "V1"@[1] == '1', "V2"@[1] == '2', "V3"@[1] == '3', "V4"@[1] == '4' {
  reveal_strlit("V1"); reveal_strlit("V1.1"); reveal_strlit("V2"); reveal_strlit("V3"); reveal_strlit("V4"); reveal_strlit("unknown"); reveal_strlit("UNKNOWN"); }
pub proof fn theorem_name(s: PactSpecification) ensures spec_named(upper(spec_name(s))) == s { axiom_upper(); lemma_names(); }
// ---- metadata ----
/// the attribute names of the metadata, in the spelling that is written
pub open spec fn old_of(k: Seq<char>) -> Seq<char> { if k == "pactSpecification"@ { "pact-specification"@ } else if k == "pactRust"@ { "pact-rust"@ } else { k } }
pub open spec fn ren(k: Seq<char>) -> Seq<char> { if k == "pact-specification"@ { "pactSpecification"@ } else if k == "pact-rust"@ { "pactRust"@ } else { k } }
pub open spec fn is_old(k: Seq<char>) -> bool { k == "pact-specification"@ || k == "pact-rust"@ }
/// no attribute is given in both spellings
pub open spec fn one_name<V>(m: Map<Seq<char>, V>) -> bool { !(m.dom().contains("pact-specification"@) && m.dom().contains("pactSpecification"@)) && !(m.dom().contains("pact-rust"@) && m.dom().contains("pactRust"@)) }
pub open spec fn old_in<V>(m: Map<Seq<char>, V>, k: Seq<char>) -> bool { k != old_of(k) && m.dom().contains(old_of(k)) }
pub open spec fn moved<V>(m: Map<Seq<char>, V>, a: Seq<char>, b: Seq<char>) -> Map<Seq<char>, V> { if m.dom().contains(a) { m.remove(a).insert(b, m[a]) } else { m } }
pub open spec fn renamed<V>(m: Map<Seq<char>, V>) -> Map<Seq<char>, V> { moved(moved(m, "pact-specification"@, "pactSpecification"@), "pact-rust"@, "pactRust"@) }
pub proof fn lemma_md() ensures "pactSpecification"@ != "pact-specification"@, "pactRust"@ != "pact-rust"@, "pactRust"@.len() == 8, "pact-rust"@.len() == 9, "pactSpecification"@.len() == 17, "pact-specification"@.len() == 18, "plugins"@.len() == 7, "version"@.len() == 7, "plugins"@ != "version"@,
    "consumer"@.len() == 8, "provider"@.len() == 8, "consumer"@ != "provider"@, "interactions"@.len() == 12, "metadata"@.len() == 8, "metadata"@ != "consumer"@, "metadata"@ != "provider"@, "messages"@.len() == 8, "messages"@ != "metadata"@, "messages"@ != "consumer"@, "messages"@ != "provider"@, "name"@.len() == 4, "configuration"@.len() == 13, "models"@.len() == 6 {
  reveal_strlit("pactSpecification"); reveal_strlit("pact-specification"); reveal_strlit("pactRust"); reveal_strlit("pact-rust"); reveal_strlit("plugins"); reveal_strlit("version"); reveal_strlit("consumer"); reveal_strlit("provider"); reveal_strlit("interactions"); reveal_strlit("metadata"); reveal_strlit("messages"); reveal_strlit("name"); reveal_strlit("configuration"); reveal_strlit("models");
  assert("pactSpecification"@.len() != "pact-specification"@.len()); assert("pactRust"@.len() != "pact-rust"@.len());
  assert("plugins"@[0] == 'p' && "version"@[0] == 'v' && "consumer"@[0] == 'c' && "provider"@[0] == 'p' && "metadata"@[1] == 'e' && "messages"@[2] == 's' && "metadata"@[2] == 't' && "metadata"@[0] == 'm' && "messages"@[0] == 'm'); }
pub proof fn lemma_renamed<V>(m: Map<Seq<char>, V>) ensures one_name(m) ==> forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> renamed(m).dom().contains(ren(k)) && renamed(m)[ren(k)] == m[k], forall|k: Seq<char>| #[trigger] renamed(m).dom().contains(k) ==> !is_old(k) && (m.dom().contains(k) || m.dom().contains(old_of(k))), one_name(renamed(m)), (forall|k: Seq<char>| m.dom().contains(k) ==> !is_old(k)) ==> renamed(m) == m {
  lemma_md(); if forall|k: Seq<char>| m.dom().contains(k) ==> !is_old(k) { assert(is_old("pact-rust"@) && is_old("pact-specification"@)); assert(renamed(m) =~= m); } }
pub open spec fn from_name<V, W>(m: Map<Seq<char>, V>, f: spec_fn(V) -> W, k: Seq<char>, w: W) -> bool { !is_old(k) && ((m.dom().contains(k) && w == f(m[k])) || (old_in(m, k) && w == f(m[old_of(k)]))) }
pub open spec fn naming<V, W>(m: Map<Seq<char>, V>, f: spec_fn(V) -> W, t: Map<Seq<char>, W>) -> bool { forall|k: Seq<char>| #[trigger] t.dom().contains(k) ==> from_name(m, f, k, t[k]) }
pub proof fn lemma_naming<V, W>(m: Map<Seq<char>, V>, f: spec_fn(V) -> W, t: Map<Seq<char>, W>) requires one_name(m), naming(m, f, t), forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> t.dom().contains(ren(k)) ensures t == renamed(m).map_values(f) {
  lemma_md(); lemma_renamed(m); assert forall|k: Seq<char>| renamed(m).dom().contains(k) implies t.dom().contains(k) by { if m.dom().contains(k) { assert(ren(k) == k); } else { assert(ren(old_of(k)) == k); } } assert(t =~= renamed(m).map_values(f)); }
pub open spec fn text_of(v: JV) -> TM { match v { JV::Obj(m) => m.map_values(|x: JV| hitem(x)), _ => Map::empty() } }
pub open spec fn jmeta(v: JV) -> JO { match jget(v, "metadata"@) { Some(JV::Obj(m)) => m, _ => Map::empty() } }
/// the metadata a V1 to V3 pact keeps of a JSON document
pub open spec fn meta_f(v: JV) -> MD { renamed(jmeta(v)).map_values(|x: JV| text_of(x)) }
pub open spec fn ver_of(m: MD) -> PactSpecification { let s = if m.dom().contains("pact-specification"@) { Some(m["pact-specification"@]) } else if m.dom().contains("pactSpecification"@) { Some(m["pactSpecification"@]) } else { None };
  match s { Some(s) => if s.dom().contains("version"@) { spec_of(s["version"@]) } else { PactSpecification::V3 }, None => PactSpecification::V3 } }
pub uninterp spec fn rust_version() -> Seq<char>;
#[verifier::external_body] pub fn vx_rust_version() -> (r: &'static str) ensures r@ == rust_version() { unimplemented!() }
pub open spec fn version_j(s: PactSpecification) -> JV { JV::Obj(Map::<Seq<char>, JV>::empty().insert("version"@, JV::Str(version_text(s)))) }
pub open spec fn with_models(v: JV) -> JV { match v { JV::Obj(o) => JV::Obj(o.insert("models"@, JV::Str(rust_version()))), v => v } }
/// the metadata that is written: the specification and the version of this library are recorded
pub open spec fn stamped(m: JO, s: PactSpecification) -> JO { let n = renamed(m).insert("pactSpecification"@, version_j(s)); n.insert("pactRust"@, with_models(if n.dom().contains("pactRust"@) { n["pactRust"@] } else { JV::Obj(Map::empty()) })) }
pub open spec fn md_jv(m: MD) -> JO { m.map_values(|x: TM| tj(x)) }
pub proof fn theorem_stamp(m: JO, s: PactSpecification, v: JV) requires jget(v, "metadata"@) == Some(JV::Obj(stamped(m, s))) || (exists|k: Seq<char>, x: JV| !is_old(k) && k != "pactSpecification"@ && #[trigger] jget(v, "metadata"@) == Some(JV::Obj(#[trigger] stamped(m, s).insert(k, x))))
  ensures ver_of(meta_f(v)) == s {
  lemma_md(); axiom_semver(); lemma_renamed(m); let n = jmeta(v); assert(n["pactSpecification"@] == version_j(s)); assert(!n.dom().contains("pact-specification"@)); assert(!n.dom().contains("pact-rust"@));
  lemma_renamed(n); assert(forall|k: Seq<char>| n.dom().contains(k) ==> !is_old(k)); assert(meta_f(v)["pactSpecification"@] =~= Map::<Seq<char>, Seq<char>>::empty().insert("version"@, version_text(s))); theorem_version(s); assert(!meta_f(v).dom().contains("pact-specification"@)); }
// ---- consumer and provider ----
pub open spec fn named_j(n: Seq<char>) -> JV { JV::Obj(Map::<Seq<char>, JV>::empty().insert("name"@, JV::Str(n))) }
pub open spec fn party(v: JV, k: Seq<char>) -> Seq<char> { match jget(v, k) { Some(x) => jname(x, "name"@, k), None => k } }
}
