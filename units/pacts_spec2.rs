verus! {
// ---- plugins ----
pub open spec fn meta(m: HashMap<String, Value>) -> JO { m@.map_values(|e: (String, Value)| jv(e.1)) }
pub ghost struct PLQ { pub name: Seq<char>, pub version: Seq<char>, pub configuration: JO }
pub open spec fn plq(p: PluginData) -> PLQ { PLQ { name: p.name@, version: p.version@, configuration: meta(p.configuration) } }
pub open spec fn plqs(s: Seq<PluginData>) -> Seq<PLQ> { s.map_values(|p: PluginData| plq(p)) }
pub open spec fn plug_j(p: PLQ) -> JV { JV::Obj(Map::<Seq<char>, JV>::empty().insert("name"@, JV::Str(p.name)).insert("version"@, JV::Str(p.version)).insert("configuration"@, JV::Obj(p.configuration))) }
pub open spec fn plugs_j(s: Seq<PLQ>) -> JV { JV::Arr(s.map_values(|p: PLQ| plug_j(p))) }
/// what the derived Deserialize reads (the derived pair of functions is assumed to be inverse)
pub uninterp spec fn plug_f(v: JV) -> Option<PLQ>;
pub axiom fn axiom_plug(p: PLQ) ensures plug_f(plug_j(p)) == Some(p);
#[verifier::external_body] pub fn vx_plugin_to_value(p: &PluginData) -> (r: Result<Value, VxError>) ensures r is Ok, jv(r->Ok_0) == plug_j(plq(*p)) { unimplemented!() }
#[verifier::external_body] pub fn vx_plugin_from_value(v: Value) -> (r: Result<PluginData, VxError>) ensures r is Ok == plug_f(jv(v)) is Some, r is Ok ==> Some(plq(r->Ok_0)) == plug_f(jv(v)) { unimplemented!() }
impl Clone for PluginData { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures plq(r) == plq(*self) { unimplemented!() } }
#[verifier::external_body] pub fn vx_clone_plugins(p: &Vec<PluginData>) -> (r: Vec<PluginData>) ensures plqs(r@) == plqs(p@) { unimplemented!() }
pub open spec fn plugs_of(o: Option<JV>) -> Seq<PLQ> { match o { Some(JV::Arr(a)) => opts(a.map_values(|x: JV| plug_f(x))), _ => seq![] } }
pub proof fn theorem_plugins(s: Seq<PLQ>) ensures plugs_of(Some(plugs_j(s))) == s { let a = plugs_j(s)->Arr_0; let o = a.map_values(|x: JV| plug_f(x)); assert forall|i: int| 0 <= i < o.len() implies #[trigger] o[i] == Some(s[i]) by { axiom_plug(s[i]); } lemma_opts_all(o, s); }
/// two documents merged, the second on top
pub uninterp spec fn deep(a: JV, b: JV) -> JV;
#[verifier::external_body] pub fn json_deep_merge(a: &Value, b: &Value) -> (r: Value) ensures jv(r) == deep(jv(*a), jv(*b)) { unimplemented!() }
pub open spec fn conf_merge(a: JO, b: JO) -> JO { Map::new(a.dom().union(b.dom()), |k: Seq<char>| if b.dom().contains(k) { if a.dom().contains(k) { deep(a[k], b[k]) } else { b[k] } } else { a[k] }) }
pub open spec fn same_plugin(a: PLQ, b: PLQ) -> bool { a.name == b.name && a.version == b.version }
/// the entry of the plugin that is changed
pub open spec fn plug_at(s: Seq<PLQ>, p: PLQ, i: int) -> bool { 0 <= i < s.len() && same_plugin(s[i], p) && forall|j: int| 0 <= j < i ==> !same_plugin(#[trigger] s[j], p) }
pub open spec fn plug_added(s: Seq<PLQ>, p: PLQ, t: Seq<PLQ>) -> bool {
  if exists|i: int| plug_at(s, p, i) { exists|i: int| #[trigger] plug_at(s, p, i) && t == s.update(i, PLQ { configuration: conf_merge(s[i].configuration, p.configuration), ..s[i] }) } else { t == s.push(p) } }
pub proof fn lemma_first_plugin(s: Seq<PLQ>, p: PLQ, k: int) -> (j: int) requires 0 <= k < s.len(), same_plugin(s[k], p) ensures plug_at(s, p, j), 0 <= j <= k decreases k {
  if forall|i: int| 0 <= i < k ==> !same_plugin(#[trigger] s[i], p) { k } else { let i = choose|i: int| 0 <= i < k && same_plugin(#[trigger] s[i], p); lemma_first_plugin(s, p, i) } }
/// the first item that passes the test
#[verifier::external_body] pub fn vx_find_mut<'a, T, F: Fn(&T) -> bool>(v: &'a mut Vec<T>, f: F) -> (r: Option<&'a mut T>) requires forall|x: &T| f.requires((x,))
  ensures r is None ==> final(v)@ == old(v)@ && forall|i: int| 0 <= i < old(v)@.len() ==> f.ensures((&#[trigger] old(v)@[i],), false),
    r matches Some(p) ==> exists|i: int| 0 <= i < old(v)@.len() && f.ensures((&old(v)@[i],), true) && *p == old(v)@[i] && final(v)@ == (#[trigger] old(v)@.update(i, *final(p))) && forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] old(v)@[j],), false) { unimplemented!() }
// ---- interactions, by the contracts of their own functions ----
#[verifier::external_body] pub struct V4I { _p: () }
#[verifier::external_body] pub struct RequestResponseInteraction { _p: () }
#[verifier::external_body] pub struct Message { _p: () }
pub ghost struct IV { x: int }
pub ghost struct RV { x: int }
pub ghost struct MV { x: int }
/// a boxed interaction of any kind
pub enum DynI { V4(V4I), Rr(RequestResponseInteraction), Msg(Message) }
pub ghost enum DV { V4(IV), Rr(RV), Msg(MV) }
pub uninterp spec fn iv(i: V4I) -> IV;
pub uninterp spec fn rv(i: RequestResponseInteraction) -> RV;
pub uninterp spec fn mv(i: Message) -> MV;
pub open spec fn dv(d: DynI) -> DV { match d { DynI::V4(i) => DV::V4(iv(i)), DynI::Rr(i) => DV::Rr(rv(i)), DynI::Msg(i) => DV::Msg(mv(i)) } }
pub open spec fn ivs(s: Seq<V4I>) -> Seq<IV> { s.map_values(|i: V4I| iv(i)) }
pub open spec fn rvs(s: Seq<RequestResponseInteraction>) -> Seq<RV> { s.map_values(|i: RequestResponseInteraction| rv(i)) }
pub open spec fn mvs(s: Seq<Message>) -> Seq<MV> { s.map_values(|i: Message| mv(i)) }
pub open spec fn dvs(s: Seq<DynI>) -> Seq<DV> { s.map_values(|i: DynI| dv(i)) }
pub uninterp spec fn kind(i: IV) -> V4InteractionType;
pub uninterp spec fn desc(i: IV) -> Seq<char>;
pub uninterp spec fn ident(i: IV) -> Option<Seq<char>>;
pub uninterp spec fn ij(i: IV) -> JV;
pub uninterp spec fn rrj(i: RV, s: PactSpecification) -> JV;
pub uninterp spec fn msgj(i: MV, s: PactSpecification) -> JV;
pub uninterp spec fn as_rr(d: DV) -> Option<RV>;
pub uninterp spec fn as_msg(d: DV) -> Option<MV>;
pub uninterp spec fn as_v4(d: DV) -> Option<IV>;
impl Clone for V4I { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures iv(r) == iv(*self) { unimplemented!() } }
impl Clone for RequestResponseInteraction { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures rv(r) == rv(*self) { unimplemented!() } }
impl Clone for Message { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures mv(r) == mv(*self) { unimplemented!() } }
impl V4I {
  #[verifier::external_body] pub fn v4_type(&self) -> (r: V4InteractionType) ensures r == kind(iv(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn description(&self) -> (r: String) ensures r@ == desc(iv(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn id(&self) -> (r: Option<String>) ensures r is Some == ident(iv(*self)) is Some, r is Some ==> Some(r->0@) == ident(iv(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn to_json(&self) -> (r: Value) ensures jv(r) == ij(iv(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn type_of(&self) -> (r: String) { unimplemented!() }
  #[verifier::external_body] pub fn as_request_response(&self) -> (r: Option<RequestResponseInteraction>) ensures r is Some == as_rr(DV::V4(iv(*self))) is Some, r is Some ==> Some(rv(r->0)) == as_rr(DV::V4(iv(*self))) { unimplemented!() }
  #[verifier::external_body] pub fn as_message(&self) -> (r: Option<Message>) ensures r is Some == as_msg(DV::V4(iv(*self))) is Some, r is Some ==> Some(mv(r->0)) == as_msg(DV::V4(iv(*self))) { unimplemented!() }
  pub fn boxed(&self) -> (r: DynI) ensures dv(r) == DV::V4(iv(*self)) { DynI::V4(self.clone()) }
}
impl RequestResponseInteraction {
  #[verifier::external_body] pub fn to_json(&self, s: &PactSpecification) -> (r: Value) ensures jv(r) == rrj(rv(*self), *s) { unimplemented!() }
  #[verifier::external_body] pub fn as_v4(&self) -> (r: Option<V4I>) ensures r is Some == as_v4(DV::Rr(rv(*self))) is Some, r is Some ==> Some(iv(r->0)) == as_v4(DV::Rr(rv(*self))) { unimplemented!() }
  pub fn boxed(&self) -> (r: DynI) ensures dv(r) == DV::Rr(rv(*self)) { DynI::Rr(self.clone()) }
}
impl Message {
  #[verifier::external_body] pub fn to_json(&self, s: &PactSpecification) -> (r: Value) ensures jv(r) == msgj(mv(*self), *s) { unimplemented!() }
  #[verifier::external_body] pub fn as_v4(&self) -> (r: Option<V4I>) ensures r is Some == as_v4(DV::Msg(mv(*self))) is Some, r is Some ==> Some(iv(r->0)) == as_v4(DV::Msg(mv(*self))) { unimplemented!() }
  #[verifier::external_body] pub fn from_json(index: usize, v: &Value, s: &PactSpecification) -> (r: Result<Message, VxError>) ensures r is Ok == msg_f(index, jv(*v), *s) is Some, r is Ok ==> Some(mv(r->Ok_0)) == msg_f(index, jv(*v), *s) { unimplemented!() }
  pub fn boxed(&self) -> (r: DynI) ensures dv(r) == DV::Msg(mv(*self)) { DynI::Msg(self.clone()) }
}
impl DynI {
  #[verifier::external_body] pub fn as_v4(&self) -> (r: Option<V4I>) ensures r is Some == as_v4(dv(*self)) is Some, r is Some ==> Some(iv(r->0)) == as_v4(dv(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn as_request_response(&self) -> (r: Option<RequestResponseInteraction>) ensures r is Some == as_rr(dv(*self)) is Some, r is Some ==> Some(rv(r->0)) == as_rr(dv(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn as_message(&self) -> (r: Option<Message>) ensures r is Some == as_msg(dv(*self)) is Some, r is Some ==> Some(mv(r->0)) == as_msg(dv(*self)) { unimplemented!() }
}
/// interactions_from_json, parse_interactions: functions of the list they read
pub uninterp spec fn ints_f(v: Option<JV>) -> Option<Seq<IV>>;
pub uninterp spec fn rrs_f(v: Option<JV>, s: PactSpecification) -> Option<Seq<RV>>;
pub uninterp spec fn msg_f(index: usize, v: JV, s: PactSpecification) -> Option<MV>;
#[verifier::external_body] pub fn interactions_from_json(v: &Value, source: &str) -> (r: Result<Vec<V4I>, VxError>) ensures r is Ok == ints_f(jget(jv(*v), "interactions"@)) is Some, r is Ok ==> Some(ivs(r->Ok_0@)) == ints_f(jget(jv(*v), "interactions"@)) { unimplemented!() }
#[verifier::external_body] pub fn parse_interactions(v: &Value, s: PactSpecification) -> (r: Result<Vec<RequestResponseInteraction>, VxError>) ensures r is Ok == rrs_f(jget(jv(*v), "interactions"@), s) is Some, r is Ok ==> Some(rvs(r->Ok_0@)) == rrs_f(jget(jv(*v), "interactions"@), s) { unimplemented!() }
/// the interactions in the order of their descriptions; those with the same description keep theirs
pub uninterp spec fn by_desc(s: Seq<IV>) -> Seq<IV>;
pub open spec fn order_of(s: Seq<IV>, r: Seq<IV>, p: Seq<int>) -> bool { p.len() == s.len() && r.len() == s.len() && p.no_duplicates() && (forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < s.len() && r[i] == s[p[i]]) && (forall|i: int, j: int| 0 <= i < j < p.len() ==> str_le(desc(#[trigger] r[i]), desc(#[trigger] r[j])) && (desc(r[i]) == desc(r[j]) ==> p[i] < p[j])) }
pub axiom fn axiom_by_desc(s: Seq<IV>) ensures exists|p: Seq<int>| #[trigger] order_of(s, by_desc(s), p);
pub open spec fn vrefs(s: Seq<&V4I>) -> Seq<IV> { s.map_values(|i: &V4I| iv(*i)) }
#[verifier::external_body] pub fn vx_sort_by_description<'a>(v: Vec<&'a V4I>) -> (r: Vec<&'a V4I>) ensures vrefs(r@) == by_desc(vrefs(v@)) { unimplemented!() }
/// the references an iteration over a list goes through
#[verifier::external_body] pub fn vx_int_refs<'a>(v: &'a Vec<V4I>) -> (r: Vec<&'a V4I>) ensures vrefs(r@) == ivs(v@) { unimplemented!() }
// ---- sets of kinds ----
#[verifier::external_body] #[verifier::reject_recursive_types(K)] pub struct HashSet<K> { _k: std::marker::PhantomData<K> }
impl<K> View for HashSet<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
impl HashSet<V4InteractionType> { #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<V4InteractionType>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: V4InteractionType) -> (r: bool) ensures final(self)@ == old(self)@.insert(k) { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() } }
impl VxCollect<V4InteractionType> for HashSet<V4InteractionType> { open spec fn added(&self, x: V4InteractionType, r: Self) -> bool { r@ == self@.insert(x) } open spec fn is_new(&self) -> bool { self@ == Set::<V4InteractionType>::empty() }
  fn vx_new() -> (r: Self) { HashSet::new() } fn vx_add(&mut self, x: V4InteractionType) { let _ = self.insert(x); } }
pub open spec fn mixed(s: Seq<IV>) -> bool { exists|i: int, j: int| 0 <= i < j < s.len() && kind(#[trigger] s[i]) != kind(#[trigger] s[j]) }
// ---- pacts ----
pub ghost struct V4P { pub consumer: Seq<char>, pub provider: Seq<char>, pub ints: Seq<IV>, pub meta: JO, pub plugins: Seq<PLQ> }
pub ghost struct RRP { pub consumer: Seq<char>, pub provider: Seq<char>, pub ints: Seq<RV>, pub meta: MD, pub spec: PactSpecification }
pub ghost struct MSP { pub consumer: Seq<char>, pub provider: Seq<char>, pub ints: Seq<MV>, pub meta: MD, pub spec: PactSpecification }
pub open spec fn v4p(p: V4Pact) -> V4P { V4P { consumer: p.consumer.name@, provider: p.provider.name@, ints: ivs(p.interactions@), meta: mdv(p.metadata), plugins: plqs(p.plugin_data@) } }
pub open spec fn rrp(p: RequestResponsePact) -> RRP { RRP { consumer: p.consumer.name@, provider: p.provider.name@, ints: rvs(p.interactions@), meta: mdt(p.metadata), spec: p.specification_version } }
pub open spec fn msp(p: MessagePact) -> MSP { MSP { consumer: p.consumer.name@, provider: p.provider.name@, ints: mvs(p.messages@), meta: mdt(p.metadata), spec: p.specification_version } }
impl Clone for V4Pact { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures v4p(r) == v4p(*self) { unimplemented!() } }
impl Clone for RequestResponsePact { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures rrp(r) == rrp(*self) { unimplemented!() } }
impl Clone for MessagePact { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures msp(r) == msp(*self) { unimplemented!() } }
impl Clone for Consumer { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.name@ == self.name@ { unimplemented!() } }
impl Clone for Provider { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.name@ == self.name@ { unimplemented!() } }
pub open spec fn v4_md(p: V4P) -> JO { opt_ins(stamped(p.meta, PactSpecification::V4), "plugins"@, p.plugins.len() > 0, plugs_j(p.plugins)) }
pub open spec fn pact_j(c: Seq<char>, p: Seq<char>, k: Seq<char>, i: JV, m: JO) -> JV { JV::Obj(Map::<Seq<char>, JV>::empty().insert("consumer"@, named_j(c)).insert("provider"@, named_j(p)).insert(k, i).insert("metadata"@, JV::Obj(m))) }
/// the V4 form: the interactions in the order of their descriptions
pub open spec fn v4p_j(p: V4P) -> JV { pact_j(p.consumer, p.provider, "interactions"@, JV::Arr(by_desc(p.ints).map_values(|i: IV| ij(i))), v4_md(p)) }
pub open spec fn v4p_f(v: JV) -> Option<V4P> { match ints_f(jget(v, "interactions"@)) { Some(i) => Some(V4P { consumer: party(v, "consumer"@), provider: party(v, "provider"@), ints: i, meta: jmeta(v).remove("plugins"@), plugins: plugs_of(jget(JV::Obj(jmeta(v)), "plugins"@)) }), None => None } }
/// what reading a written V4 pact gives: everything but the order of the interactions and the stamp in the metadata as it was
pub proof fn theorem_v4_pact(p: V4P) requires ints_f(Some(JV::Arr(by_desc(p.ints).map_values(|i: IV| ij(i))))) is Some, !p.meta.dom().contains("plugins"@)
  ensures v4p_f(v4p_j(p)) == Some(V4P { ints: ints_f(Some(JV::Arr(by_desc(p.ints).map_values(|i: IV| ij(i)))))->0, meta: stamped(p.meta, PactSpecification::V4), ..p }), one_name(p.meta) ==> ver_of(meta_f(v4p_j(p))) is V4 {
  lemma_md(); let v = v4p_j(p); let m = v4_md(p); assert(jget(v, "metadata"@) == Some(JV::Obj(m))); assert(jmeta(v) == m);
  assert(jget(v, "consumer"@) == Some(named_j(p.consumer))); assert(jget(v, "provider"@) == Some(named_j(p.provider))); assert(named_j(p.consumer)->Obj_0["name"@] == JV::Str(p.consumer)); assert(named_j(p.provider)->Obj_0["name"@] == JV::Str(p.provider));
  assert(jget(v, "interactions"@) == Some(v->Obj_0["interactions"@]));
  let s = stamped(p.meta, PactSpecification::V4); lemma_renamed(p.meta); assert(!s.dom().contains("plugins"@)) by { assert(!is_old("plugins"@)); assert(old_of("plugins"@) == "plugins"@); }
  if p.plugins.len() > 0 { assert(m.remove("plugins"@) =~= s); assert(jget(JV::Obj(m), "plugins"@) == Some(plugs_j(p.plugins))); theorem_plugins(p.plugins); } else { assert(m.remove("plugins"@) =~= s); assert(p.plugins =~= seq![]); }
  assert(!is_old("plugins"@)); theorem_stamp(p.meta, PactSpecification::V4, v);
}
/// a V1 to V3 pact
pub open spec fn rrp_j(p: RRP, s: PactSpecification) -> JV { pact_j(p.consumer, p.provider, "interactions"@, JV::Arr(p.ints.map_values(|i: RV| rrj(i, s))), stamped(md_jv(p.meta), s)) }
pub open spec fn rrp_f(v: JV) -> Option<RRP> { let s = ver_of(meta_f(v)); if s is V4 { match v4p_f(v) { Some(p) => Some(to_rr(p)), None => None } } else { match rrs_f(jget(v, "interactions"@), s) { Some(i) => Some(RRP { consumer: party(v, "consumer"@), provider: party(v, "provider"@), ints: i, meta: meta_f(v), spec: s }), None => None } } }
pub open spec fn msgs_f(o: Option<JV>, s: PactSpecification) -> Option<Seq<MV>> { match o { Some(JV::Arr(a)) => if forall|i: int| 0 <= i < a.len() ==> msg_f(i as usize, #[trigger] a[i], s) is Some { Some(Seq::new(a.len(), |i: int| msg_f(i as usize, a[i], s)->0)) } else { None }, Some(_) => None, None => Some(seq![]) } }
pub open spec fn msp_j(p: MSP) -> JV { pact_j(p.consumer, p.provider, "messages"@, JV::Arr(p.ints.map_values(|i: MV| msgj(i, PactSpecification::V3))), stamped(md_jv(p.meta), PactSpecification::V3)) }
pub open spec fn msp_f(v: JV) -> Option<MSP> { let s = ver_of(meta_f(v)); match msgs_f(jget(v, "messages"@), s) { Some(i) => Some(MSP { consumer: party(v, "consumer"@), provider: party(v, "provider"@), ints: i, meta: meta_f(v), spec: s }), None => None } }
pub proof fn lemma_pact_j(c: Seq<char>, p: Seq<char>, k: Seq<char>, i: JV, m: JO) requires k == "interactions"@ || k == "messages"@ ensures party(pact_j(c, p, k, i, m), "consumer"@) == c, party(pact_j(c, p, k, i, m), "provider"@) == p, jget(pact_j(c, p, k, i, m), k) == Some(i), jmeta(pact_j(c, p, k, i, m)) == m, jget(pact_j(c, p, k, i, m), "metadata"@) == Some(JV::Obj(m)) {
  lemma_md(); let v = pact_j(c, p, k, i, m); assert(jget(v, "metadata"@) == Some(JV::Obj(m))); assert(jget(v, "consumer"@) == Some(named_j(c))); assert(jget(v, "provider"@) == Some(named_j(p))); assert(named_j(c)->Obj_0["name"@] == JV::Str(c)); assert(named_j(p)->Obj_0["name"@] == JV::Str(p)); }
/// the metadata with the stamp, as text
pub open spec fn stamped_t(m: MD, s: PactSpecification) -> MD { let n = renamed(m).insert("pactSpecification"@, Map::<Seq<char>, Seq<char>>::empty().insert("version"@, version_text(s))); n.insert("pactRust"@, (if n.dom().contains("pactRust"@) { n["pactRust"@] } else { Map::empty() }).insert("models"@, rust_version())) }
pub proof fn lemma_text_of(t: TM) ensures text_of(tj(t)) == t { assert(text_of(tj(t)) =~= t); }
pub proof fn theorem_stamped_t(m: MD, s: PactSpecification, v: JV) requires one_name(m), jmeta(v) == stamped(md_jv(m), s), jget(v, "metadata"@) == Some(JV::Obj(jmeta(v))) ensures meta_f(v) == stamped_t(m, s), ver_of(meta_f(v)) == s {
  lemma_md(); let j = md_jv(m); lemma_renamed(m); lemma_renamed(j); let n = jmeta(v); lemma_renamed(n); assert(forall|k: Seq<char>| n.dom().contains(k) ==> !is_old(k)); assert(renamed(n) == n); theorem_stamp(j, s, v);
  let f = meta_f(v); let t = stamped_t(m, s);
  assert(f.dom() =~= t.dom());
  assert forall|k: Seq<char>| #[trigger] f.dom().contains(k) implies f[k] =~= t[k] by {
    if k == "pactRust"@ { let o = if renamed(m).dom().contains(k) { renamed(m)[k] } else { Map::empty() }; assert(tj(Map::<Seq<char>, Seq<char>>::empty())->Obj_0 =~= Map::<Seq<char>, JV>::empty()); assert(n[k] == with_models(tj(o))); assert(text_of(n[k]) =~= o.insert("models"@, rust_version())); }
    else if k == "pactSpecification"@ { assert(text_of(n[k]) =~= t[k]); }
    else { assert(n[k] == tj(renamed(m)[k])); lemma_text_of(renamed(m)[k]); } }
  assert(f =~= t); }
pub proof fn theorem_rr_pact(p: RRP, s: PactSpecification) requires !(s is V4), one_name(p.meta), rrs_f(Some(JV::Arr(p.ints.map_values(|i: RV| rrj(i, s)))), s) is Some
  ensures rrp_f(rrp_j(p, s)) == Some(RRP { ints: rrs_f(Some(JV::Arr(p.ints.map_values(|i: RV| rrj(i, s)))), s)->0, meta: stamped_t(p.meta, s), spec: s, ..p }) {
  let m = stamped(md_jv(p.meta), s); lemma_pact_j(p.consumer, p.provider, "interactions"@, JV::Arr(p.ints.map_values(|i: RV| rrj(i, s))), m); theorem_stamped_t(p.meta, s, rrp_j(p, s)); }
pub proof fn theorem_message_pact(p: MSP) requires one_name(p.meta), msgs_f(Some(JV::Arr(p.ints.map_values(|i: MV| msgj(i, PactSpecification::V3)))), PactSpecification::V3) is Some
  ensures msp_f(msp_j(p)) == Some(MSP { ints: msgs_f(Some(JV::Arr(p.ints.map_values(|i: MV| msgj(i, PactSpecification::V3)))), PactSpecification::V3)->0, meta: stamped_t(p.meta, PactSpecification::V3), spec: PactSpecification::V3, ..p }) {
  let m = stamped(md_jv(p.meta), PactSpecification::V3); lemma_pact_j(p.consumer, p.provider, "messages"@, JV::Arr(p.ints.map_values(|i: MV| msgj(i, PactSpecification::V3))), m); theorem_stamped_t(p.meta, PactSpecification::V3, msp_j(p)); }
// ---- one form as another ----
pub open spec fn down_t(v: JV) -> TM { match v { JV::Obj(m) => m.map_values(|x: JV| jtext(x)), _ => Map::empty() } }
/// the attributes of the metadata that are objects, as text
pub open spec fn down(m: JO) -> MD { Map::new(m.dom().filter(|k: Seq<char>| m[k] is Obj), |k: Seq<char>| down_t(m[k])) }
pub open spec fn down_rr(m: JO) -> MD { if m.dom().contains("pactSpecification"@) { down(m).insert("pactSpecification"@, Map::<Seq<char>, Seq<char>>::empty().insert("version"@, version_text(PactSpecification::V3))) } else { down(m) } }
pub open spec fn to_rr(p: V4P) -> RRP { RRP { consumer: p.consumer, provider: p.provider, ints: opts(p.ints.map_values(|i: IV| as_rr(DV::V4(i)))), meta: down_rr(p.meta), spec: PactSpecification::V3 } }
pub open spec fn to_msg(p: V4P) -> MSP { MSP { consumer: p.consumer, provider: p.provider, ints: opts(p.ints.map_values(|i: IV| as_msg(DV::V4(i)))), meta: down(p.meta), spec: PactSpecification::V3 } }
pub open spec fn rr_to_v4(p: RRP) -> V4P { V4P { consumer: p.consumer, provider: p.provider, ints: opts(p.ints.map_values(|i: RV| as_v4(DV::Rr(i)))), meta: md_jv(p.meta), plugins: seq![] } }
pub open spec fn msg_to_v4(p: MSP) -> V4P { V4P { consumer: p.consumer, provider: p.provider, ints: opts(p.ints.map_values(|i: MV| as_v4(DV::Msg(i)))), meta: md_jv(p.meta), plugins: seq![] } }
/// what a V4 pact is written as for a specification: one kind of interaction only, before V4
pub open spec fn v4p_out(p: V4P, s: PactSpecification) -> Option<JV> { if s is V4 { Some(v4p_j(p)) } else if mixed(p.ints) { None } else if p.ints.len() == 0 || has_kind(p.ints, V4InteractionType::Synchronous_HTTP) { Some(rrp_j(to_rr(p), s)) } else if has_kind(p.ints, V4InteractionType::Asynchronous_Messages) { if s is V3 { Some(msp_j(to_msg(p))) } else { None } } else { None } }
pub open spec fn has_kind(s: Seq<IV>, t: V4InteractionType) -> bool { exists|i: int| 0 <= i < s.len() && kind(#[trigger] s[i]) == t }
pub open spec fn rrp_out(p: RRP, s: PactSpecification) -> Option<JV> { if s is V4 { Some(v4p_j(rr_to_v4(p))) } else { Some(rrp_j(p, s)) } }
pub open spec fn msp_out(p: MSP, s: PactSpecification) -> Option<JV> { if s is V3 { Some(msp_j(p)) } else if s is V4 { Some(v4p_j(msg_to_v4(p))) } else { None } }
/// a boxed pact of any kind
pub enum AnyPact { V4(V4Pact), Rr(RequestResponsePact), Msg(MessagePact) }
pub ghost enum AP { V4(V4P), Rr(RRP), Msg(MSP) }
pub open spec fn ap(p: AnyPact) -> AP { match p { AnyPact::V4(p) => AP::V4(v4p(p)), AnyPact::Rr(p) => AP::Rr(rrp(p)), AnyPact::Msg(p) => AP::Msg(msp(p)) } }
pub trait VxPact: Sized { spec fn any(self) -> AP; fn vx_box(self) -> (r: AnyPact) ensures ap(r) == self.any(); }
impl VxPact for V4Pact { open spec fn any(self) -> AP { AP::V4(v4p(self)) } fn vx_box(self) -> (r: AnyPact) { AnyPact::V4(self) } }
impl VxPact for RequestResponsePact { open spec fn any(self) -> AP { AP::Rr(rrp(self)) } fn vx_box(self) -> (r: AnyPact) { AnyPact::Rr(self) } }
impl VxPact for MessagePact { open spec fn any(self) -> AP { AP::Msg(msp(self)) } fn vx_box(self) -> (r: AnyPact) { AnyPact::Msg(self) } }
pub fn vx_box<P: VxPact>(p: P) -> (r: AnyPact) ensures ap(r) == p.any() { p.vx_box() }
/// which kind of pact a document is
pub open spec fn any_f(v: JV) -> Option<AP> { if !(v is Obj) { None } else if ver_of(meta_f(v)) is V4 { match v4p_f(v) { Some(p) => Some(AP::V4(p)), None => None } } else if v->Obj_0.dom().contains("messages"@) { match msp_f(v) { Some(p) => Some(AP::Msg(p)), None => None } } else { match rrp_f(v) { Some(p) => Some(AP::Rr(p)), None => None } } }
/// a library version recorded in the metadata
pub open spec fn md_versioned(m: JO, k: Seq<char>, v: Seq<char>) -> JO { if m.dom().contains("pactRust"@) { match m["pactRust"@] { JV::Obj(o) => m.insert("pactRust"@, JV::Obj(o.insert(k, JV::Str(v)))), x => m } } else { m.insert("pactRust"@, JV::Obj(Map::<Seq<char>, JV>::empty().insert(k, JV::Str(v)))) } }
pub open spec fn md_versioned_t(m: MD, k: Seq<char>, v: Seq<char>) -> MD { m.insert("pactRust"@, (if m.dom().contains("pactRust"@) { m["pactRust"@] } else { Map::empty() }).insert(k, v)) }
/// `==` of texts and of kinds of interactions
pub trait VxSame { type Q; spec fn sq(&self) -> Self::Q; }
impl VxSame for str { type Q = Seq<char>; open spec fn sq(&self) -> Seq<char> { self@ } }
impl VxSame for String { type Q = Seq<char>; open spec fn sq(&self) -> Seq<char> { self@ } }
impl VxSame for V4InteractionType { type Q = V4InteractionType; open spec fn sq(&self) -> V4InteractionType { *self } }
impl<T: VxSame + ?Sized> VxSame for &T { type Q = T::Q; open spec fn sq(&self) -> T::Q { (**self).sq() } }
#[verifier::external_body] pub fn vx_eq<A: VxSame + ?Sized, B: VxSame<Q = A::Q> + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.sq() == b.sq()) { unimplemented!() }
/// the items of an iteration over a list
pub open spec fn its_of<T>(s: Seq<&T>, v: Seq<T>) -> bool { s.len() == v.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == v[i] }
pub open spec fn id_at(s: Seq<IV>, id: Seq<char>, i: int) -> bool { 0 <= i < s.len() && ident(s[i]) == Some(id) && forall|j: int| 0 <= j < i ==> ident(#[trigger] s[j]) != Some(id) }
pub proof fn lemma_kinds(s: Seq<IV>, k: Set<V4InteractionType>) requires forall|x: V4InteractionType| k.contains(x) == exists|i: int| 0 <= i < s.len() && kind(#[trigger] s[i]) == x ensures mixed(s) == (k.len() > 1) {
  if mixed(s) { let (i, j) = choose|i: int, j: int| 0 <= i < j < s.len() && kind(#[trigger] s[i]) != kind(#[trigger] s[j]); let a = kind(s[i]); let b = kind(s[j]); assert(k.contains(a) && k.contains(b)); assert(k.remove(a).contains(b)); if k.remove(a).len() == 0 { assert(k.remove(a) =~= Set::empty()); } }
  else { if k.len() > 1 { let a = k.choose(); assert(k.contains(a)); let r = k.remove(a); assert(r.len() > 0); let b = r.choose(); assert(k.contains(b) && a != b); let i = choose|i: int| 0 <= i < s.len() && kind(#[trigger] s[i]) == a; let j = choose|j: int| 0 <= j < s.len() && kind(#[trigger] s[j]) == b; if i < j { assert(mixed(s)); } else { assert(kind(s[j]) != kind(s[i])); assert(mixed(s)); } } } }
/// down: the entry of one attribute
pub open spec fn down_e(sp: bool, k: Seq<char>, v: JV) -> Option<TM> { if sp && k == "pactSpecification"@ { Some(Map::<Seq<char>, Seq<char>>::empty().insert("version"@, version_text(PactSpecification::V3))) } else { match v { JV::Obj(_) => Some(down_t(v)), _ => None } } }
pub open spec fn down_m(sp: bool, m: JO) -> MD { if sp { down_rr(m) } else { down(m) } }
pub open spec fn down_at(sp: bool, m: JO, t: MD, k: Seq<char>) -> bool { m.dom().contains(k) && down_e(sp, k, m[k]) == Some(t[k]) }
pub open spec fn down_part(sp: bool, m: JO, t: MD) -> bool { forall|k: Seq<char>| #[trigger] t.dom().contains(k) ==> down_at(sp, m, t, k) }
pub proof fn lemma_down(sp: bool, m: JO, t: MD) requires down_part(sp, m, t), forall|k: Seq<char>| #[trigger] m.dom().contains(k) && down_e(sp, k, m[k]) is Some ==> t.dom().contains(k) ensures t == down_m(sp, m) {
  let d = down_m(sp, m); assert forall|k: Seq<char>| t.dom().contains(k) == d.dom().contains(k) by { if t.dom().contains(k) { assert(down_at(sp, m, t, k)); } } assert(t =~= d); }
pub proof fn lemma_down_names(m: BTreeMap<String, Value>) ensures one_name(mdv(m)) ==> one_name(down(mdv(m))) && one_name(down_rr(mdv(m))) { lemma_md(); }
}
