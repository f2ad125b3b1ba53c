// ---- interactions as they are written and read: the V4 form ----
verus! {
impl Default for Value { #[verifier::external_body] fn default() -> (r: Value) ensures jv(r) is Null { unimplemented!() } }
impl<K: VxKey, V> Default for HashMap<K, V> { fn default() -> (r: HashMap<K, V>) ensures r@ == Map::<K::KV, (K, V)>::empty() { HashMap::new() } }
#[verifier::external_body] pub fn json_to_string(v: &Value) -> (r: String) ensures r@ == jtext(jv(*v)) { unimplemented!() }
/// null, an empty text, an empty list or an empty object
pub open spec fn jempty(v: JV) -> bool { match v { JV::Null => true, JV::Bool(_) => false, JV::Num(_) => false, JV::Str(s) => s.len() == 0, JV::Arr(a) => a.len() == 0, JV::Obj(o) => o.dom() =~= Set::empty() } }
impl JMap { #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (jm(*self).dom() =~= Set::empty()) { unimplemented!() } }
// ---- provider states ----
pub ghost struct PSQ { pub name: Seq<char>, pub params: JO }
pub open spec fn psq(p: ProviderState) -> PSQ { PSQ { name: p.name@, params: meta(p.params) } }
pub open spec fn states(s: Seq<ProviderState>) -> Seq<PSQ> { s.map_values(|p: ProviderState| psq(p)) }
pub open spec fn jobj(v: JV, k: Seq<char>) -> JO { match jget(v, k) { Some(JV::Obj(m)) => m, _ => Map::empty() } }
pub open spec fn state_f(v: JV) -> PSQ { PSQ { name: jname(v, "name"@, "unknown provider states"@), params: jobj(v, "params"@) } }
pub open spec fn one_state(n: Seq<char>) -> Seq<PSQ> { seq![PSQ { name: n, params: Map::empty() }] }
pub open spec fn states_f(v: JV) -> Seq<PSQ> { match jget(v, "providerStates"@) { Some(JV::Arr(a)) => a.map_values(|x: JV| state_f(x)), Some(_) => seq![],
  None => match (match jget(v, "providerState"@) { Some(x) => Some(x), None => jget(v, "provider_state"@) }) { Some(JV::Str(s)) => if s.len() == 0 { seq![] } else { one_state(s) }, Some(JV::Null) => seq![], Some(x) => one_state(jprint(x)), None => seq![] } } }
pub open spec fn state_j(p: PSQ) -> JV { JV::Obj(opt_ins(Map::<Seq<char>, JV>::empty().insert("name"@, JV::Str(p.name)), "params"@, !(p.params.dom() =~= Set::empty()), JV::Obj(p.params))) }
pub open spec fn states_j(s: Seq<PSQ>) -> JV { JV::Arr(s.map_values(|p: PSQ| state_j(p))) }
pub proof fn theorem_state(p: PSQ) ensures state_f(state_j(p)) == p {
  reveal_strlit("name"); reveal_strlit("params"); assert("name"@.len() == 4 && "params"@.len() == 6); let o = state_j(p)->Obj_0; assert(o["name"@] == JV::Str(p.name));
  if p.params.dom() =~= Set::empty() { assert(p.params =~= Map::empty()); assert(!o.dom().contains("params"@)); } else { assert(o["params"@] == JV::Obj(p.params)); } }
pub proof fn theorem_states(v: JV, s: Seq<PSQ>) requires jget(v, "providerStates"@) == Some(states_j(s)) ensures states_f(v) == s {
  let a = states_j(s)->Arr_0; assert forall|i: int| 0 <= i < s.len() implies state_f(#[trigger] a[i]) == s[i] by { theorem_state(s[i]); } assert(states_f(v) =~= s); }
// ---- markup ----
pub ghost struct MKQ { pub markup: Seq<char>, pub kind: Seq<char> }
pub open spec fn mkq(m: InteractionMarkup) -> MKQ { MKQ { markup: m.markup@, kind: m.markup_type@ } }
pub open spec fn no_markup() -> MKQ { MKQ { markup: seq![], kind: seq![] } }
impl Default for InteractionMarkup { #[verifier::external_body] fn default() -> (r: InteractionMarkup) ensures mkq(r) == no_markup() { unimplemented!() } }
pub open spec fn jtexto(v: Option<JV>) -> Seq<char> { match v { Some(x) => jtext(x), None => seq![] } }
pub open spec fn markup_f(v: JV) -> MKQ { if v is Obj { MKQ { markup: jtexto(jget(v, "markup"@)), kind: jtexto(jget(v, "markupType"@)) } } else { no_markup() } }
pub open spec fn markup_j(m: MKQ) -> JV { JV::Obj(Map::<Seq<char>, JV>::empty().insert("markup"@, JV::Str(m.markup)).insert("markupType"@, JV::Str(m.kind))) }
pub proof fn theorem_markup(m: MKQ) ensures markup_f(markup_j(m)) == m {
  reveal_strlit("markup"); reveal_strlit("markupType"); assert("markup"@.len() == 6 && "markupType"@.len() == 10); let o = markup_j(m)->Obj_0; assert(o["markup"@] == JV::Str(m.markup)); }
// ---- plugin configuration ----
pub open spec fn pcq(m: HashMap<String, HashMap<String, Value>>) -> Map<Seq<char>, JO> { m@.map_values(|e: (String, HashMap<String, Value>)| meta(e.1)) }
pub open spec fn oobj(v: JV) -> JO { match v { JV::Obj(m) => m, _ => Map::empty() } }
pub open spec fn plugin_m(m: JO) -> Map<Seq<char>, JO> { Map::new(m.dom(), |k: Seq<char>| oobj(m[k])) }
pub open spec fn plugin_f(v: JV) -> Map<Seq<char>, JO> { plugin_m(jobj(v, "pluginConfiguration"@)) }
pub open spec fn plugin_j(m: Map<Seq<char>, JO>) -> JV { JV::Obj(m.map_values(|o: JO| JV::Obj(o))) }
pub proof fn theorem_plugin(v: JV, m: Map<Seq<char>, JO>) requires jget(v, "pluginConfiguration"@) == Some(plugin_j(m)) ensures plugin_f(v) == m { assert(plugin_f(v) =~= m); }
impl VxCollect<(String, Value)> for Value { open spec fn added(&self, x: (String, Value), r: Self) -> bool { *self is Object ==> r is Object && jm(r->Object_0) == jm(self->Object_0).insert(x.0@, jv(x.1)) } open spec fn is_new(&self) -> bool { *self is Object && jm(self->Object_0) == Map::<Seq<char>, JV>::empty() }
  fn vx_new() -> (r: Self) { Value::Object(JMap::new()) } fn vx_add(&mut self, x: (String, Value)) { match self { Value::Object(m) => { let _ = m.insert(x.0, x.1); } _ => {} } } }
pub open spec fn vobj(v: Value) -> JO { jm(v->Object_0) }
// ---- what the three kinds of interaction share ----
pub ghost struct IQ { pub id: Option<Seq<char>>, pub key: Option<Seq<char>>, pub description: Seq<char>, pub states: Seq<PSQ>, pub comments: JO, pub pending: bool, pub plugin: Map<Seq<char>, JO>, pub markup: MKQ, pub transport: Option<Seq<char>> }
pub open spec fn sto(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
pub open spec fn jtexts(v: Option<JV>) -> Option<Seq<char>> { match v { Some(x) => Some(jtext(x)), None => None } }
pub open spec fn jbool(v: JV) -> bool { v matches JV::Bool(b) && b }
impl Value { pub fn as_bool(&self) -> (r: Option<bool>) ensures r == (match jv(*self) { JV::Bool(b) => Some(b), _ => None }) { broadcast use axiom_jv; match self { Value::Bool(b) => Some(*b), _ => None } } }
pub open spec fn common_f(v: JV, index: usize) -> IQ { IQ { id: jtexts(jget(v, "_id"@)), key: jtexts(jget(v, "key"@)), description: jname(v, "description"@, "Interaction "@ + dec(index as nat)), states: states_f(v), comments: jobj(v, "comments"@),
  pending: match jget(v, "pending"@) { Some(x) => jbool(x), None => false }, plugin: plugin_f(v), markup: match jget(v, "interactionMarkup"@) { Some(x) => markup_f(x), None => no_markup() }, transport: match jget(v, "transport"@) { Some(x) => Some(hitem(x)), None => None } } }
/// the comments that are written
pub open spec fn kept(m: JO) -> JO { Map::new(m.dom().filter(|k: Seq<char>| !jempty(m[k])), |k: Seq<char>| m[k]) }
pub open spec fn no_keys<V>(m: Map<Seq<char>, V>) -> bool { m.dom() =~= Set::empty() }
pub open spec fn common_j(m: JO, c: IQ) -> JO {
  opt_ins(opt_ins(opt_ins(opt_ins(opt_ins(opt_ins(m.insert("description"@, JV::Str(c.description)).insert("pending"@, JV::Bool(c.pending)),
    "key"@, c.key is Some, JV::Str(c.key->0)), "providerStates"@, c.states.len() > 0, states_j(c.states)), "comments"@, !no_keys(kept(c.comments)), JV::Obj(kept(c.comments))),
    "pluginConfiguration"@, !no_keys(c.plugin), plugin_j(c.plugin)), "interactionMarkup"@, c.markup.markup.len() > 0, markup_j(c.markup)), "transport"@, c.transport is Some, JV::Str(c.transport->0)) }
pub fn vx_write_str(f: &mut String, s: &str) -> (r: Result<(), VxError>) ensures r is Ok, final(f)@ == old(f)@ + s@ { f.push_str(s); Ok(()) }
pub open spec fn type_text(t: V4InteractionType) -> Seq<char> { match t { V4InteractionType::Synchronous_HTTP => "Synchronous/HTTP"@, V4InteractionType::Asynchronous_Messages => "Asynchronous/Messages"@, V4InteractionType::Synchronous_Messages => "Synchronous/Messages"@ } }
pub open spec fn type_of_text(s: Seq<char>) -> Option<V4InteractionType> { if s == "Synchronous/HTTP"@ { Some(V4InteractionType::Synchronous_HTTP) } else if s == "Asynchronous/Messages"@ { Some(V4InteractionType::Asynchronous_Messages) } else if s == "Synchronous/Messages"@ { Some(V4InteractionType::Synchronous_Messages) } else { None } }
pub proof fn theorem_type(t: V4InteractionType) ensures type_of_text(type_text(t)) == Some(t) {
  reveal_strlit("Synchronous/HTTP"); reveal_strlit("Asynchronous/Messages"); reveal_strlit("Synchronous/Messages"); assert("Synchronous/HTTP"@.len() == 16 && "Asynchronous/Messages"@.len() == 21 && "Synchronous/Messages"@.len() == 20); }
impl V4InteractionType { pub fn to_string(&self) -> (r: String) ensures r@ == type_text(*self) { let mut s = String::new(); let r = type_fmt(self, &mut s); proof { assert(Seq::<char>::empty() + type_text(*self) =~= type_text(*self)); } s } }
/// the attribute names differ
pub proof fn lemma_common() ensures names_differ() {
  reveal_strlit("type"); reveal_strlit("description"); reveal_strlit("request"); reveal_strlit("response"); reveal_strlit("pending"); reveal_strlit("key"); reveal_strlit("providerStates"); reveal_strlit("comments"); reveal_strlit("pluginConfiguration"); reveal_strlit("interactionMarkup"); reveal_strlit("transport");
  reveal_strlit("contents"); reveal_strlit("metadata"); reveal_strlit("matchingRules"); reveal_strlit("generators"); reveal_strlit("_id"); }
pub open spec fn names_differ() -> bool {
  "type"@.len() == 4 && "description"@.len() == 11 && "request"@.len() == 7 && "response"@.len() == 8 && "pending"@.len() == 7 && "key"@.len() == 3 && "providerStates"@.len() == 14 && "comments"@.len() == 8 && "pluginConfiguration"@.len() == 19 && "interactionMarkup"@.len() == 17 && "transport"@.len() == 9
  && "contents"@.len() == 8 && "metadata"@.len() == 8 && "matchingRules"@.len() == 13 && "generators"@.len() == 10 && "_id"@.len() == 3
  && "request"@[0] == 'r' && "pending"@[0] == 'p' && "key"@[0] == 'k' && "_id"@[0] == '_' && "response"@[0] == 'r' && "metadata"@[0] == 'm' && "comments"@[2] == 'm' && "contents"@[2] == 'n' && "comments"@[0] == 'c' && "contents"@[0] == 'c' }
// ---- requests, responses and message contents, by the contracts proved for them in parts ----
impl HttpRequest {
  #[verifier::external_body] pub fn from_json(v: &Value) -> (r: Result<HttpRequest, VxError>) ensures one_ct(hf(jv(*v))) ==> r is Ok == rf(jv(*v)) is Some, one_ct(hf(jv(*v))) && r is Ok ==> Some(rq(r->Ok_0)) == rf(jv(*v)) { unimplemented!() }
  #[verifier::external_body] pub fn to_json(&self) -> (r: Value) ensures one_ct(hdrso(self.headers)) ==> jv(r) == JV::Obj(rj(rq(*self))) { unimplemented!() }
}
impl HttpResponse {
  #[verifier::external_body] pub fn from_json(v: &Value) -> (r: Result<HttpResponse, VxError>) ensures one_ct(hf(jv(*v))) ==> r is Ok == sf(jv(*v)) is Some, one_ct(hf(jv(*v))) && r is Ok ==> Some(sq(r->Ok_0)) == sf(jv(*v)) { unimplemented!() }
  #[verifier::external_body] pub fn to_json(&self) -> (r: Value) ensures one_ct(hdrso(self.headers)) ==> jv(r) == JV::Obj(sj(sq(*self))) { unimplemented!() }
}
// ---- HTTP interactions ----
pub ghost struct HQ { pub common: IQ, pub request: RQ, pub response: SQ }
pub open spec fn hq(i: SynchronousHttp) -> HQ { HQ { common: IQ { id: sto(i.id), key: sto(i.key), description: i.description@, states: states(i.provider_states@), comments: meta(i.comments), pending: i.pending, plugin: pcq(i.plugin_config), markup: mkq(i.interaction_markup), transport: sto(i.transport) }, request: rq(i.request), response: sq(i.response) } }
pub open spec fn jor_null(v: JV, k: Seq<char>) -> JV { match jget(v, k) { Some(x) => x, None => JV::Null } }
pub open spec fn http_one(v: JV) -> bool { one_ct(hf(jor_null(v, "request"@))) && one_ct(hf(jor_null(v, "response"@))) }
pub open spec fn http_out(i: HQ) -> bool { one_ct(i.request.headers) && one_ct(i.response.headers) }
pub open spec fn http_f(v: JV, index: usize) -> Option<HQ> { let r = rf(jor_null(v, "request"@)); let s = sf(jor_null(v, "response"@)); if v is Obj && r is Some && s is Some { Some(HQ { common: common_f(v, index), request: r->0, response: s->0 }) } else { None } }
pub open spec fn http_j(i: HQ) -> JO { common_j(Map::<Seq<char>, JV>::empty().insert("type"@, JV::Str("Synchronous/HTTP"@)).insert("request"@, JV::Obj(rj(i.request))).insert("response"@, JV::Obj(sj(i.response))), i.common) }
// ---- messages ----
#[verifier::external_body] pub fn metadata_to_headers(metadata: &HashMap<String, Value>) -> (r: Option<Headers>) ensures hdrso(r) == mhead(meta(*metadata)) { unimplemented!() }
impl MessageContents {
  #[verifier::external_body] pub fn message_content_type(&self) -> (r: Option<ContentType>) ensures ctqo(r) == calc(bq(self.contents), mhead(meta(self.metadata))) { unimplemented!() }
  #[verifier::external_body] pub fn from_json(v: &Value) -> (r: Result<MessageContents, VxError>) ensures r is Ok == cf(jv(*v)) is Some, r is Ok ==> Some(cq(r->Ok_0)) == cf(jv(*v)) { unimplemented!() }
  #[verifier::external_body] pub fn to_json(&self) -> (r: Value) ensures jv(r) == JV::Obj(cj(cq(*self))) { unimplemented!() }
}
impl Clone for MessageContents { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures cq(r) == cq(*self) { unimplemented!() } }
pub ghost struct AQ { pub common: IQ, pub contents: CQ }
pub open spec fn amq(i: AsynchronousMessage) -> AQ { AQ { common: IQ { id: sto(i.id), key: sto(i.key), description: i.description@, states: states(i.provider_states@), comments: meta(i.comments), pending: i.pending, plugin: pcq(i.plugin_config), markup: mkq(i.interaction_markup), transport: sto(i.transport) }, contents: cq(i.contents) } }
pub open spec fn async_f(v: JV, index: usize) -> Option<AQ> { match cf(v) { Some(c) => Some(AQ { common: common_f(v, index), contents: c }), None => None } }
pub open spec fn contents_j(m: JO, c: CQ) -> JO { let b = v4j(set_ct(c.contents, calc(c.contents, mhead(c.metadata))));
  opt_ins(opt_ins(opt_ins(opt_ins(m, "contents"@, b is Obj, b), "metadata"@, !no_keys(c.metadata), JV::Obj(c.metadata)), "matchingRules"@, !m_none(c.rules), mj(c.rules)), "generators"@, !g_none(c.gens), gj(c.gens)) }
pub open spec fn async_j(i: AQ) -> JO { common_j(contents_j(Map::<Seq<char>, JV>::empty().insert("type"@, JV::Str("Asynchronous/Messages"@)), i.contents), i.common) }
pub ghost struct MSQ { pub common: IQ, pub request: CQ, pub response: Seq<CQ> }
pub open spec fn cqs(s: Seq<MessageContents>) -> Seq<CQ> { s.map_values(|c: MessageContents| cq(c)) }
pub open spec fn smq(i: SynchronousMessage) -> MSQ { MSQ { common: IQ { id: sto(i.id), key: sto(i.key), description: i.description@, states: states(i.provider_states@), comments: meta(i.comments), pending: i.pending, plugin: pcq(i.plugin_config), markup: mkq(i.interaction_markup), transport: sto(i.transport) }, request: cq(i.request), response: cqs(i.response@) } }
pub open spec fn all_cf(a: Seq<JV>) -> bool { forall|i: int| 0 <= i < a.len() ==> cf(#[trigger] a[i]) is Some }
pub open spec fn syncm_f(v: JV, index: usize) -> Option<MSQ> { match (jget(v, "request"@), jget(v, "response"@)) { (Some(q), Some(JV::Arr(a))) => if cf(q) is Some && all_cf(a) { Some(MSQ { common: common_f(v, index), request: cf(q)->0, response: a.map_values(|x: JV| cf(x)->0) }) } else { None }, _ => None } }
pub open spec fn syncm_j(i: MSQ) -> JO { common_j(Map::<Seq<char>, JV>::empty().insert("type"@, JV::Str("Synchronous/Messages"@)).insert("request"@, JV::Obj(cj(i.request))).insert("response"@, JV::Arr(i.response.map_values(|c: CQ| JV::Obj(cj(c))))), i.common) }
impl Value { pub fn as_array<'a>(&'a self) -> (r: Option<&'a Vec<Value>>) ensures r is Some == (jv(*self) is Arr), r matches Some(a) ==> jvs(a@) == jv(*self)->Arr_0 { broadcast use axiom_jv; match self { Value::Array(a) => Some(a), _ => None } } }
#[verifier::external_body] pub fn vx_join<T: VxDisp>(v: Vec<T>, sep: &str) -> (r: String) { unimplemented!() }
#[verifier::external_body] pub fn vx_err_text<T>(r: &Result<T, VxError>) -> (o: String) requires r is Err { unimplemented!() }
/// the attributes of an asynchronous message in the order they are written
pub open spec fn async_code(i: AQ) -> JO { let c = i.common; let d = i.contents; let b = v4j(set_ct(d.contents, calc(d.contents, mhead(d.metadata))));
  let m = Map::<Seq<char>, JV>::empty().insert("type"@, JV::Str("Asynchronous/Messages"@)).insert("description"@, JV::Str(c.description)).insert("pending"@, JV::Bool(c.pending));
  let m = opt_ins(opt_ins(opt_ins(m, "key"@, c.key is Some, JV::Str(c.key->0)), "contents"@, b is Obj, b), "metadata"@, !no_keys(d.metadata), JV::Obj(d.metadata));
  let m = opt_ins(opt_ins(opt_ins(m, "providerStates"@, c.states.len() > 0, states_j(c.states)), "matchingRules"@, !m_none(d.rules), mj(d.rules)), "generators"@, !g_none(d.gens), gj(d.gens));
  opt_ins(opt_ins(opt_ins(opt_ins(m, "comments"@, !no_keys(kept(c.comments)), JV::Obj(kept(c.comments))), "pluginConfiguration"@, !no_keys(c.plugin), plugin_j(c.plugin)), "interactionMarkup"@, c.markup.markup.len() > 0, markup_j(c.markup)), "transport"@, c.transport is Some, JV::Str(c.transport->0)) }
pub proof fn lemma_async_order(i: AQ) ensures async_code(i) == async_j(i) { lemma_common(); assert(async_code(i) =~= async_j(i)); }
// ---- reading back what was written ----
/// an interaction as it is read back: no id, no empty comments, no markup without text
pub open spec fn common_read(c: IQ) -> IQ { IQ { id: None, comments: kept(c.comments), markup: if c.markup.markup.len() > 0 { c.markup } else { no_markup() }, ..c } }
pub open spec fn common_name(k: Seq<char>) -> bool { k == "_id"@ || k == "description"@ || k == "pending"@ || k == "key"@ || k == "providerStates"@ || k == "providerState"@ || k == "provider_state"@ || k == "comments"@ || k == "pluginConfiguration"@ || k == "interactionMarkup"@ || k == "transport"@ }
pub open spec fn more_names() -> bool { "providerState"@.len() == 13 && "provider_state"@.len() == 14 && "provider_state"@[8] == '_' && "providerStates"@[8] == 'S' && "matchingRules"@[0] == 'm' && "providerState"@[0] == 'p' }
pub proof fn lemma_more() ensures more_names(), names_differ() { lemma_common(); reveal_strlit("providerState"); reveal_strlit("provider_state"); reveal_strlit("providerStates"); reveal_strlit("matchingRules"); }
pub proof fn theorem_common(m: JO, c: IQ, index: usize) requires forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> !common_name(k)
  ensures common_f(JV::Obj(common_j(m, c)), index) == common_read(c), forall|k: Seq<char>| m.dom().contains(k) ==> #[trigger] jget(JV::Obj(common_j(m, c)), k) == Some(m[k]), forall|k: Seq<char>| !m.dom().contains(k) && !common_name(k) ==> #[trigger] jget(JV::Obj(common_j(m, c)), k) is None {
  lemma_more(); let o = common_j(m, c); let v = JV::Obj(o); let r = common_f(v, index);
  assert(jget(v, "_id"@) is None); assert(jget(v, "description"@) == Some(JV::Str(c.description))); assert(jget(v, "pending"@) == Some(JV::Bool(c.pending)));
  if c.key is Some { assert(jget(v, "key"@) == Some(JV::Str(c.key->0))); } else { assert(jget(v, "key"@) is None); }
  if c.states.len() > 0 { assert(jget(v, "providerStates"@) == Some(states_j(c.states))); theorem_states(v, c.states); } else { assert(jget(v, "providerStates"@) is None); assert(jget(v, "providerState"@) is None); assert(jget(v, "provider_state"@) is None); assert(r.states =~= c.states); }
  if no_keys(kept(c.comments)) { assert(jget(v, "comments"@) is None); assert(kept(c.comments) =~= Map::empty()); } else { assert(jget(v, "comments"@) == Some(JV::Obj(kept(c.comments)))); }
  if no_keys(c.plugin) { assert(jget(v, "pluginConfiguration"@) is None); assert(plugin_f(v) =~= c.plugin); } else { assert(jget(v, "pluginConfiguration"@) == Some(plugin_j(c.plugin))); theorem_plugin(v, c.plugin); }
  if c.markup.markup.len() > 0 { assert(jget(v, "interactionMarkup"@) == Some(markup_j(c.markup))); theorem_markup(c.markup); } else { assert(jget(v, "interactionMarkup"@) is None); }
  if c.transport is Some { assert(jget(v, "transport"@) == Some(JV::Str(c.transport->0))); } else { assert(jget(v, "transport"@) is None); }
}
pub open spec fn rq_ok(r: RQ) -> bool { one_ct(r.headers) && v4_ok(full(r.body, r.headers)) && m_ok(r.rules) && g_ok(r.gens) && q_ok(r.query) }
pub open spec fn sq_ok(r: SQ) -> bool { one_ct(r.headers) && v4_ok(full(r.body, r.headers)) && m_ok(r.rules) && g_ok(r.gens) }
pub open spec fn cq_ok(c: CQ) -> bool { v4_ok(full(c.contents, mhead(c.metadata))) && m_ok(c.rules) && g_ok(c.gens) }
pub open spec fn rq_read(r: RQ) -> RQ { RQ { method: upper(r.method), body: reprinted(full(r.body, r.headers)), ..r } }
pub open spec fn sq_read(r: SQ) -> SQ { SQ { body: reprinted(full(r.body, r.headers)), ..r } }
pub open spec fn cq_read(c: CQ) -> CQ { CQ { contents: reprinted(full(c.contents, mhead(c.metadata))), ..c } }
pub proof fn theorem_http(i: HQ, index: usize) requires rq_ok(i.request), sq_ok(i.response)
  ensures http_f(JV::Obj(http_j(i)), index) == Some(HQ { common: common_read(i.common), request: rq_read(i.request), response: sq_read(i.response) }), jget(JV::Obj(http_j(i)), "type"@) == Some(JV::Str("Synchronous/HTTP"@)) {
  lemma_more(); let m = Map::<Seq<char>, JV>::empty().insert("type"@, JV::Str("Synchronous/HTTP"@)).insert("request"@, JV::Obj(rj(i.request))).insert("response"@, JV::Obj(sj(i.response)));
  theorem_common(m, i.common, index); theorem_request(i.request); theorem_response(i.response); let v = JV::Obj(http_j(i));
  assert(jget(v, "request"@) == Some(m["request"@])); assert(jget(v, "response"@) == Some(m["response"@])); assert(jget(v, "type"@) == Some(m["type"@]));
}
pub proof fn theorem_sync_message(i: MSQ, index: usize) requires cq_ok(i.request), forall|n: int| 0 <= n < i.response.len() ==> cq_ok(#[trigger] i.response[n])
  ensures syncm_f(JV::Obj(syncm_j(i)), index) == Some(MSQ { common: common_read(i.common), request: cq_read(i.request), response: i.response.map_values(|c: CQ| cq_read(c)) }), jget(JV::Obj(syncm_j(i)), "type"@) == Some(JV::Str("Synchronous/Messages"@)) {
  lemma_more(); let a = i.response.map_values(|c: CQ| JV::Obj(cj(c)));
  let m = Map::<Seq<char>, JV>::empty().insert("type"@, JV::Str("Synchronous/Messages"@)).insert("request"@, JV::Obj(cj(i.request))).insert("response"@, JV::Arr(a));
  theorem_common(m, i.common, index); theorem_contents(i.request); let v = JV::Obj(syncm_j(i));
  assert(jget(v, "request"@) == Some(m["request"@])); assert(jget(v, "response"@) == Some(m["response"@])); assert(jget(v, "type"@) == Some(m["type"@]));
  assert forall|n: int| 0 <= n < a.len() implies cf(#[trigger] a[n]) == Some(cq_read(i.response[n])) by { theorem_contents(i.response[n]); }
  assert(a.map_values(|x: JV| cf(x)->0) =~= i.response.map_values(|c: CQ| cq_read(c)));
}
/// the contents are read from their own attributes, whatever else the object holds
pub proof fn theorem_async_message(i: AQ, index: usize) requires cq_ok(i.contents)
  ensures async_f(JV::Obj(async_j(i)), index) == Some(AQ { common: common_read(i.common), contents: cq_read(i.contents) }), jget(JV::Obj(async_j(i)), "type"@) == Some(JV::Str("Asynchronous/Messages"@)) {
  lemma_more(); let c = i.contents; let m0 = Map::<Seq<char>, JV>::empty().insert("type"@, JV::Str("Asynchronous/Messages"@)); let m = contents_j(m0, c);
  theorem_common(m, i.common, index); lemma_mhead(c.metadata); let o = async_j(i); let v = JV::Obj(o); let w = full(c.contents, mhead(c.metadata));
  assert(jget(v, "type"@) == Some(m["type"@]));
  if v4j(w) is Obj { assert(m["contents"@] == v4j(w)); assert(jget(v, "contents"@) == Some(m["contents"@])); } else { assert(jget(v, "contents"@) is None); }
  assert(holds(o, "contents"@, w)); theorem_v4_body(o, "contents"@, w, mhead(c.metadata));
  if !no_keys(c.metadata) { assert(m["metadata"@] == JV::Obj(c.metadata)); assert(jget(v, "metadata"@) == Some(m["metadata"@])); } else { assert(c.metadata =~= Map::empty()); assert(jget(v, "metadata"@) is None); }
  assert(cmeta(v) == c.metadata);
  if !m_none(c.rules) { assert(m["matchingRules"@] == mj(c.rules)); assert(jget(v, "matchingRules"@) == Some(m["matchingRules"@])); } else { assert(jget(v, "matchingRules"@) is None); }
  if !g_none(c.gens) { assert(m["generators"@] == gj(c.gens)); assert(jget(v, "generators"@) == Some(m["generators"@])); } else { assert(jget(v, "generators"@) is None); }
}
// ---- which kind an interaction is read as ----
pub enum V4I { Http(SynchronousHttp), Async(AsynchronousMessage), Sync(SynchronousMessage) }
impl SynchronousHttp { pub fn boxed_v4(self) -> (r: V4I) ensures r == V4I::Http(self) { V4I::Http(self) } }
impl AsynchronousMessage { pub fn boxed_v4(self) -> (r: V4I) ensures r == V4I::Async(self) { V4I::Async(self) } }
impl SynchronousMessage { pub fn boxed_v4(self) -> (r: V4I) ensures r == V4I::Sync(self) { V4I::Sync(self) } }
pub ghost enum V4Q { Http(HQ), Async(AQ), Sync(MSQ) }
pub open spec fn v4q(i: V4I) -> V4Q { match i { V4I::Http(i) => V4Q::Http(hq(i)), V4I::Async(i) => V4Q::Async(amq(i)), V4I::Sync(i) => V4Q::Sync(smq(i)) } }
pub open spec fn v4_one(v: JV) -> bool { http_one(v) }
pub open spec fn v4_f(v: JV, index: usize) -> Option<V4Q> { match jget(v, "type"@) { Some(t) => match type_of_text(jtext(t)) {
  Some(V4InteractionType::Synchronous_HTTP) => match http_f(v, index) { Some(i) => Some(V4Q::Http(i)), None => None }, Some(V4InteractionType::Asynchronous_Messages) => match async_f(v, index) { Some(i) => Some(V4Q::Async(i)), None => None },
  Some(V4InteractionType::Synchronous_Messages) => match syncm_f(v, index) { Some(i) => Some(V4Q::Sync(i)), None => None }, None => None }, None => None } }
/// every interaction of the list is read, in order, or the list is not read
pub open spec fn inters_ok(v: JV) -> bool { match jget(v, "interactions"@) { Some(JV::Arr(a)) => forall|i: int| 0 <= i < a.len() ==> v4_f(#[trigger] a[i], i as usize) is Some, _ => true } }
pub open spec fn inters_one(v: JV) -> bool { match jget(v, "interactions"@) { Some(JV::Arr(a)) => forall|i: int| 0 <= i < a.len() ==> v4_one(#[trigger] a[i]), _ => true } }
pub open spec fn inters_f(v: JV) -> Seq<V4Q> { match jget(v, "interactions"@) { Some(JV::Arr(a)) => Seq::new(a.len(), |i: int| v4_f(a[i], i as usize)->0), _ => seq![] } }
pub open spec fn v4qs(s: Seq<V4I>) -> Seq<V4Q> { s.map_values(|i: V4I| v4q(i)) }
#[verifier::external_body] pub fn vx_enum<'a, T>(v: &'a Vec<T>) -> (r: Vec<(usize, &'a T)>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == (i as usize, &v@[i]), v@.len() <= usize::MAX { unimplemented!() }
// ---- V1 to V3 interactions; requests and responses by what their own functions do ----
#[verifier::external_body] pub struct Request { _p: () }
#[verifier::external_body] pub struct Response { _p: () }
pub ghost struct R3 { x: int }
pub ghost struct S3 { x: int }
pub uninterp spec fn r3(r: Request) -> R3;
pub uninterp spec fn s3(r: Response) -> S3;
pub uninterp spec fn r3f(v: JV, s: PactSpecification) -> Option<R3>;
pub uninterp spec fn s3f(v: JV, s: PactSpecification) -> Option<S3>;
pub uninterp spec fn r3j(r: R3, s: PactSpecification) -> JV;
pub uninterp spec fn s3j(r: S3, s: PactSpecification) -> JV;
pub uninterp spec fn r3_default() -> R3;
pub uninterp spec fn s3_default() -> S3;
impl Request {
  #[verifier::external_body] pub fn from_json(v: &Value, s: &PactSpecification) -> (r: Result<Request, VxError>) ensures r is Ok == r3f(jv(*v), *s) is Some, r is Ok ==> Some(r3(r->Ok_0)) == r3f(jv(*v), *s) { unimplemented!() }
  #[verifier::external_body] pub fn to_json(&self, s: &PactSpecification) -> (r: Value) ensures jv(r) == r3j(r3(*self), *s) { unimplemented!() }
}
impl Response {
  #[verifier::external_body] pub fn from_json(v: &Value, s: &PactSpecification) -> (r: Result<Response, VxError>) ensures r is Ok == s3f(jv(*v), *s) is Some, r is Ok ==> Some(s3(r->Ok_0)) == s3f(jv(*v), *s) { unimplemented!() }
  #[verifier::external_body] pub fn to_json(&self, s: &PactSpecification) -> (r: Value) ensures jv(r) == s3j(s3(*self), *s) { unimplemented!() }
}
impl Default for Request { #[verifier::external_body] fn default() -> (r: Request) ensures r3(r) == r3_default() { unimplemented!() } }
impl Default for Response { #[verifier::external_body] fn default() -> (r: Response) ensures s3(r) == s3_default() { unimplemented!() } }
pub ghost struct RRQ { pub id: Option<Seq<char>>, pub description: Seq<char>, pub states: Seq<PSQ>, pub request: R3, pub response: S3 }
pub open spec fn rrq(i: RequestResponseInteraction) -> RRQ { RRQ { id: sto(i.id), description: i.description@, states: states(i.provider_states@), request: r3(i.request), response: s3(i.response) } }
pub open spec fn r3fo(v: Option<JV>, s: PactSpecification) -> Option<R3> { match v { Some(v) => r3f(v, s), None => Some(r3_default()) } }
pub open spec fn s3fo(v: Option<JV>, s: PactSpecification) -> Option<S3> { match v { Some(v) => s3f(v, s), None => Some(s3_default()) } }
pub open spec fn rr_f(v: JV, index: usize, s: PactSpecification) -> Option<RRQ> { let q = r3fo(jget(v, "request"@), s); let p = s3fo(jget(v, "response"@), s); if q is Some && p is Some {
  Some(RRQ { id: jtexts(jget(v, "_id"@)), description: jname(v, "description"@, "Interaction "@ + dec(index as nat)), states: states_f(v), request: q->0, response: p->0 }) } else { None } }
pub open spec fn rr_j(i: RRQ, s: PactSpecification) -> JO { let m = Map::<Seq<char>, JV>::empty().insert("description"@, JV::Str(i.description)).insert("request"@, r3j(i.request, s)).insert("response"@, s3j(i.response, s));
  if i.states.len() == 0 { m } else if s is V3 { m.insert("providerStates"@, states_j(i.states)) } else { m.insert("providerState"@, JV::Str(i.states[0].name)) } }
/// V3 keeps all states; the earlier versions keep the name of the first (a state without a name is no state)
pub proof fn theorem_interaction_v3(i: RRQ, index: usize, s: PactSpecification) requires r3f(r3j(i.request, s), s) is Some, s3f(s3j(i.response, s), s) is Some
  ensures rr_f(JV::Obj(rr_j(i, s)), index, s) == Some(RRQ { id: None, states: if i.states.len() == 0 || s is V3 { i.states } else if i.states[0].name.len() == 0 { seq![] } else { one_state(i.states[0].name) }, request: r3f(r3j(i.request, s), s)->0, response: s3f(s3j(i.response, s), s)->0, ..i }) {
  lemma_more(); let v = JV::Obj(rr_j(i, s)); let m = v->Obj_0; assert(jget(v, "description"@) == Some(JV::Str(i.description))); assert(jget(v, "request"@) == Some(r3j(i.request, s))); assert(jget(v, "response"@) == Some(s3j(i.response, s))); assert(jget(v, "_id"@) is None);
  if i.states.len() == 0 { assert(states_f(v) =~= i.states); } else if s is V3 { assert(jget(v, "providerStates"@) == Some(states_j(i.states))); theorem_states(v, i.states); } else { assert(jget(v, "providerStates"@) is None); assert(jget(v, "providerState"@) == Some(JV::Str(i.states[0].name))); }
}
pub open spec fn markup_merge(a: MKQ, b: MKQ) -> MKQ { if a.markup.len() == 0 { b } else if b.markup.len() == 0 { a } else { MKQ { markup: a.markup.push('\n') + b.markup, kind: a.kind } } }
impl Clone for InteractionMarkup { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures mkq(r) == mkq(*self) { unimplemented!() } }
pub fn vx_first<T>(v: &Vec<T>) -> (r: &T) requires v@.len() > 0 ensures *r == v@[0] { &v[0] }
}
