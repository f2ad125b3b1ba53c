// ---- requests, responses and message contents as they are written and read: the V4 form ----
verus! {
// ---- the parts, by the contracts proved for them in cat_json (C10), gens_json (C08) and query (C06) ----
pub ghost struct MQ { x: int }
pub ghost struct GQ { x: int }
pub ghost struct QQ { x: int }
pub type Query = HashMap<String, Vec<Option<String>>>;
pub uninterp spec fn mq(m: MatchingRules) -> MQ;
pub uninterp spec fn gq(g: Generators) -> GQ;
pub uninterp spec fn qq(q: Query) -> QQ;
pub open spec fn qqo(q: Option<Query>) -> Option<QQ> { match q { Some(q) => Some(qq(q)), None => None } }
/// no rules, no generators; what a part without them is read as
pub uninterp spec fn m_none(m: MQ) -> bool;
pub uninterp spec fn g_none(g: GQ) -> bool;
pub uninterp spec fn mj(m: MQ) -> JV;
pub uninterp spec fn gj(g: GQ) -> JV;
pub uninterp spec fn qj(q: QQ) -> JV;
pub uninterp spec fn mf(v: Option<JV>) -> Option<MQ>;
pub uninterp spec fn gf(v: Option<JV>) -> Option<GQ>;
pub uninterp spec fn qf(v: JV) -> Option<QQ>;
pub open spec fn jget(v: JV, k: Seq<char>) -> Option<JV> { match v { JV::Obj(m) => if m.dom().contains(k) { Some(m[k]) } else { None }, _ => None } }
impl MatchingRules {
  #[verifier::external_body] pub fn is_not_empty(&self) -> (r: bool) ensures r == !m_none(mq(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == m_none(mq(*self)) { unimplemented!() }
}
impl Generators {
  #[verifier::external_body] pub fn is_not_empty(&self) -> (r: bool) ensures r == !g_none(gq(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == g_none(gq(*self)) { unimplemented!() }
}
impl Clone for MatchingRules { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures mq(r) == mq(*self) { unimplemented!() } }
impl Clone for Generators { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures gq(r) == gq(*self) { unimplemented!() } }
#[verifier::external_body] pub fn vx_clone_query(q: &Query) -> (r: Query) ensures qq(r) == qq(*q) { unimplemented!() }
#[verifier::external_body] pub fn matchers_from_json(v: &Value, old: &Option<String>) -> (r: Result<MatchingRules, VxError>) ensures *old is None ==> r is Ok == mf(jget(jv(*v), "matchingRules"@)) is Some, *old is None && r is Ok ==> Some(mq(r->Ok_0)) == mf(jget(jv(*v), "matchingRules"@)) { unimplemented!() }
#[verifier::external_body] pub fn generators_from_json(v: &Value) -> (r: Result<Generators, VxError>) ensures r is Ok == gf(jget(jv(*v), "generators"@)) is Some, r is Ok ==> Some(gq(r->Ok_0)) == gf(jget(jv(*v), "generators"@)) { unimplemented!() }
#[verifier::external_body] pub fn matchers_to_json(m: &MatchingRules, s: &PactSpecification) -> (r: Value) ensures *s is V4 ==> jv(r) == mj(mq(*m)) { unimplemented!() }
#[verifier::external_body] pub fn generators_to_json(m: &Generators, s: &PactSpecification) -> (r: Value) ensures *s is V4 ==> jv(r) == gj(gq(*m)) { unimplemented!() }
#[verifier::external_body] pub fn query_to_json(q: Query, s: &PactSpecification) -> (r: Value) ensures *s is V4 ==> jv(r) == qj(qq(q)) { unimplemented!() }
#[verifier::external_body] pub fn v3_query_from_json(v: &Value, s: &PactSpecification) -> (r: Option<Query>) ensures qqo(r) == qf(jv(*v)) { unimplemented!() }
// ---- the body of the part, by the contracts proved in bodies ----
impl OptionalBody {
  #[verifier::external_body] pub fn with_content_type_if_not_set(&self, c: Option<ContentType>) -> (r: OptionalBody) ensures bq(r) == set_ct(bq(*self), ctqo(c)) { unimplemented!() }
  #[verifier::external_body] pub fn to_v4_json(&self) -> (r: Value) ensures jv(r) == v4j(bq(*self)) { unimplemented!() }
}
#[verifier::external_body] pub fn calc_content_type(body: &OptionalBody, headers: &Option<Headers>) -> (r: Option<ContentType>) ensures one_ct(hdrso(*headers)) ==> ctqo(r) == calc(bq(*body), hdrso(*headers)) { unimplemented!() }
#[verifier::external_body] pub fn body_from_json(json: &Value, attr_name: &str, headers: &Option<Headers>) -> (r: OptionalBody) ensures one_ct(hdrso(*headers)) ==> bq(r) == v4b(jv(*json), attr_name@, hdrso(*headers)) { unimplemented!() }
// ---- std ----
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
pub broadcast axiom fn axiom_upper_twice(s: Seq<char>) ensures #[trigger] upper(upper(s)) == upper(s);
#[verifier::external_body] pub fn vx_upper(s: &str) -> (r: String) ensures r@ == upper(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_trim(s: &str) -> (r: String) ensures r@ == trim(s@) { unimplemented!() }
pub uninterp spec fn trim(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn commas(s: Seq<char>) -> Seq<Seq<char>>;
#[verifier::external_body] pub fn vx_commas<'a>(s: &'a str) -> (r: Vec<&'a str>) ensures r@.map_values(|x: &'a str| x@) == commas(s@) { unimplemented!() }
/// the headers that are never split
pub uninterp spec fn single(s: Seq<char>) -> bool;
#[verifier::external_body] pub fn vx_single(s: &str) -> (r: bool) ensures r == single(s@) { unimplemented!() }
pub fn vx_obj_mut(v: &mut Value) -> (r: &mut JMap) requires *old(v) is Object ensures *r == old(v)->Object_0, *final(v) == Value::Object(*final(r)) { match v { Value::Object(m) => m, _ => vx_panic() } }
#[verifier::external_body] pub fn vx_sort_key<'a, K: VxKey, V>(v: Vec<(&'a K, &'a V)>) -> (r: Vec<(&'a K, &'a V)>) ensures forall|m: Map<K::KV, (K, V)>| entries_of(v@, m) ==> #[trigger] entries_of(r@, m) { unimplemented!() }
impl VxCollect<(String, Value)> for JMap { open spec fn added(&self, x: (String, Value), r: Self) -> bool { jm(r) == jm(*self).insert(x.0@, jv(x.1)) } open spec fn is_new(&self) -> bool { jm(*self) == Map::<Seq<char>, JV>::empty() }
  fn vx_new() -> (r: Self) { JMap::new() } fn vx_add(&mut self, x: (String, Value)) { let _ = self.insert(x.0, x.1); } }
pub open spec fn pairs_of(s: Seq<(&String, &Value)>, m: JO) -> bool { (forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0@) && jv(*s[i].1) == m[s[i].0@]) && forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k }
#[verifier::external_body] pub fn vx_pairs<'a>(m: &'a JMap) -> (r: Vec<(&'a String, &'a Value)>) ensures pairs_of(r@, jm(*m)) { unimplemented!() }
#[verifier::external_body] pub fn vx_clone_headers(h: &Option<Headers>) -> (r: Option<Headers>) ensures r == *h { unimplemented!() }
pub fn vx_u16_of_u64(n: u64) -> (r: Option<u16>) ensures r == (if n <= 65535 { Some(n as u16) } else { None }) { if n <= 65535 { Some(n as u16) } else { None } }
#[verifier::external_body] pub fn vx_get_str<'a, V>(m: &'a HashMap<String, V>, k: &str) -> (r: Option<&'a V>) ensures r is Some == m@.dom().contains(k@), r matches Some(v) ==> *v == m@[k@].1 { unimplemented!() }
// ---- headers as they are written and read ----
pub open spec fn parse_hdr(n: Seq<char>, v: Seq<char>) -> Seq<Seq<char>> { if single(lower(n)) { seq![trim(v)] } else { commas(v).map_values(|x: Seq<char>| trim(x)) } }
pub open spec fn hitem(v: JV) -> Seq<char> { match v { JV::Str(s) => s, v => jprint(v) } }
pub open spec fn hval(k: Seq<char>, v: JV) -> Seq<Seq<char>> { match v { JV::Str(s) => parse_hdr(k, s), JV::Arr(a) => a.map_values(|x: JV| hitem(x)), v => seq![jprint(v)] } }
pub open spec fn hmap(m: JO) -> Map<Seq<char>, Seq<Seq<char>>> { Map::new(m.dom(), |k: Seq<char>| hval(k, m[k])) }
pub open spec fn hf(v: JV) -> HM { match jget(v, "headers"@) { Some(JV::Obj(m)) => Some(hmap(m)), _ => None } }
pub open spec fn hj(m: Map<Seq<char>, Seq<Seq<char>>>) -> JV { JV::Obj(m.map_values(|v: Seq<Seq<char>>| harr(v))) }
pub open spec fn harr(v: Seq<Seq<char>>) -> JV { JV::Arr(v.map_values(|s: Seq<char>| JV::Str(s))) }
pub proof fn theorem_headers(m: Map<Seq<char>, Seq<Seq<char>>>, o: JO) requires o.dom().contains("headers"@), o["headers"@] == hj(m) ensures hf(JV::Obj(o)) == Some(m) {
  let n = hmap(hj(m)->Obj_0); assert(n.dom() =~= m.dom());
  assert forall|k: Seq<char>| m.dom().contains(k) implies n[k] == m[k] by { let a = m[k].map_values(|s: Seq<char>| JV::Str(s)); assert(a.map_values(|x: JV| hitem(x)) =~= m[k]); }
  assert(n =~= m); }
}
verus! {
// ---- requests ----
pub open spec fn jname(v: JV, k: Seq<char>, d: Seq<char>) -> Seq<char> { match jget(v, k) { Some(JV::Str(s)) => s, Some(x) => jprint(x), None => d } }
pub ghost struct RQ { pub method: Seq<char>, pub path: Seq<char>, pub query: Option<QQ>, pub headers: HM, pub body: BQ, pub rules: MQ, pub gens: GQ }
pub open spec fn rq(r: HttpRequest) -> RQ { RQ { method: r.method@, path: r.path@, query: qqo(r.query), headers: hdrso(r.headers), body: bq(r.body), rules: mq(r.matching_rules), gens: gq(r.generators) } }
/// what a JSON value is read as; None when that fails
pub open spec fn rf(v: JV) -> Option<RQ> { let m = mf(jget(v, "matchingRules"@)); let g = gf(jget(v, "generators"@)); if m is Some && g is Some { Some(RQ {
  method: match jget(v, "method"@) { Some(JV::Str(s)) => upper(s), Some(x) => upper(jprint(x)), None => "GET"@ }, path: jname(v, "path"@, "/"@), query: match jget(v, "query"@) { Some(q) => qf(q), None => None }, headers: hf(v), body: v4b(v, "body"@, hf(v)), rules: m->0, gens: g->0 }) } else { None } }
pub open spec fn opt_ins(m: JO, k: Seq<char>, b: bool, v: JV) -> JO { if b { m.insert(k, v) } else { m } }
/// the attributes requests and responses share
pub open spec fn shared(m: JO, h: HM, b: BQ, r: MQ, g: GQ) -> JO { let b = v4j(set_ct(b, calc(b, h)));
  opt_ins(opt_ins(opt_ins(opt_ins(m, "headers"@, h is Some, hj(h->0)), "body"@, b is Obj, b), "matchingRules"@, !m_none(r), mj(r)), "generators"@, !g_none(g), gj(g)) }
pub open spec fn rj(r: RQ) -> JO { shared(opt_ins(Map::<Seq<char>, JV>::empty().insert("method"@, JV::Str(upper(r.method))).insert("path"@, JV::Str(r.path)), "query"@, r.query is Some, qj(r.query->0)), r.headers, r.body, r.rules, r.gens) }
// ---- responses ----
pub ghost struct SQ { pub status: u16, pub headers: HM, pub body: BQ, pub rules: MQ, pub gens: GQ }
pub open spec fn sq(r: HttpResponse) -> SQ { SQ { status: r.status, headers: hdrso(r.headers), body: bq(r.body), rules: mq(r.matching_rules), gens: gq(r.generators) } }
pub open spec fn status_of(v: Option<JV>) -> Option<u16> { match v { Some(JV::Num(NV::Pos(u))) => if u <= 65535 { Some(u as u16) } else { None }, Some(_) => None, None => Some(200u16) } }
pub open spec fn sf(v: JV) -> Option<SQ> { let m = mf(jget(v, "matchingRules"@)); let g = gf(jget(v, "generators"@)); let s = status_of(jget(v, "status"@)); if s is Some && m is Some && g is Some { Some(SQ {
  status: s->0, headers: hf(v), body: v4b(v, "body"@, hf(v)), rules: m->0, gens: g->0 }) } else { None } }
pub open spec fn sj(r: SQ) -> JO { shared(Map::<Seq<char>, JV>::empty().insert("status"@, jint(r.status as int)), r.headers, r.body, r.rules, r.gens) }
}
verus! {
// ---- message contents ----
pub open spec fn meta(m: HashMap<String, Value>) -> JO { m@.map_values(|e: (String, Value)| jv(e.1)) }
pub ghost struct CQ { pub contents: BQ, pub metadata: JO, pub rules: MQ, pub gens: GQ }
pub open spec fn cq(c: MessageContents) -> CQ { CQ { contents: bq(c.contents), metadata: meta(c.metadata), rules: mq(c.matching_rules), gens: gq(c.generators) } }
/// the metadata seen as headers: the content type
pub open spec fn mhead(m: JO) -> HM { if m.dom().contains("contentType"@) { Some(Map::<Seq<char>, Seq<Seq<char>>>::empty().insert("Content-Type"@, seq![jtext(m["contentType"@])])) } else { None } }
pub proof fn lemma_mhead(m: JO) ensures one_ct(mhead(m)) {}
pub open spec fn cmeta(v: JV) -> JO { match jget(v, "metadata"@) { Some(JV::Obj(m)) => m, _ => Map::empty() } }
pub open spec fn cf(v: JV) -> Option<CQ> { let m = mf(jget(v, "matchingRules"@)); let g = gf(jget(v, "generators"@)); if v is Obj && m is Some && g is Some { Some(CQ {
  contents: v4b(v, "contents"@, mhead(cmeta(v))), metadata: cmeta(v), rules: m->0, gens: g->0 }) } else { None } }
pub open spec fn cj(c: CQ) -> JO { let b = v4j(set_ct(c.contents, calc(c.contents, mhead(c.metadata))));
  opt_ins(opt_ins(opt_ins(opt_ins(Map::empty(), "contents"@, b is Obj, b), "metadata"@, !(c.metadata.dom() =~= Set::empty()), JV::Obj(c.metadata)), "matchingRules"@, !m_none(c.rules), mj(c.rules)), "generators"@, !g_none(c.gens), gj(c.gens)) }
}
verus! {
// ---- reading back what was written ----
/// the rules and generators are read back from their JSON (theorem_matching_rules_json in cat_json, theorem of gens_json), and none are read from none
pub open spec fn m_ok(m: MQ) -> bool { if m_none(m) { mf(None) == Some(m) } else { mf(Some(mj(m))) == Some(m) } }
pub open spec fn g_ok(g: GQ) -> bool { if g_none(g) { gf(None) == Some(g) } else { gf(Some(gj(g))) == Some(g) } }
pub open spec fn q_ok(q: Option<QQ>) -> bool { q matches Some(q) ==> qf(qj(q)) == Some(q) }
/// the body with the content type that is written with it
pub open spec fn full(b: BQ, h: HM) -> BQ { set_ct(b, calc(b, h)) }
pub proof fn lemma_names_differ() ensures "headers"@ != "body"@, "headers"@ != "matchingRules"@, "headers"@ != "generators"@, "body"@ != "matchingRules"@, "body"@ != "generators"@, "matchingRules"@ != "generators"@,
    forall|k: Seq<char>| k == "headers"@ || k == "body"@ || k == "matchingRules"@ || k == "generators"@ ==> #[trigger] own(k), !own("method"@), !own("path"@), !own("query"@), !own("status"@), "method"@ != "path"@, "method"@ != "query"@, "path"@ != "query"@,
    "contents"@ != "metadata"@, "contents"@ != "matchingRules"@, "contents"@ != "generators"@, "metadata"@ != "matchingRules"@, "metadata"@ != "generators"@ {
  reveal_strlit("headers"); reveal_strlit("body"); reveal_strlit("matchingRules"); reveal_strlit("generators"); reveal_strlit("method"); reveal_strlit("path"); reveal_strlit("query"); reveal_strlit("status"); reveal_strlit("contents"); reveal_strlit("metadata");
  assert("headers"@.len() == 7 && "body"@.len() == 4 && "matchingRules"@.len() == 13 && "generators"@.len() == 10 && "method"@.len() == 6 && "path"@.len() == 4 && "query"@.len() == 5 && "status"@.len() == 6 && "contents"@.len() == 8 && "metadata"@.len() == 8);
  assert("body"@[0] == 'b' && "path"@[0] == 'p' && "contents"@[0] == 'c' && "metadata"@[0] == 'm');
}
pub open spec fn own(k: Seq<char>) -> bool { k == "headers"@ || k == "body"@ || k == "matchingRules"@ || k == "generators"@ }
/// the attributes a request and a response share are read back, whatever else the object holds
pub proof fn theorem_shared(m: JO, h: HM, b: BQ, r: MQ, g: GQ) requires forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> !own(k), one_ct(h), v4_ok(full(b, h)), m_ok(r), g_ok(g)
  ensures hf(JV::Obj(shared(m, h, b, r, g))) == h, v4b(JV::Obj(shared(m, h, b, r, g)), "body"@, h) == reprinted(full(b, h)), mf(jget(JV::Obj(shared(m, h, b, r, g)), "matchingRules"@)) == Some(r), gf(jget(JV::Obj(shared(m, h, b, r, g)), "generators"@)) == Some(g),
    forall|k: Seq<char>| m.dom().contains(k) ==> #[trigger] jget(JV::Obj(shared(m, h, b, r, g)), k) == Some(m[k]), forall|k: Seq<char>| !m.dom().contains(k) && !own(k) ==> #[trigger] jget(JV::Obj(shared(m, h, b, r, g)), k) is None {
  lemma_names_differ(); let o = shared(m, h, b, r, g); let v = JV::Obj(o);
  if h is Some { assert(o["headers"@] == hj(h->0)); theorem_headers(h->0, o); } else { assert(!o.dom().contains("headers"@)); }
  let w = full(b, h); assert(v4j(w) is Obj ==> o["body"@] == v4j(w)); assert(holds(o, "body"@, w)); theorem_v4_body(o, "body"@, w, h);
  if !m_none(r) { assert(o["matchingRules"@] == mj(r)); } if !g_none(g) { assert(o["generators"@] == gj(g)); }
}
pub proof fn theorem_request(r: RQ) requires one_ct(r.headers), v4_ok(full(r.body, r.headers)), m_ok(r.rules), g_ok(r.gens), q_ok(r.query)
  ensures rf(JV::Obj(rj(r))) == Some(RQ { method: upper(r.method), body: reprinted(full(r.body, r.headers)), ..r }) {
  broadcast use axiom_upper_twice; lemma_names_differ();
  let m = opt_ins(Map::<Seq<char>, JV>::empty().insert("method"@, JV::Str(upper(r.method))).insert("path"@, JV::Str(r.path)), "query"@, r.query is Some, qj(r.query->0));
  theorem_shared(m, r.headers, r.body, r.rules, r.gens); let v = JV::Obj(rj(r));
  assert(jget(v, "method"@) == Some(JV::Str(upper(r.method)))); assert(jget(v, "path"@) == Some(JV::Str(r.path)));
  if r.query is Some { assert(jget(v, "query"@) == Some(qj(r.query->0))); } else { assert(jget(v, "query"@) is None); }
}
pub proof fn theorem_response(r: SQ) requires one_ct(r.headers), v4_ok(full(r.body, r.headers)), m_ok(r.rules), g_ok(r.gens)
  ensures sf(JV::Obj(sj(r))) == Some(SQ { body: reprinted(full(r.body, r.headers)), ..r }) {
  lemma_names_differ(); let m = Map::<Seq<char>, JV>::empty().insert("status"@, jint(r.status as int));
  theorem_shared(m, r.headers, r.body, r.rules, r.gens); assert(jget(JV::Obj(sj(r)), "status"@) == Some(jint(r.status as int)));
}
pub proof fn theorem_contents(c: CQ) requires v4_ok(full(c.contents, mhead(c.metadata))), m_ok(c.rules), g_ok(c.gens)
  ensures cf(JV::Obj(cj(c))) == Some(CQ { contents: reprinted(full(c.contents, mhead(c.metadata))), ..c }) {
  lemma_names_differ(); lemma_mhead(c.metadata); let o = cj(c); let v = JV::Obj(o); let w = full(c.contents, mhead(c.metadata));
  assert(v4j(w) is Obj ==> o["contents"@] == v4j(w)); assert(holds(o, "contents"@, w)); theorem_v4_body(o, "contents"@, w, mhead(c.metadata));
  if !(c.metadata.dom() =~= Set::empty()) { assert(o["metadata"@] == JV::Obj(c.metadata)); } else { assert(c.metadata =~= Map::empty()); assert(!o.dom().contains("metadata"@)); }
  assert(cmeta(v) == c.metadata);
  if !m_none(c.rules) { assert(o["matchingRules"@] == mj(c.rules)); } if !g_none(c.gens) { assert(o["generators"@] == gj(c.gens)); }
}
}
