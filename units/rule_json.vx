%unit rule_json
%include std.rs
%include vxmap.rs
%include json_val.rs
%prelude
verus! {
global size_of usize == 8;
pub type JO = Map<Seq<char>, JV>;
/// a side of an Either
pub enum Either<L, R> { Left(L), Right(R) }
impl<L, R> Either<L, R> {
  pub fn as_ref(&self) -> (r: Either<&L, &R>) ensures (match (*self, r) { (Either::Left(a), Either::Left(b)) => a == *b, (Either::Right(a), Either::Right(b)) => a == *b, _ => false }) { match self { Either::Left(a) => Either::Left(a), Either::Right(b) => Either::Right(b) } }
  pub fn expect_left(self, m: &str) -> (r: L) requires self is Left ensures self == Either::<L, R>::Left(r) { match self { Either::Left(a) => a, Either::Right(_) => vx_panic() } }
}
/// two str values with the same characters are equal
#[verifier::external_body] pub fn vx_lit<'a>(s: &'a str) -> (r: &'a str) ensures r@ == s@, forall|b: &str| (#[trigger] b@) == s@ ==> b == r { unimplemented!() }
// ---- parts, by the contracts proved for them: paths (C01), categories (cat_json), generators (gen_json, gens_json) ----
#[verifier::external_body] pub struct DocPath { _p: () }
pub uninterp spec fn ptext(p: DocPath) -> Seq<char>;
pub uninterp spec fn is_path(s: Seq<char>) -> bool;
impl Clone for DocPath { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl VxKey for DocPath { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { ptext(*self) } }
impl VxKeyText for DocPath { open spec fn kt(&self) -> Seq<char> { ptext(*self) } #[verifier::external_body] fn vx_kt(&self) -> (r: String) { unimplemented!() } }
impl DocPath {
  #[verifier::external_body] pub fn new(s: &String) -> (r: Result<DocPath, VxError>) ensures r is Ok == is_path(s@), r is Ok ==> ptext(r->Ok_0) == s@ { unimplemented!() }
  #[verifier::external_body] pub fn empty() -> (r: DocPath) ensures ptext(r) == Seq::<char>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == ptext(*self) { unimplemented!() }
}
#[verifier::external_body] pub struct Generator { _p: () }
#[verifier::external_body] pub ghost struct GQ { _p: () }
pub uninterp spec fn gq(g: Generator) -> GQ;
pub uninterp spec fn gj(g: GQ) -> Option<JO>;
pub uninterp spec fn gf(t: Seq<char>, m: JO) -> Option<GQ>;
impl Generator {
  #[verifier::external_body] pub fn from_map(t: &str, m: &JMap) -> (r: Option<Generator>) ensures r is Some == gf(t@, jm(*m)) is Some, r is Some ==> gq(r->0) == gf(t@, jm(*m))->0 { unimplemented!() }
  #[verifier::external_body] pub fn to_json(&self) -> (r: Option<Value>) ensures r is Some == gj(gq(*self)) is Some, r is Some ==> jv(r->0) == JV::Obj(gj(gq(*self))->0) { unimplemented!() }
}
impl Clone for Generator { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct MatchingRuleCategory { _p: () }
#[verifier::external_body] pub ghost struct CatQ { _p: () }
pub uninterp spec fn cq(c: MatchingRuleCategory) -> CatQ;
/// the V3 JSON of a category, and the category after loading rules from JSON (None: the JSON is malformed)
pub uninterp spec fn catj(c: CatQ) -> JV;
pub uninterp spec fn cat_load(c: CatQ, v: JV) -> Option<CatQ>;
pub uninterp spec fn cat_empty(n: Seq<char>) -> CatQ;
pub uninterp spec fn cat_eq_rule(c: CatQ, p: Seq<char>, l: RuleLogic) -> CatQ;
impl MatchingRuleCategory {
  #[verifier::external_body] pub fn empty(n: &str) -> (r: Self) ensures cq(r) == cat_empty(n@) { unimplemented!() }
  #[verifier::external_body] pub fn to_v3_json(&self) -> (r: Value) ensures jv(r) == catj(cq(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn add_rules_from_json(&mut self, v: &Value) -> (r: Result<(), VxError>) ensures r is Ok == cat_load(cq(*old(self)), jv(*v)) is Some, r is Ok ==> Some(cq(*final(self))) == cat_load(cq(*old(self)), jv(*v)) { unimplemented!() }
  #[verifier::external_body] pub fn add_rule(&mut self, p: DocPath, m: MatchingRule, l: RuleLogic) requires m is Equality ensures cq(*final(self)) == cat_eq_rule(cq(*old(self)), ptext(p), l) { unimplemented!() }
}
impl Clone for MatchingRuleCategory { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// a rule inside a definition: it has the contract of a rule (induction on the nesting depth)
#[verifier::external_body] pub struct RulePart { _p: () }
#[verifier::external_body] pub ghost struct PQ { _p: () }
#[verifier::external_body] pub struct MatchingReference { _p: () }
pub uninterp spec fn pq(p: RulePart) -> PQ;
pub uninterp spec fn pj(p: PQ) -> JV;
pub uninterp spec fn pf(v: JV) -> Option<PQ>;
impl RulePart { #[verifier::external_body] pub fn to_json(&self) -> (r: Value) ensures jv(r) == pj(pq(*self)) { unimplemented!() } }
#[verifier::external_body] pub fn vx_rule_part(v: &Value) -> (r: Result<RulePart, VxError>) ensures r is Ok == pf(jv(*v)) is Some, r is Ok ==> Some(pq(r->Ok_0)) == pf(jv(*v)) { unimplemented!() }
// ---- std ----
impl<K: VxKey, V> HashMap<K, V> { pub fn default() -> (r: Self) ensures r@ == Map::<K::KV, (K, V)>::empty() { HashMap::new() } }
impl JMap { pub fn default() -> (r: JMap) ensures jm(r) == Map::<Seq<char>, JV>::empty() { JMap::new() } }
impl VxCollect<(String, Value)> for JMap { open spec fn added(&self, x: (String, Value), r: Self) -> bool { jm(r) == jm(*self).insert(x.0@, jv(x.1)) } open spec fn is_new(&self) -> bool { jm(*self) == Map::<Seq<char>, JV>::empty() }
  fn vx_new() -> (r: Self) { JMap::new() } fn vx_add(&mut self, x: (String, Value)) { let _ = self.insert(x.0, x.1); } }
pub fn vx_obj_mut(v: &mut Value) -> (r: &mut JMap) requires *old(v) is Object ensures *r == old(v)->Object_0, *final(v) == Value::Object(*final(r)) { match v { Value::Object(m) => m, _ => vx_panic() } }
pub fn vx_index_set(v: &mut Value, k: &str, x: Value) requires jv(*old(v)) is Obj ensures jv(*final(v)) == JV::Obj(jv(*old(v))->Obj_0.insert(k@, jv(x))) { broadcast use axiom_jv; match v { Value::Object(m) => { let _ = m.insert(k.to_string(), x); } _ => vx_panic() } }
pub fn vx_or_null(v: Option<Value>) -> (r: Value) ensures jv(r) == (match v { Some(x) => jv(x), None => JV::Null }) { broadcast use axiom_jv; match v { Some(x) => x, None => Value::Null } }
pub fn vx_or_zero(v: Option<usize>) -> (r: usize) ensures r == (match v { Some(x) => x, None => 0 }) { match v { Some(x) => x, None => 0 } }
pub fn vx_or_empty(v: Option<HashMap<DocPath, Generator>>) -> (r: HashMap<DocPath, Generator>) ensures r@ == (match v { Some(x) => x@, None => Map::empty() }) { match v { Some(x) => x, None => HashMap::new() } }
/// `f as usize`: towards zero, clamped, NaN is 0
pub open spec fn f_usize(f: f64) -> usize { if f_nan(f) { 0 } else if f_trunc(f) < 0 { 0 } else if f_trunc(f) > usize::MAX { usize::MAX } else { f_trunc(f) as usize } }
#[verifier::external_body] pub fn vx_f_usize(f: f64) -> (r: usize) ensures r == f_usize(f) { unimplemented!() }
/// `f > -1.0 && f < 65536.0`
pub open spec fn f_status(f: f64) -> bool { !f_nan(f) && 0 <= f_trunc(f) && f_trunc(f) <= u16::MAX }
#[verifier::external_body] pub fn vx_f_status(f: f64) -> (r: bool) ensures r == f_status(f) { unimplemented!() }
#[verifier::external_body] pub fn vx_f_u16(f: f64) -> (r: u16) requires f_status(f) ensures r == f_trunc(f) { unimplemented!() }
pub fn vx_u16_of_i64(n: i64) -> (r: Result<u16, VxError>) ensures r is Ok == (0 <= n && n <= u16::MAX), r is Ok ==> r->Ok_0 == n { if n >= 0 && n <= 65535 { Ok(n as u16) } else { Err(vx_anyhow()) } }
/// the first error in a list
pub fn vx_find_err(s: &Vec<Result<RulePart, VxError>>) -> (r: Option<VxError>) ensures r is None == (forall|i: int| 0 <= i < s@.len() ==> (#[trigger] s@[i]) is Ok) {
  let mut i = 0; while i < s.len() invariant i <= s@.len(), forall|j: int| 0 <= j < i ==> (#[trigger] s@[j]) is Ok decreases s@.len() - i { if s[i].is_err() { return Some(vx_anyhow()); } i += 1; } None }
// ---- the entries of an object, in its own fixed order ----
pub uninterp spec fn jkeys(d: JO) -> Seq<Seq<char>>;
pub open spec fn pairs_of(s: Seq<(&String, &Value)>, m: JO) -> bool { s.len() == jkeys(m).len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0@ == jkeys(m)[i] && jv(*s[i].1) == m[jkeys(m)[i]] }
#[verifier::external_body] pub fn vx_pairs<'a>(m: &'a JMap) -> (r: Vec<(&'a String, &'a Value)>) ensures pairs_of(r@, jm(*m)) { unimplemented!() }
}
%src rust/pact_models/src/lib.rs
%enum HttpStatus
%src rust/pact_models/src/matchingrules/mod.rs
%enum RuleLogic
%enum MatchingRule
%src rust/pact_models/src/matchingrules/expressions.rs
%enum ValueType
%struct MatchingRuleDefinition
%sub `Either<MatchingRule, MatchingReference>` => `Either<RulePart, MatchingReference>`
%src rust/pact_models/src/generators/mod.rs
%enum GeneratorCategory
%struct Generators
%prelude
verus! {
impl VxKey for GeneratorCategory { type KV = GeneratorCategory; open spec fn kv(&self) -> GeneratorCategory { *self } }
pub type VQ = (usize, CatQ, Map<Seq<char>, GQ>);
/// what a rule is, without its allocation (only the parts of a definition that have a JSON form)
pub ghost enum RQ { Equality, Regex(Seq<char>), Type, Min(usize), Max(usize), MinMax(usize, usize), Timestamp(Seq<char>), Time(Seq<char>), Date(Seq<char>), Include(Seq<char>), Number, Integer, Decimal, Null, ContentType(Seq<char>), Array(Seq<VQ>), Values, Boolean, Status(SQ), NotEmpty, Semver, EachKey(DQ), EachValue(DQ) }
pub ghost enum SQ { Info, Success, Redirect, Client, Server, Codes(Seq<u16>), NonError, Error }
pub ghost struct DQ { pub value: Seq<char>, pub rules: Seq<PQ>, pub gen: Option<GQ> }
pub open spec fn sq(s: HttpStatus) -> SQ { match s { HttpStatus::Information => SQ::Info, HttpStatus::Success => SQ::Success, HttpStatus::Redirect => SQ::Redirect, HttpStatus::ClientError => SQ::Client, HttpStatus::ServerError => SQ::Server, HttpStatus::StatusCodes(c) => SQ::Codes(c@), HttpStatus::NonError => SQ::NonError, HttpStatus::Error => SQ::Error } }
pub open spec fn gens_q(m: HashMap<DocPath, Generator>) -> Map<Seq<char>, GQ> { m@.map_values(|e: (DocPath, Generator)| gq(e.1)) }
pub open spec fn vq(v: (usize, MatchingRuleCategory, HashMap<DocPath, Generator>)) -> VQ { (v.0, cq(v.1), gens_q(v.2)) }
pub open spec fn vqs(s: Seq<(usize, MatchingRuleCategory, HashMap<DocPath, Generator>)>) -> Seq<VQ> { s.map_values(|v: (usize, MatchingRuleCategory, HashMap<DocPath, Generator>)| vq(v)) }
pub open spec fn eq_part(e: Either<RulePart, MatchingReference>) -> PQ { pq(e->Left_0) }
pub open spec fn parts(s: Seq<Either<RulePart, MatchingReference>>) -> Seq<PQ> { s.map_values(|e: Either<RulePart, MatchingReference>| eq_part(e)) }
pub open spec fn resolved_d(d: MatchingRuleDefinition) -> bool { forall|i: int| 0 <= i < d.rules@.len() ==> (#[trigger] d.rules@[i]) is Left }
/// no unresolved references
pub open spec fn resolved(r: MatchingRule) -> bool { match r { MatchingRule::EachKey(d) | MatchingRule::EachValue(d) => resolved_d(d), _ => true } }
pub open spec fn dq(d: MatchingRuleDefinition) -> DQ { DQ { value: d.value@, rules: parts(d.rules@), gen: match d.generator { Some(g) => Some(gq(g)), None => None } } }
pub open spec fn rq(r: MatchingRule) -> RQ { match r { MatchingRule::Equality => RQ::Equality, MatchingRule::Regex(s) => RQ::Regex(s@), MatchingRule::Type => RQ::Type, MatchingRule::MinType(n) => RQ::Min(n), MatchingRule::MaxType(n) => RQ::Max(n), MatchingRule::MinMaxType(a, b) => RQ::MinMax(a, b),
  MatchingRule::Timestamp(s) => RQ::Timestamp(s@), MatchingRule::Time(s) => RQ::Time(s@), MatchingRule::Date(s) => RQ::Date(s@), MatchingRule::Include(s) => RQ::Include(s@), MatchingRule::Number => RQ::Number, MatchingRule::Integer => RQ::Integer, MatchingRule::Decimal => RQ::Decimal, MatchingRule::Null => RQ::Null,
  MatchingRule::ContentType(s) => RQ::ContentType(s@), MatchingRule::ArrayContains(v) => RQ::Array(vqs(v@)), MatchingRule::Values => RQ::Values, MatchingRule::Boolean => RQ::Boolean, MatchingRule::StatusCode(s) => RQ::Status(sq(s)), MatchingRule::NotEmpty => RQ::NotEmpty, MatchingRule::Semver => RQ::Semver,
  MatchingRule::EachKey(d) => RQ::EachKey(dq(d)), MatchingRule::EachValue(d) => RQ::EachValue(dq(d)) } }
// ---- writing ----
pub open spec fn jcodes(s: Seq<u16>) -> Seq<JV> { s.map_values(|c: u16| jint(c as int)) }
pub open spec fn sj(s: SQ) -> JV { match s { SQ::Info => JV::Str("info"@), SQ::Success => JV::Str("success"@), SQ::Redirect => JV::Str("redirect"@), SQ::Client => JV::Str("clientError"@), SQ::Server => JV::Str("serverError"@), SQ::Codes(c) => JV::Arr(jcodes(c)), SQ::NonError => JV::Str("nonError"@), SQ::Error => JV::Str("error"@) } }
pub open spec fn mt(t: Seq<char>) -> JO { Map::<Seq<char>, JV>::empty().insert("match"@, JV::Str(t)) }
pub open spec fn pjs(s: Seq<PQ>) -> Seq<JV> { s.map_values(|p: PQ| pj(p)) }
pub open spec fn opt_gen(g: GQ) -> JV { match gj(g) { Some(m) => JV::Obj(m), None => JV::Null } }
/// the value and the generator of a definition, when there are any
pub open spec fn dj(m: JO, d: DQ) -> JO { let a = if d.value.len() > 0 { m.insert("value"@, JV::Str(d.value)) } else { m }; match d.gen { Some(g) => a.insert("generator"@, opt_gen(g)), None => a } }
/// the generators of a variant that have a JSON form
pub open spec fn gens_j(m: Map<Seq<char>, GQ>) -> JO { Map::new(m.dom().filter(|k: Seq<char>| gj(m[k]) is Some), |k: Seq<char>| JV::Obj(gj(m[k])->0)) }
pub open spec fn vj(v: VQ) -> JV { let m = Map::<Seq<char>, JV>::empty().insert("index"@, jint(v.0 as int)).insert("rules"@, catj(v.1)); JV::Obj(if v.2.dom() =~= Set::empty() { m } else { m.insert("generators"@, JV::Obj(gens_j(v.2))) }) }
pub open spec fn vjs(s: Seq<VQ>) -> Seq<JV> { s.map_values(|v: VQ| vj(v)) }
pub open spec fn rj(r: RQ) -> JO { match r { RQ::Equality => mt("equality"@), RQ::Regex(s) => mt("regex"@).insert("regex"@, JV::Str(s)), RQ::Type => mt("type"@), RQ::Min(n) => mt("type"@).insert("min"@, jint(n as int)), RQ::Max(n) => mt("type"@).insert("max"@, jint(n as int)), RQ::MinMax(a, b) => mt("type"@).insert("min"@, jint(a as int)).insert("max"@, jint(b as int)),
  RQ::Timestamp(s) => mt("datetime"@).insert("format"@, JV::Str(s)), RQ::Time(s) => mt("time"@).insert("format"@, JV::Str(s)), RQ::Date(s) => mt("date"@).insert("format"@, JV::Str(s)), RQ::Include(s) => mt("include"@).insert("value"@, JV::Str(s)),
  RQ::Number => mt("number"@), RQ::Integer => mt("integer"@), RQ::Decimal => mt("decimal"@), RQ::Null => mt("null"@), RQ::ContentType(s) => mt("contentType"@).insert("value"@, JV::Str(s)), RQ::Array(v) => mt("arrayContains"@).insert("variants"@, JV::Arr(vjs(v))), RQ::Values => mt("values"@), RQ::Boolean => mt("boolean"@),
  RQ::Status(s) => mt("statusCode"@).insert("status"@, sj(s)), RQ::NotEmpty => mt("notEmpty"@), RQ::Semver => mt("semver"@), RQ::EachKey(d) => dj(mt("eachKey"@).insert("rules"@, JV::Arr(pjs(d.rules))), d), RQ::EachValue(d) => dj(mt("eachValue"@).insert("rules"@, JV::Arr(pjs(d.rules))), d) } }
// ---- reading ----
/// a size: an integer that is not negative, a decimal without its fraction, or a text of digits
pub open spec fn jsize(v: JV) -> Option<usize> { match v { JV::Num(NV::Pos(u)) => Some(u as usize), JV::Num(NV::Float(f)) => Some(f_usize(f)), JV::Str(s) => usize::of_text(s), _ => None } }
pub open spec fn msize(m: JO, k: Seq<char>) -> Option<usize> { if m.dom().contains(k) { jsize(m[k]) } else { None } }
pub open spec fn mtext(m: JO, k: Seq<char>) -> Option<Seq<char>> { if m.dom().contains(k) { Some(jtext(m[k])) } else { None } }
pub open spec fn code_of(v: JV) -> Option<u16> { match v { JV::Num(NV::Pos(u)) => if u <= u16::MAX { Some(u as u16) } else { None }, JV::Num(NV::Float(f)) => if f_status(f) { Some(f_trunc(f) as u16) } else { None }, JV::Str(s) => u16::of_text(s), _ => None } }
pub open spec fn codes_of(s: Seq<JV>) -> Option<Seq<u16>> { if forall|i: int| 0 <= i < s.len() ==> code_of(#[trigger] s[i]) is Some { Some(s.map_values(|v: JV| code_of(v)->0)) } else { None } }
pub open spec fn sf(v: JV) -> Option<SQ> { match v { JV::Str(s) => if s == "info"@ { Some(SQ::Info) } else if s == "success"@ { Some(SQ::Success) } else if s == "redirect"@ { Some(SQ::Redirect) } else if s == "clientError"@ { Some(SQ::Client) } else if s == "serverError"@ { Some(SQ::Server) } else if s == "nonError"@ { Some(SQ::NonError) } else if s == "error"@ { Some(SQ::Error) } else { None },
  JV::Arr(a) => match codes_of(a) { Some(c) => Some(SQ::Codes(c)), None => None }, _ => None } }
pub open spec fn gen_of(m: JO) -> Option<GQ> { if m.dom().contains("generator"@) { match m["generator"@] { JV::Obj(g) => if g.dom().contains("type"@) { match g["type"@] { JV::Str(t) => gf(t, g), _ => None } } else { None }, _ => None } } else { None } }
pub open spec fn pfs(s: Seq<JV>) -> Option<Seq<PQ>> { if forall|i: int| 0 <= i < s.len() ==> pf(#[trigger] s[i]) is Some { Some(s.map_values(|v: JV| pf(v)->0)) } else { None } }
pub open spec fn rules_of(m: JO) -> Option<Seq<PQ>> { if m.dom().contains("rules"@) { match m["rules"@] { JV::Arr(a) => pfs(a), _ => None } } else { Some(seq![]) } }
pub open spec fn df(m: JO) -> Option<DQ> { match rules_of(m) { Some(r) => Some(DQ { value: match mtext(m, "value"@) { Some(s) => s, None => seq![] }, rules: r, gen: gen_of(m) }), None => None } }
pub open spec fn fmt_or(m: JO, t: Seq<char>) -> Seq<char> { match mtext(m, "format"@) { Some(s) => s, None => match mtext(m, t) { Some(s) => s, None => seq![] } } }
/// the generators of a variant: each entry that is an object with a type that names a generator
pub open spec fn vg_one(g: Map<Seq<char>, GQ>, m: JO, p: Seq<char>) -> Map<Seq<char>, GQ> { if m.dom().contains("type"@) { match m["type"@] { JV::Str(t) => match gf(t, m) { Some(x) => g.insert(p, x), None => g }, _ => g } } else { g } }
pub open spec fn vg_entry(g: Map<Seq<char>, GQ>, k: Seq<char>, v: JV) -> Option<Map<Seq<char>, GQ>> { match v { JV::Obj(m) => if is_path(k) { Some(vg_one(g, m, k)) } else { None }, _ => Some(g) } }
pub open spec fn vg_load(m: JO, n: nat) -> Option<Map<Seq<char>, GQ>> decreases n { if n == 0 || n > jkeys(m).len() { Some(Map::empty()) } else { match vg_load(m, (n - 1) as nat) { Some(h) => vg_entry(h, jkeys(m)[n - 1], m[jkeys(m)[n - 1]]), None => None } } }
pub proof fn lemma_vg_mono(m: JO, a: nat, b: nat) requires a <= b, b <= jkeys(m).len(), vg_load(m, a) is None ensures vg_load(m, b) is None decreases b { if a < b { lemma_vg_mono(m, a, (b - 1) as nat); } }
pub open spec fn jsub(v: JV, k: Seq<char>) -> Option<JV> { match v { JV::Obj(m) => if m.dom().contains(k) { Some(m[k]) } else { None }, _ => None } }
pub open spec fn vcat(v: JV) -> Option<CatQ> { match jsub(v, "rules"@) { Some(r) => cat_load(cat_empty("body"@), r), None => Some(cat_eq_rule(cat_empty("body"@), seq![], RuleLogic::And)) } }
pub open spec fn vgens(v: JV) -> Option<Map<Seq<char>, GQ>> { match jsub(v, "generators"@) { Some(JV::Obj(m)) => vg_load(m, jkeys(m).len()), _ => Some(Map::empty()) } }
pub open spec fn vf(v: JV) -> Option<VQ> { match (vcat(v), vgens(v)) { (Some(c), Some(g)) => Some((match jsub(v, "index"@) { Some(i) => match jsize(i) { Some(n) => n, None => 0 }, None => 0 }, c, g)), _ => None } }
pub open spec fn vfs(s: Seq<JV>, n: nat) -> Option<Seq<VQ>> decreases n { if n == 0 || n > s.len() { Some(seq![]) } else { match (vfs(s, (n - 1) as nat), vf(s[n - 1])) { (Some(h), Some(x)) => Some(h.push(x)), _ => None } } }
pub proof fn lemma_vfs_mono(s: Seq<JV>, a: nat, b: nat) requires a <= b, b <= s.len(), vfs(s, a) is None ensures vfs(s, b) is None decreases b { if a < b { lemma_vfs_mono(s, a, (b - 1) as nat); } }
pub open spec fn tx(o: Option<Seq<char>>, f: spec_fn(Seq<char>) -> RQ) -> Option<RQ> { match o { Some(s) => Some(f(s)), None => None } }
pub open spec fn sz(o: Option<usize>, f: spec_fn(usize) -> RQ) -> Option<RQ> { match o { Some(s) => Some(f(s)), None => None } }
/// the rule a type name and its attributes stand for
pub open spec fn rf(t: Seq<char>, m: JO) -> Option<RQ> {
  if t == "regex"@ { tx(mtext(m, "regex"@), |s: Seq<char>| RQ::Regex(s)) } else if t == "equality"@ { Some(RQ::Equality) } else if t == "include"@ { tx(mtext(m, "value"@), |s: Seq<char>| RQ::Include(s)) }
  else if t == "type"@ { match (msize(m, "min"@), msize(m, "max"@)) { (Some(a), Some(b)) => Some(RQ::MinMax(a, b)), (Some(a), None) => Some(RQ::Min(a)), (None, Some(b)) => Some(RQ::Max(b)), _ => Some(RQ::Type) } }
  else if t == "number"@ { Some(RQ::Number) } else if t == "integer"@ { Some(RQ::Integer) } else if t == "decimal"@ || t == "real"@ { Some(RQ::Decimal) } else if t == "boolean"@ { Some(RQ::Boolean) }
  else if t == "min"@ { sz(msize(m, "min"@), |n: usize| RQ::Min(n)) } else if t == "max"@ { sz(msize(m, "max"@), |n: usize| RQ::Max(n)) }
  else if t == "min-type"@ { sz(msize(m, "min"@), |n: usize| RQ::Min(n)) } else if t == "max-type"@ { sz(msize(m, "max"@), |n: usize| RQ::Max(n)) }
  else if t == "min-max-type"@ { match (msize(m, "min"@), msize(m, "max"@)) { (Some(a), Some(b)) => Some(RQ::MinMax(a, b)), _ => None } }
  else if t == "timestamp"@ || t == "datetime"@ { Some(RQ::Timestamp(fmt_or(m, t))) } else if t == "date"@ { Some(RQ::Date(fmt_or(m, t))) } else if t == "time"@ { Some(RQ::Time(fmt_or(m, t))) } else if t == "null"@ { Some(RQ::Null) }
  else if t == "contentType"@ || t == "content-type"@ { tx(mtext(m, "value"@), |s: Seq<char>| RQ::ContentType(s)) }
  else if t == "arrayContains"@ || t == "array-contains"@ { if m.dom().contains("variants"@) { match m["variants"@] { JV::Arr(a) => match vfs(a, a.len()) { Some(v) => Some(RQ::Array(v)), None => None }, _ => None } } else { None } }
  else if t == "values"@ { Some(RQ::Values) }
  else if t == "statusCode"@ || t == "status-code"@ { if m.dom().contains("status"@) { match sf(m["status"@]) { Some(s) => Some(RQ::Status(s)), None => None } } else { Some(RQ::Status(SQ::Success)) } }
  else if t == "notEmpty"@ || t == "not-empty"@ { Some(RQ::NotEmpty) } else if t == "semver"@ { Some(RQ::Semver) }
  else if t == "eachKey"@ || t == "each-key"@ { match df(m) { Some(d) => Some(RQ::EachKey(d)), None => None } } else if t == "eachValue"@ || t == "each-value"@ { match df(m) { Some(d) => Some(RQ::EachValue(d)), None => None } }
  else { None } }
/// attributes: an object, or null for none
pub open spec fn attrs(v: JV) -> Option<JO> { match v { JV::Obj(m) => Some(m), JV::Null => Some(Map::empty()), _ => None } }
/// the rule a JSON value stands for; without a type it is guessed from the attributes
pub open spec fn rfrom(v: JV) -> Option<RQ> { match v { JV::Obj(m) => match mtext(m, "match"@) { Some(t) => rf(t, m), None => match mtext(m, "pact:matcher:type"@) { Some(t) => rf(t, m), None =>
  match mtext(m, "regex"@) { Some(s) => Some(RQ::Regex(s)), None => match msize(m, "min"@) { Some(n) => Some(RQ::Min(n)), None => match msize(m, "max"@) { Some(n) => Some(RQ::Max(n)), None => match mtext(m, "timestamp"@) { Some(s) => Some(RQ::Timestamp(s)), None => match mtext(m, "time"@) { Some(s) => Some(RQ::Time(s)), None => tx(mtext(m, "date"@), |s: Seq<char>| RQ::Date(s)) } } } } } } }, _ => None } }
/// lengths and characters that tell the names apart
pub proof fn lemma_names() ensures "match"@.len() == 5, "pact:matcher:type"@.len() == 17, "regex"@.len() == 5, "equality"@.len() == 8, "include"@.len() == 7, "type"@.len() == 4, "number"@.len() == 6, "integer"@.len() == 7, "decimal"@.len() == 7, "real"@.len() == 4, "boolean"@.len() == 7, "min"@.len() == 3, "max"@.len() == 3, "min-type"@.len() == 8, "max-type"@.len() == 8, "min-max-type"@.len() == 12, "timestamp"@.len() == 9, "datetime"@.len() == 8, "date"@.len() == 4, "time"@.len() == 4, "null"@.len() == 4, "contentType"@.len() == 11, "content-type"@.len() == 12, "arrayContains"@.len() == 13, "array-contains"@.len() == 14, "values"@.len() == 6, "statusCode"@.len() == 10, "status-code"@.len() == 11, "notEmpty"@.len() == 8, "not-empty"@.len() == 9, "semver"@.len() == 6, "eachKey"@.len() == 7, "each-key"@.len() == 8, "eachValue"@.len() == 9, "each-value"@.len() == 10, "format"@.len() == 6, "value"@.len() == 5, "status"@.len() == 6, "rules"@.len() == 5, "generator"@.len() == 9, "index"@.len() == 5, "generators"@.len() == 10, "variants"@.len() == 8, "info"@.len() == 4, "success"@.len() == 7, "redirect"@.len() == 8, "clientError"@.len() == 11, "serverError"@.len() == 11, "nonError"@.len() == 8, "error"@.len() == 5, "body"@.len() == 4, "body"@[1] == 'o', "boolean"@[6] == 'n', "clientError"@[1] == 'l', "content-type"@[0] == 'c', "contentType"@[1] == 'o', "date"@[1] == 'a', "datetime"@[0] == 'd', "datetime"@[2] == 't', "decimal"@[6] == 'l', "each-key"@[2] == 'c', "each-value"@[0] == 'e', "eachKey"@[6] == 'y', "eachValue"@[0] == 'e', "equality"@[2] == 'u', "error"@[0] == 'e', "format"@[1] == 'o', "generator"@[0] == 'g', "generators"@[0] == 'g', "include"@[6] == 'e', "index"@[0] == 'i', "info"@[1] == 'n', "integer"@[6] == 'r', "match"@[0] == 'm', "max"@[1] == 'a', "max-type"@[2] == 'x', "min"@[1] == 'i', "min-max-type"@[0] == 'm', "min-type"@[0] == 'm', "min-type"@[2] == 'n', "nonError"@[0] == 'n', "nonError"@[2] == 'n', "not-empty"@[0] == 'n', "notEmpty"@[0] == 'n', "notEmpty"@[2] == 't', "null"@[1] == 'u', "number"@[1] == 'u', "real"@[1] == 'e', "redirect"@[2] == 'd', "regex"@[0] == 'r', "regex"@[1] == 'e', "rules"@[0] == 'r', "rules"@[1] == 'u', "semver"@[1] == 'e', "serverError"@[1] == 'e', "status"@[1] == 't', "status-code"@[1] == 't', "statusCode"@[0] == 's', "success"@[6] == 's', "time"@[1] == 'i', "timestamp"@[0] == 't', "type"@[1] == 'y', "value"@[0] == 'v', "values"@[1] == 'a', "variants"@[2] == 'r' {
  reveal_strlit("match"); reveal_strlit("pact:matcher:type"); reveal_strlit("regex"); reveal_strlit("equality"); reveal_strlit("include"); reveal_strlit("type"); reveal_strlit("number"); reveal_strlit("integer"); reveal_strlit("decimal"); reveal_strlit("real"); reveal_strlit("boolean"); reveal_strlit("min"); reveal_strlit("max"); reveal_strlit("min-type"); reveal_strlit("max-type"); reveal_strlit("min-max-type"); reveal_strlit("timestamp"); reveal_strlit("datetime"); reveal_strlit("date"); reveal_strlit("time"); reveal_strlit("null"); reveal_strlit("contentType"); reveal_strlit("content-type"); reveal_strlit("arrayContains"); reveal_strlit("array-contains"); reveal_strlit("values"); reveal_strlit("statusCode"); reveal_strlit("status-code"); reveal_strlit("notEmpty"); reveal_strlit("not-empty"); reveal_strlit("semver"); reveal_strlit("eachKey"); reveal_strlit("each-key"); reveal_strlit("eachValue"); reveal_strlit("each-value"); reveal_strlit("format"); reveal_strlit("value"); reveal_strlit("status"); reveal_strlit("rules"); reveal_strlit("generator"); reveal_strlit("index"); reveal_strlit("generators"); reveal_strlit("variants"); reveal_strlit("info"); reveal_strlit("success"); reveal_strlit("redirect"); reveal_strlit("clientError"); reveal_strlit("serverError"); reveal_strlit("nonError"); reveal_strlit("error"); reveal_strlit("body");
}
// ---- the property ----
/// an object lists each of its keys once
pub broadcast axiom fn axiom_jkeys(d: JO) ensures (#[trigger] jkeys(d)).no_duplicates(), forall|k: Seq<char>| #[trigger] d.dom().contains(k) <==> jkeys(d).contains(k);
/// the generator has a JSON form that is read back (theorem_generator_json in gen_json)
pub open spec fn gen_ok(g: GQ) -> bool { gj(g) matches Some(m) && m.dom().contains("type"@) && (m["type"@] matches JV::Str(t) && gf(t, m) == Some(g)) }
/// the rules of a definition are read back (induction on the nesting depth), and its generator
pub open spec fn def_ok(d: DQ) -> bool { (forall|i: int| 0 <= i < d.rules.len() ==> pf(pj(#[trigger] d.rules[i])) == Some(d.rules[i])) && (d.gen matches Some(g) ==> gen_ok(g)) }
/// a variant: its category is read back (theorem_category_json in cat_json), its generators are at paths
pub open spec fn var_ok(v: VQ) -> bool { cat_load(cat_empty("body"@), catj(v.1)) == Some(v.1) && forall|k: Seq<char>| #[trigger] v.2.dom().contains(k) ==> is_path(k) && gen_ok(v.2[k]) }
pub open spec fn rule_ok(r: RQ) -> bool { match r { RQ::EachKey(d) | RQ::EachValue(d) => def_ok(d), RQ::Array(v) => forall|i: int| 0 <= i < v.len() ==> var_ok(#[trigger] v[i]), _ => true } }
pub proof fn lemma_status(s: SQ) ensures sf(sj(s)) == Some(s) { lemma_names(); if let SQ::Codes(c) = s { assert forall|i: int| 0 <= i < c.len() implies code_of(#[trigger] jcodes(c)[i]) == Some(c[i]) by {} assert(codes_of(jcodes(c))->0 =~= c); } }
pub proof fn lemma_def(m: JO, d: DQ) requires def_ok(d), !m.dom().contains("value"@), !m.dom().contains("generator"@), m.dom().contains("rules"@), m["rules"@] == JV::Arr(pjs(d.rules)) ensures df(dj(m, d)) == Some(d) {
  lemma_names(); let p = pjs(d.rules); assert forall|i: int| 0 <= i < p.len() implies pf(#[trigger] p[i]) == Some(d.rules[i]) by {} assert(pfs(p)->0 =~= d.rules); if d.value.len() == 0 { assert(d.value =~= seq![]); } }
pub proof fn lemma_gens(m: Map<Seq<char>, GQ>, n: nat) requires forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> is_path(k) && gen_ok(m[k]), n <= jkeys(gens_j(m)).len()
  ensures vg_load(gens_j(m), n) is Some, ({ let h = vg_load(gens_j(m), n)->0; (forall|k: Seq<char>| #[trigger] h.dom().contains(k) ==> m.dom().contains(k) && h[k] == m[k]) && (forall|i: int| 0 <= i < n ==> h.dom().contains(#[trigger] jkeys(gens_j(m))[i])) }) decreases n {
  broadcast use axiom_jkeys; if n > 0 { lemma_gens(m, (n - 1) as nat); let o = gens_j(m); let k = jkeys(o)[n - 1]; assert(jkeys(o).contains(k)); assert(o.dom().contains(k)); assert(m.dom().contains(k)); } }
pub proof fn lemma_variant(v: VQ) requires var_ok(v) ensures vf(vj(v)) == Some(v) {
  lemma_names(); broadcast use axiom_jkeys; let o = gens_j(v.2); lemma_gens(v.2, jkeys(o).len()); let h = vg_load(o, jkeys(o).len())->0;
  assert forall|k: Seq<char>| v.2.dom().contains(k) implies h.dom().contains(k) by { assert(o.dom().contains(k)); assert(jkeys(o).contains(k)); } assert(h =~= v.2);
  if v.2.dom() =~= Set::empty() { assert(v.2 =~= Map::empty()); } }
pub proof fn lemma_variants(v: Seq<VQ>, n: nat) requires forall|i: int| 0 <= i < v.len() ==> var_ok(#[trigger] v[i]), n <= v.len() ensures vfs(vjs(v), n) == Some(v.take(n as int)) decreases n {
  if n > 0 { lemma_variants(v, (n - 1) as nat); lemma_variant(v[n - 1]); assert(vjs(v)[n - 1] == vj(v[n - 1])); assert(v.take(n as int) =~= v.take(n - 1).push(v[n - 1])); } else { assert(v.take(0) =~= seq![]); } }
/// reading the JSON form of a rule gives the rule
pub proof fn theorem_rule_json(r: RQ) requires rule_ok(r) ensures rfrom(JV::Obj(rj(r))) == Some(r) {
  lemma_names();
  match r { RQ::EachKey(d) => { lemma_def(mt("eachKey"@).insert("rules"@, JV::Arr(pjs(d.rules))), d); } RQ::EachValue(d) => { lemma_def(mt("eachValue"@).insert("rules"@, JV::Arr(pjs(d.rules))), d); }
    RQ::Status(s) => { lemma_status(s); } RQ::Array(v) => { lemma_variants(v, v.len()); assert(v.take(v.len() as int) =~= v); } _ => {} } }
/// the name and the attributes of a rule create the rule
pub proof fn theorem_create(r: RQ) requires rule_ok(r), !(r is Array) ensures rf(rname(r), rvals(r)) == Some(r) {
  lemma_names();
  match r { RQ::EachKey(d) | RQ::EachValue(d) => { lemma_def(Map::<Seq<char>, JV>::empty().insert("rules"@, JV::Arr(pjs(d.rules))), d); } RQ::Status(s) => { lemma_status(s); } _ => {} } }
/// the attributes of a rule
pub open spec fn jo1(k: Seq<char>, v: JV) -> JO { Map::<Seq<char>, JV>::empty().insert(k, v) }
pub open spec fn var_vals(v: VQ) -> JV { JV::Arr(seq![jint(v.0 as int), catj(v.1), JV::Obj(gens_j(v.2))]) }
pub open spec fn rvals(r: RQ) -> JO { match r { RQ::Regex(s) => jo1("regex"@, JV::Str(s)), RQ::Min(n) => jo1("min"@, jint(n as int)), RQ::Max(n) => jo1("max"@, jint(n as int)), RQ::MinMax(a, b) => jo1("min"@, jint(a as int)).insert("max"@, jint(b as int)),
  RQ::Timestamp(s) | RQ::Time(s) | RQ::Date(s) => jo1("format"@, JV::Str(s)), RQ::Include(s) | RQ::ContentType(s) => jo1("value"@, JV::Str(s)), RQ::Array(v) => jo1("variants"@, JV::Arr(v.map_values(|x: VQ| var_vals(x)))), RQ::Status(s) => jo1("status"@, sj(s)),
  RQ::EachKey(d) | RQ::EachValue(d) => dj(jo1("rules"@, JV::Arr(pjs(d.rules))), d), _ => Map::empty() } }
impl<'a> VxKey for &'a str { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
pub open spec fn hv(m: HashMap<&'static str, Value>) -> JO { m@.map_values(|e: (&'static str, Value)| jv(e.1)) }
impl VxCollect<Value> for Value { open spec fn added(&self, x: Value, r: Self) -> bool { jv(*self) is Arr ==> jv(r) == JV::Arr(jv(*self)->Arr_0.push(jv(x))) } open spec fn is_new(&self) -> bool { jv(*self) == JV::Arr(seq![]) }
  #[verifier::external_body] fn vx_new() -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_add(&mut self, x: Value) { unimplemented!() } }
pub open spec fn rname(r: RQ) -> Seq<char> { match r { RQ::Equality => "equality"@, RQ::Regex(_) => "regex"@, RQ::Type => "type"@, RQ::Min(_) => "min-type"@, RQ::Max(_) => "max-type"@, RQ::MinMax(_, _) => "min-max-type"@, RQ::Timestamp(_) => "datetime"@, RQ::Time(_) => "time"@, RQ::Date(_) => "date"@, RQ::Include(_) => "include"@, RQ::Number => "number"@, RQ::Integer => "integer"@, RQ::Decimal => "decimal"@, RQ::Null => "null"@, RQ::ContentType(_) => "content-type"@, RQ::Array(_) => "array-contains"@, RQ::Values => "values"@, RQ::Boolean => "boolean"@, RQ::Status(_) => "status-code"@, RQ::NotEmpty => "not-empty"@, RQ::Semver => "semver"@, RQ::EachKey(_) => "each-key"@, RQ::EachValue(_) => "each-value"@ } }
/// loading one generator of a variant, as proved for Generators::parse_generator_from_map in gens_json
pub open spec fn gcat(g: Generators, c: GeneratorCategory) -> Map<Seq<char>, GQ> { if g.categories@.dom().contains(c) { gens_q(g.categories@[c].1) } else { Map::empty() } }
impl Generators {
  #[verifier::external_body] pub fn default() -> (r: Self) ensures r.categories@ == Map::<GeneratorCategory, (GeneratorCategory, HashMap<DocPath, Generator>)>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn parse_generator_from_map(&mut self, c: &GeneratorCategory, m: &JMap, p: Option<DocPath>) requires p is Some ensures gcat(*final(self), *c) == vg_one(gcat(*old(self), *c), jm(*m), ptext(p->0)) { unimplemented!() }
}
}
%src rust/pact_models/src/json_utils.rs
%fn json_to_string
%sig
  ensures r@ == jtext(jv(*value))
%body_start
  proof { broadcast use axiom_jv; }
%fn json_to_num
%sub `n.as_f64().unwrap() as usize` => `vx_f_usize(n.as_f64().unwrap())`
%sub `usize::from_str(&s.clone())` => `vx_parse::<usize>(s.as_str())`
%sub `Value::String(ref s)` => `Value::String(s)`
%sig
  ensures r == (match value { Some(v) => jsize(jv(v)), None => None })
%body_start
  proof { broadcast use axiom_jv; broadcast use axiom_nv; }
%src rust/pact_models/src/lib.rs
%fn HttpStatus::from_json
%chain
%bty 2 Vec<u16>
%opt
%sub `anyhow::Result<Self>` => `Result<HttpStatus, VxError>`
%sub `match s.as_str() {` => `match vx_lit(s.as_str()) {`
%sub `u16::try_from(n.as_i64().unwrap())` => `vx_u16_of_i64(n.as_i64().unwrap())`
%sub `n if n > -1.0 && n < 65536.0 => Ok(n as u16)` => `n if vx_f_status(n) => Ok(vx_f_u16(n))`
%sub `s.parse::<u16>()` => `vx_parse::<u16>(s.as_str())`
%sig
  ensures r is Ok == sf(jv(*value)) is Some, r is Ok ==> Some(sq(r->Ok_0)) == sf(jv(*value))
%body_start
  proof { broadcast use axiom_jv; broadcast use axiom_nv; }
%loop 0 it
  invariant it.seq().len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> *(#[trigger] it.seq()[i]) == a@[i], jv(*value) == JV::Arr(jvs(a@)),
    vx_b0@.len() == it.index@, forall|i: int| 0 <= i < vx_b0@.len() ==> (#[trigger] vx_b0@[i]) is Ok == code_of(jvs(a@)[i]) is Some && (vx_b0@[i] is Ok ==> Some(vx_b0@[i]->Ok_0) == code_of(jvs(a@)[i]))
%loop_start 0
  proof { broadcast use axiom_jv; broadcast use axiom_nv; assert(jv(*vx_x0) == jvs(a@)[it.index@]); }
%loop 1 jt
  invariant_except_break !vx_b1, forall|i: int| 0 <= i < jt.index@ ==> (#[trigger] status_codes@[i]) is Ok
  invariant jt.seq().len() == status_codes@.len(), forall|i: int| 0 <= i < status_codes@.len() ==> *(#[trigger] jt.seq()[i]) == status_codes@[i]
  ensures vx_b1 == (exists|i: int| 0 <= i < status_codes@.len() && (#[trigger] status_codes@[i]) is Err)
%after_loop 1
  proof { if vx_b1 { let i = choose|i: int| 0 <= i < status_codes@.len() && (#[trigger] status_codes@[i]) is Err; assert(code_of(jvs(a@)[i]) is None); } else { assert forall|i: int| 0 <= i < jvs(a@).len() implies code_of(#[trigger] jvs(a@)[i]) is Some by { assert(!(status_codes@[i] is Err)); } } }
%loop 2 it
  invariant it.seq().len() == status_codes@.len(), forall|i: int| 0 <= i < status_codes@.len() ==> *(#[trigger] it.seq()[i]) == status_codes@[i], forall|i: int| 0 <= i < status_codes@.len() ==> (#[trigger] status_codes@[i]) is Ok, vx_b2@.len() == it.index@, forall|i: int| 0 <= i < vx_b2@.len() ==> #[trigger] vx_b2@[i] == status_codes@[i]->Ok_0
%after_loop 2
  proof { assert(vx_b2@ =~= codes_of(jvs(a@))->0); }
%fn HttpStatus::to_json
%sig
  ensures jv(r) == sj(sq(*self))
%body_start
  proof { broadcast use axiom_jv; }
%before `match self {`
  proof { if let HttpStatus::StatusCodes(c) = self { assert(c@.map_values(|x: u16| x.tv()) =~= jcodes(c@)); } }
%src rust/pact_models/src/matchingrules/mod.rs
%fn generator_from_json
%sub `Map<String, Value>` => `JMap`
%sig
  ensures r is Some == gen_of(jm(*json)) is Some, r is Some ==> Some(gq(r->0)) == gen_of(jm(*json))
%body_start
  proof { broadcast use axiom_jv; }
%fn rules_from_json
%bty 0 Vec<Result<RulePart, VxError>>
%bty 2 Vec<Either<RulePart, MatchingReference>>
%sub `Map<String, Value>` => `JMap`
%sub `anyhow::Result<Vec<Either<MatchingRule, MatchingReference>>>` => `Result<Vec<Either<RulePart, MatchingReference>>, VxError>`
%lazy
%sub `MatchingRule::from_json(rule)` => `vx_rule_part(rule)`
%sub `rules.clone().find(|rule| rule.is_err())` => `vx_find_err(&rules)`
%sig
  ensures r is Ok == rules_of(jm(*attributes)) is Some, r is Ok ==> Some(parts(r->Ok_0@)) == rules_of(jm(*attributes)) && forall|i: int| 0 <= i < r->Ok_0@.len() ==> (#[trigger] r->Ok_0@[i]) is Left
%body_start
  proof { broadcast use axiom_jv; }
%loop 0 it
  invariant it.seq().len() == rules@.len(), forall|i: int| 0 <= i < rules@.len() ==> *(#[trigger] it.seq()[i]) == rules@[i],
    vx_b0@.len() == it.index@, forall|i: int| 0 <= i < vx_b0@.len() ==> (#[trigger] vx_b0@[i]) is Ok == pf(jvs(rules@)[i]) is Some && (vx_b0@[i] is Ok ==> Some(pq(vx_b0@[i]->Ok_0)) == pf(jvs(rules@)[i]))
%loop_start 0
  proof { assert(jv(*vx_x0) == jvs(rules@)[it.index@]); }
%before @last `if let Some(err)`
  let ghost rr = rules@; let ghost js = jm(*attributes)["rules"@]->Arr_0;
  proof { assert(pfs(js) is Some == (forall|i: int| 0 <= i < rr.len() ==> (#[trigger] rr[i]) is Ok)) by { if pfs(js) is Some { assert forall|i: int| 0 <= i < rr.len() implies (#[trigger] rr[i]) is Ok by { assert(pf(js[i]) is Some); } } else { let i = choose|i: int| 0 <= i < js.len() && pf(#[trigger] js[i]) is None; assert(rr[i] is Err); } } }
%loop 2 it
  invariant it.seq() == rr, forall|i: int| 0 <= i < rr.len() ==> (#[trigger] rr[i]) is Ok, vx_b2@.len() == it.index@, forall|i: int| 0 <= i < vx_b2@.len() ==> (#[trigger] vx_b2@[i]) is Left && vx_b2@[i]->Left_0 == rr[i]->Ok_0
%after_loop 2
  proof { assert(parts(vx_b2@) =~= pfs(js)->0); }
%fn MatchingRule::name
%sig
  ensures r@ == rname(rq(*self))
%fn MatchingRule::from_json
%opt
%sub `anyhow::Result<MatchingRule>` => `Result<MatchingRule, VxError>`
%sig
  ensures r is Ok == rfrom(jv(*value)) is Some, r is Ok ==> Some(rq(r->Ok_0)) == rfrom(jv(*value)) && resolved(r->Ok_0)
%body_start
  proof { broadcast use axiom_jv; }
%fn MatchingRule::to_json
%chain
%bty 1 JMap
%bty 2 Vec<Value>
%bty 3 Vec<Value>
%sub 2 `json.as_object_mut().unwrap()` => `vx_obj_mut(&mut json)`
%sub 2 `generator.to_json().unwrap_or_default()` => `vx_or_null(generator.to_json())`
%sub `String::from(k)` => `k.to_string()`
%sig
  requires resolved(*self)
  ensures jv(r) == JV::Obj(rj(rq(*self)))
%body_start
  proof { broadcast use axiom_jv; }
%loop 0 it
  invariant it.seq().len() == variants@.len(), forall|i: int| 0 <= i < variants@.len() ==> *(#[trigger] it.seq()[i]) == variants@[i],
    vx_b0@.len() == it.index@, forall|i: int| 0 <= i < vx_b0@.len() ==> jv(#[trigger] vx_b0@[i]) == vj(vq(variants@[i]))
%loop_start 0
  proof { broadcast use axiom_jv; }
  let ghost v0 = variants@[it.index@]; let ghost q0 = vq(v0);
%base 1
%after_base 1
  proof { generators.axiom_wf(); }
%loop 1 jt
  invariant jt.seq() == vx_s1@, entries_of(vx_s1@, generators@), q0.2 == gens_q(*generators),
    forall|k: Seq<char>| #[trigger] jm(vx_b1).dom().contains(k) ==> gens_j(q0.2).dom().contains(k) && jm(vx_b1)[k] == gens_j(q0.2)[k],
    forall|i: int| 0 <= i < jt.index@ && gj(gq(*(#[trigger] vx_s1@[i]).1)) is Some ==> jm(vx_b1).dom().contains(ptext(*vx_s1@[i].0))
%loop_start 1
  proof { broadcast use axiom_jv; let i = jt.index@; let k = ptext(*vx_s1@[i].0); assert(generators@[vx_s1@[i].0.kv()] == (*vx_s1@[i].0, *vx_s1@[i].1)); assert(q0.2.dom().contains(k) && q0.2[k] == gq(*vx_s1@[i].1)); }
%after_loop 1
  proof { assert forall|k: Seq<char>| gens_j(q0.2).dom().contains(k) implies jm(vx_b1).dom().contains(k) by { assert(generators@.dom().contains(k)); let i = choose|i: int| 0 <= i < vx_s1@.len() && (#[trigger] vx_s1@[i]).0.kv() == k; assert(generators@[vx_s1@[i].0.kv()] == (*vx_s1@[i].0, *vx_s1@[i].1)); } assert(jm(vx_b1) =~= gens_j(q0.2)); }
%loop_end 0
  proof { assert(jv(vx_b0@[vx_b0@.len() - 1]) == vj(q0)); }
%after_loop 0
  proof { assert(vx_b0@.map_values(|x: Value| x.tv()) =~= vjs(vqs(variants@))); }
%loop 2 it
  invariant it.seq().len() == definition.rules@.len(), forall|i: int| 0 <= i < definition.rules@.len() ==> *(#[trigger] it.seq()[i]) == definition.rules@[i], resolved_d(*definition),
    vx_b2@.len() == it.index@, forall|i: int| 0 <= i < vx_b2@.len() ==> jv(#[trigger] vx_b2@[i]) == pjs(parts(definition.rules@))[i]
%loop_start 2
  proof { assert(definition.rules@[it.index@] is Left); }
%after_loop 2
  proof { assert(vx_b2@.map_values(|x: Value| x.tv()) =~= pjs(parts(definition.rules@))); }
%loop 3 it
  invariant it.seq().len() == definition.rules@.len(), forall|i: int| 0 <= i < definition.rules@.len() ==> *(#[trigger] it.seq()[i]) == definition.rules@[i], resolved_d(*definition),
    vx_b3@.len() == it.index@, forall|i: int| 0 <= i < vx_b3@.len() ==> jv(#[trigger] vx_b3@[i]) == pjs(parts(definition.rules@))[i]
%loop_start 3
  proof { assert(definition.rules@[it.index@] is Left); }
%after_loop 3
  proof { assert(vx_b3@.map_values(|x: Value| x.tv()) =~= pjs(parts(definition.rules@))); }
%fn MatchingRule::create
%opt
%attr #[verifier::loop_isolation(false)]
%attr #[verifier::rlimit(80)]
%sub `anyhow::Result<MatchingRule>` => `Result<MatchingRule, VxError>`
%sub `match rule_type {` => `match vx_lit(rule_type) {`
%sub `Value::Null => Map::default()` => `Value::Null => JMap::default()`
%sub `json_to_num(variant.get("index").cloned()).unwrap_or_default()` => `vx_or_zero(json_to_num(variant.get("index").cloned()))`
%sub `g.categories.get(&cat).cloned().unwrap_or_default()` => `vx_or_empty(g.categories.get(&cat).cloned())`
%sub 2 `attributes.get("value").cloned().unwrap_or_default()` => `vx_or_null(attributes.get("value").cloned())`
%base 1 vx_pairs
%sig
  ensures r is Ok == (attrs(jv(*attributes)) matches Some(m) && rf(rule_type@, m) is Some), r is Ok ==> Some(rq(r->Ok_0)) == rf(rule_type@, attrs(jv(*attributes))->0) && resolved(r->Ok_0)
%body_start
  proof { broadcast use axiom_jv; }
  let ghost t0 = rule_type@; let ghost a0 = jv(*attributes);
%loop 0 it
  invariant it.seq().len() == variants@.len(), forall|i: int| 0 <= i < variants@.len() ==> *(#[trigger] it.seq()[i]) == variants@[i],
    Some(vqs(values@)) == vfs(jvs(variants@), it.index@ as nat)
%loop_start 0
  proof { broadcast use axiom_jv; assert(jv(*variant) == jvs(variants@)[it.index@]); if vfs(jvs(variants@), (it.index@ + 1) as nat) is None { lemma_vfs_mono(jvs(variants@), (it.index@ + 1) as nat, variants@.len()); } }
  let ghost n0 = it.index@ as nat; let ghost vs0 = values@;
%loop 1 jt
  invariant pairs_of(jt.seq(), jm(*map)), Some(gcat(g, cat)) == vg_load(jm(*map), jt.index@ as nat)
%loop_start 1
  proof { broadcast use axiom_jv; if vg_load(jm(*map), (jt.index@ + 1) as nat) is None { lemma_vg_mono(jm(*map), (jt.index@ + 1) as nat, jkeys(jm(*map)).len()); assert(vgens(jv(*variant)) is None); } }
%loop_end 0
  proof { let l = values@.last(); let v = jv(*variant); assert(gens_q(l.2) =~= vgens(v)->0); assert(vcat(v) == Some(cq(l.1))); assert(vq(l) == vf(v)->0); assert(vqs(values@) =~= vqs(vs0).push(vq(l))); }
%fn MatchingRule::values
%chain
%bty 1 JMap
%sub `generator.to_json().unwrap_or_default()` => `vx_or_null(generator.to_json())`
%sig
  requires resolved(*self)
  ensures hv(r) =~= rvals(rq(*self))
%body_start
  proof { broadcast use axiom_jv; }
%bty 0 Value
%bty 2 Vec<Value>
%loop 0 it
  invariant it.seq().len() == variants@.len(), forall|i: int| 0 <= i < variants@.len() ==> *(#[trigger] it.seq()[i]) == variants@[i],
    jv(vx_b0) is Arr, ({ let a = jv(vx_b0)->Arr_0; a.len() == it.index@ && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) == var_vals(vq(variants@[i])) })
%loop_start 0
  proof { broadcast use axiom_jv; }
  let ghost v0 = variants@[it.index@]; let ghost q0 = vq(v0); let ghost b0 = jv(vx_b0)->Arr_0;
%base 1
%after_base 1
  proof { gens.axiom_wf(); }
%loop 1 jt
  invariant jt.seq() == vx_s1@, entries_of(vx_s1@, gens@), q0.2 == gens_q(*gens),
    forall|k: Seq<char>| #[trigger] jm(vx_b1).dom().contains(k) ==> gens_j(q0.2).dom().contains(k) && jm(vx_b1)[k] == gens_j(q0.2)[k],
    forall|i: int| 0 <= i < jt.index@ && gj(gq(*(#[trigger] vx_s1@[i]).1)) is Some ==> jm(vx_b1).dom().contains(ptext(*vx_s1@[i].0))
%loop_start 1
  proof { broadcast use axiom_jv; let i = jt.index@; let k = ptext(*vx_s1@[i].0); assert(gens@[vx_s1@[i].0.kv()] == (*vx_s1@[i].0, *vx_s1@[i].1)); assert(q0.2.dom().contains(k) && q0.2[k] == gq(*vx_s1@[i].1)); }
%after_loop 1
  proof { assert forall|k: Seq<char>| gens_j(q0.2).dom().contains(k) implies jm(vx_b1).dom().contains(k) by { assert(gens@.dom().contains(k)); let i = choose|i: int| 0 <= i < vx_s1@.len() && (#[trigger] vx_s1@[i]).0.kv() == k; assert(gens@[vx_s1@[i].0.kv()] == (*vx_s1@[i].0, *vx_s1@[i].1)); } assert(jm(vx_b1) =~= gens_j(q0.2)); }
%loop_end 0
  proof { let a = jv(vx_b0)->Arr_0; assert(a =~= b0.push(a.last())); assert(a.last()->Arr_0 =~= seq![jint(q0.0 as int), catj(q0.1), JV::Obj(gens_j(q0.2))]); assert(a.last() == var_vals(q0)); }
%after_loop 0
  proof { assert(jv(vx_b0)->Arr_0 =~= vqs(variants@).map_values(|x: VQ| var_vals(x))); }
%loop 2 it
  invariant it.seq().len() == definition.rules@.len(), forall|i: int| 0 <= i < definition.rules@.len() ==> *(#[trigger] it.seq()[i]) == definition.rules@[i], resolved_d(*definition),
    vx_b2@.len() == it.index@, forall|i: int| 0 <= i < vx_b2@.len() ==> jv(#[trigger] vx_b2@[i]) == pjs(parts(definition.rules@))[i]
%loop_start 2
  proof { assert(definition.rules@[it.index@] is Left); }
%after_loop 2
  proof { assert(jvs(vx_b2@) =~= pjs(parts(definition.rules@))); }
%closure 2 |json: Value| -> (o: (String, Value)) ensures o.0@ == ptext(*key), o.1 == json
