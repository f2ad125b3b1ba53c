%unit cat_json
%include std.rs
%include vxmap.rs
%include json_val.rs
%src rust/pact_models/src/matchingrules/mod.rs
%enum Category
%enum RuleLogic
%src rust/pact_models/src/path_exp.rs
%enum PathToken
%prelude
verus! {
global size_of usize == 8;
pub type JO = Map<Seq<char>, JV>;
impl Clone for Category { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for RuleLogic { fn clone(&self) -> (r: Self) ensures r == *self { match self { RuleLogic::And => RuleLogic::And, RuleLogic::Or => RuleLogic::Or } } }
impl Copy for RuleLogic {}
impl VxKey for Category { type KV = Category; open spec fn kv(&self) -> Category { *self } }
/// derived PartialEq of a unit-only enum, and str equality
pub trait VxEq<B: ?Sized> { spec fn same(&self, o: &B) -> bool; fn vx_same(&self, o: &B) -> (r: bool) ensures r == self.same(o); }
impl VxEq<Category> for Category { open spec fn same(&self, o: &Category) -> bool { *self == *o } #[verifier::external_body] fn vx_same(&self, o: &Category) -> (r: bool) { unimplemented!() } }
impl VxEq<str> for String { open spec fn same(&self, o: &str) -> bool { self@ == o@ } fn vx_same(&self, o: &str) -> (r: bool) { vx_str_eq(self.as_str(), o) } }
impl VxEq<&str> for &String { open spec fn same(&self, o: &&str) -> bool { (**self)@ == (**o)@ } fn vx_same(&self, o: &&str) -> (r: bool) { vx_str_eq((**self).as_str(), *o) } }
impl VxEq<&str> for String { open spec fn same(&self, o: &&str) -> bool { self@ == (**o)@ } fn vx_same(&self, o: &&str) -> (r: bool) { vx_str_eq(self.as_str(), *o) } }
impl VxEq<usize> for usize { open spec fn same(&self, o: &usize) -> bool { *self == *o } fn vx_same(&self, o: &usize) -> (r: bool) { *self == *o } }
impl<'a> VxEq<Option<&'a str>> for Option<&'a str> { open spec fn same(&self, o: &Option<&'a str>) -> bool { match (*self, *o) { (Some(a), Some(b)) => a@ == b@, (None, None) => true, _ => false } } fn vx_same(&self, o: &Option<&'a str>) -> (r: bool) { match (*self, *o) { (Some(a), Some(b)) => vx_str_eq(a, b), (None, None) => true, _ => false } } }
pub fn vx_eq<A: VxEq<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == a.same(b) { a.vx_same(b) }
/// two str values with the same characters are equal
#[verifier::external_body] pub fn vx_lit<'a>(s: &'a str) -> (r: &'a str) ensures r@ == s@, forall|b: &str| (#[trigger] b@) == s@ ==> b == r { unimplemented!() }
/// anything that is text
pub trait VxText { spec fn text(&self) -> Seq<char>; fn into(self) -> (r: String) where Self: Sized ensures r@ == self.text(); }
impl VxText for String { open spec fn text(&self) -> Seq<char> { self@ } fn into(self) -> (r: String) { self } }
impl VxText for &String { open spec fn text(&self) -> Seq<char> { (**self)@ } fn into(self) -> (r: String) { self.clone() } }
impl VxText for &str { open spec fn text(&self) -> Seq<char> { (**self)@ } fn into(self) -> (r: String) { self.to_string() } }
// ---- paths, by the contracts proved for them in path_ops and path_parse: the steps are those the text has ----
#[verifier::external_body] pub struct DocPath { _p: () }
pub ghost enum Tok { Field(Seq<char>), Other }
pub open spec fn tk(t: PathToken) -> Tok { match t { PathToken::Field(n) => Tok::Field(n@), _ => Tok::Other } }
pub open spec fn tks(s: Seq<PathToken>) -> Seq<Tok> { s.map_values(|t: PathToken| tk(t)) }
pub uninterp spec fn ptext(p: DocPath) -> Seq<char>;
pub uninterp spec fn ptoks(s: Seq<char>) -> Seq<Tok>;
pub uninterp spec fn is_path(s: Seq<char>) -> bool;
pub open spec fn texts(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
/// the text after a field step was added
pub uninterp spec fn push_text(s: Seq<char>, n: Seq<char>) -> Seq<char>;
/// the text after the steps of another path were added
pub uninterp spec fn append_text(s: Seq<char>, t: Seq<char>) -> Seq<char>;
/// the names of the fields, in their order
pub open spec fn fields(s: Seq<Tok>) -> Seq<Seq<char>> decreases s.len() { if s.len() == 0 { seq![] } else { match s.last() { Tok::Field(n) => fields(s.drop_last()).push(n), Tok::Other => fields(s.drop_last()) } } }
pub open spec fn pfirst(s: Seq<char>) -> Option<Seq<char>> { if fields(ptoks(s)).len() > 0 { Some(fields(ptoks(s))[0]) } else { None } }
pub open spec fn root_text() -> Seq<char> { seq!['$'] }
pub open spec fn field_path(n: Seq<char>) -> Seq<char> { push_text(root_text(), n) }
impl VxKey for DocPath { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { ptext(*self) } }
impl Clone for DocPath { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl DocPath {
  #[verifier::external_body] pub fn new<S: VxText>(s: S) -> (r: Result<DocPath, VxError>) ensures r is Ok == is_path(s.text()), r is Ok ==> ptext(r->Ok_0) == s.text() { unimplemented!() }
  #[verifier::external_body] pub fn empty() -> (r: DocPath) ensures ptext(r) == Seq::<char>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn root() -> (r: DocPath) ensures ptext(r) == root_text() { unimplemented!() }
  #[verifier::external_body] pub fn push_field<S: VxText>(&mut self, s: S) ensures ptext(*final(self)) == push_text(ptext(*old(self)), s.text()) { unimplemented!() }
  #[verifier::external_body] pub fn push_path(&mut self, p: &DocPath) ensures ptext(*final(self)) == append_text(ptext(*old(self)), ptext(*p)) { unimplemented!() }
  #[verifier::external_body] pub fn tokens(&self) -> (r: &Vec<PathToken>) ensures tks(r@) == ptoks(ptext(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == ptoks(ptext(*self)).len() { unimplemented!() }
  #[verifier::external_body] pub fn first_field(&self) -> (r: Option<&str>) ensures r is Some == pfirst(ptext(*self)) is Some, r is Some ==> Some(r->0@) == pfirst(ptext(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == ptext(*self) { unimplemented!() }
}
// ---- rules, by the contract proved in rule_json ----
#[verifier::external_body] pub struct MatchingRule { _p: () }
#[verifier::external_body] pub ghost struct RQ { _p: () }
pub uninterp spec fn rq(r: MatchingRule) -> RQ;
pub uninterp spec fn rj(r: RQ) -> JO;
pub uninterp spec fn rfrom(v: JV) -> Option<RQ>;
impl MatchingRule {
  #[verifier::external_body] pub fn to_json(&self) -> (r: Value) ensures jv(r) == JV::Obj(rj(rq(*self))) { unimplemented!() }
  #[verifier::external_body] pub fn from_json(v: &Value) -> (r: Result<MatchingRule, VxError>) ensures r is Ok == rfrom(jv(*v)) is Some, r is Ok ==> Some(rq(r->Ok_0)) == rfrom(jv(*v)) { unimplemented!() }
}
#[verifier::external_body] pub fn json_to_string(v: &Value) -> (r: String) ensures r@ == jtext(jv(*v)) { unimplemented!() }
// ---- str::to_lowercase / to_uppercase: ASCII letters by table ----
pub open spec fn loc(c: char) -> char { if 'A' <= c && c <= 'Z' { (c as u8 + 32) as u8 as char } else { c } }
pub open spec fn upc(c: char) -> char { if 'a' <= c && c <= 'z' { (c as u8 - 32) as u8 as char } else { c } }
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
pub broadcast axiom fn axiom_lower(s: Seq<char>) requires ascii(s) ensures #[trigger] lower(s) == s.map_values(|c: char| loc(c));
pub broadcast axiom fn axiom_upper(s: Seq<char>) requires ascii(s) ensures #[trigger] upper(s) == s.map_values(|c: char| upc(c));
#[verifier::external_body] pub fn vx_lower(s: &str) -> (r: String) ensures r@ == lower(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_upper(s: String) -> (r: String) ensures r@ == upper(s@) { unimplemented!() }
// ---- std ----
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len() as int) == p }
#[verifier::external_body] pub fn vx_starts(s: &String, p: &str) -> (r: bool) ensures r == starts(s@, p@) { unimplemented!() }
/// `&s[6..]`: the bytes before are the ASCII prefix
#[verifier::external_body] pub fn vx_from6(s: &String) -> (r: &str) requires s@.len() >= 6, ascii(s@.take(6)) ensures r@ == s@.skip(6) { unimplemented!() }
/// the item of a list of items computed at once that Iterator::nth gives
pub fn vx_nth<T>(v: Vec<T>, n: usize) -> (r: Option<T>) ensures r is Some == (n < v@.len()), r is Some ==> r->0 == v@[n as int] { let mut v = v; if n < v.len() { Some(v.swap_remove(n)) } else { None } }
/// Iterator::next on such a list
#[verifier::external_body] pub fn vx_next<T>(v: &mut Vec<T>) -> (r: Option<T>) ensures r is Some == (old(v)@.len() > 0), r is Some ==> r->0 == old(v)@[0] && final(v)@ == old(v)@.skip(1), r is None ==> final(v)@ == old(v)@ { unimplemented!() }
impl VxKey for String { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
pub fn vx_entries<K: VxKey, V>(m: &HashMap<K, V>) -> (r: Vec<(&K, &V)>) ensures entries_of(r@, m@) { m.iter() }
impl VxDisp for DocPath { open spec fn disp(&self) -> Seq<char> { ptext(*self) } fn vx_disp(&self) -> (r: String) { self.to_string() } }
impl VxKeyText for DocPath { open spec fn kt(&self) -> Seq<char> { ptext(*self) } #[verifier::external_body] fn vx_kt(&self) -> (r: String) { unimplemented!() } }
impl JMap { pub fn is_empty(&self) -> (r: bool) ensures r == (jm(*self).dom() =~= Set::empty()) { vx_jempty(self) } }
#[verifier::external_body] pub fn vx_jempty(m: &JMap) -> (r: bool) ensures r == (jm(*m).dom() =~= Set::empty()) { unimplemented!() }
impl Value {
  pub fn as_object(&self) -> (r: Option<&JMap>) ensures r is Some == (self is Object), r is Some ==> *r->0 == self->Object_0 { match self { Value::Object(m) => Some(m), _ => None } }
}
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, U, F> [std::option::Option::<T>::map_or] (x: std::option::Option<T>, d: U, f: F) -> (r: U) where F: std::ops::FnOnce(T,) -> U + std::marker::Destruct, U: std::marker::Destruct
  requires x is Some ==> f.requires((x->0,)) ensures x is None ==> r == d, x is Some ==> f.ensures((x->0,), r);
// ---- the entries of an object, in its own fixed order ----
pub uninterp spec fn jkeys(d: JO) -> Seq<Seq<char>>;
pub open spec fn pairs_of(s: Seq<(&String, &Value)>, m: JO) -> bool { s.len() == jkeys(m).len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0@ == jkeys(m)[i] && jv(*s[i].1) == m[jkeys(m)[i]] }
#[verifier::external_body] pub fn vx_pairs<'a>(m: &'a JMap) -> (r: Vec<(&'a String, &'a Value)>) ensures pairs_of(r@, jm(*m)) { unimplemented!() }
pub broadcast axiom fn axiom_jkeys(d: JO) ensures (#[trigger] jkeys(d)).no_duplicates(), forall|k: Seq<char>| #[trigger] d.dom().contains(k) <==> jkeys(d).contains(k);
/// m.keys().next().unwrap_or(&String::default()).starts_with(p)
#[verifier::external_body] pub fn vx_first_key_starts(m: &JMap, p: &str) -> (r: bool) ensures r == (if jkeys(jm(*m)).len() > 0 { starts(jkeys(jm(*m))[0], p@) } else { p@.len() == 0 }) { unimplemented!() }
// ---- category names ----
pub open spec fn cname(c: Category) -> Seq<char> { match c { Category::METHOD => "method"@, Category::PATH => "path"@, Category::HEADER => "header"@, Category::QUERY => "query"@, Category::BODY => "body"@, Category::STATUS => "status"@, Category::CONTENTS => "contents"@, Category::METADATA => "metadata"@ } }
pub open spec fn cof(s: Seq<char>) -> Option<Category> { let l = lower(s); if l == "method"@ { Some(Category::METHOD) } else if l == "path"@ { Some(Category::PATH) } else if l == "header"@ { Some(Category::HEADER) } else if l == "headers"@ { Some(Category::HEADER) } else if l == "query"@ { Some(Category::QUERY) } else if l == "body"@ { Some(Category::BODY) } else if l == "status"@ { Some(Category::STATUS) } else if l == "contents"@ { Some(Category::CONTENTS) } else if l == "metadata"@ { Some(Category::METADATA) } else { None } }
/// any other name is the body
pub open spec fn cat_of(s: Seq<char>) -> Category { match cof(s) { Some(c) => c, None => Category::BODY } }
pub proof fn lemma_names() ensures "method"@.len() == 6, "path"@.len() == 4, "header"@.len() == 6, "headers"@.len() == 7, "query"@.len() == 5, "body"@.len() == 4, "status"@.len() == 6, "contents"@.len() == 8, "metadata"@.len() == 8, "method"@[0] == 'm', "path"@[0] == 'p', "header"@[0] == 'h', "headers"@[0] == 'h', "query"@[0] == 'q', "body"@[0] == 'b', "status"@[0] == 's', "contents"@[0] == 'c', "metadata"@[0] == 'm',
    "matchers"@.len() == 8, "combine"@.len() == 7, "OR"@ == seq!['O', 'R'], "AND"@ == seq!['A', 'N', 'D'], "$"@ == seq!['$'], "$.body"@ == seq!['$', '.', 'b', 'o', 'd', 'y'] {
  reveal_strlit("method"); reveal_strlit("path"); reveal_strlit("header"); reveal_strlit("headers"); reveal_strlit("query"); reveal_strlit("body"); reveal_strlit("status"); reveal_strlit("contents"); reveal_strlit("metadata"); reveal_strlit("matchers"); reveal_strlit("combine"); reveal_strlit("OR"); reveal_strlit("AND"); reveal_strlit("$"); reveal_strlit("$.body");
  assert("OR"@ =~= seq!['O', 'R']); assert("AND"@ =~= seq!['A', 'N', 'D']); assert("$"@ =~= seq!['$']); assert("$.body"@ =~= seq!['$', '.', 'b', 'o', 'd', 'y']); }
pub proof fn theorem_category_names(c: Category) ensures cof(cname(c)) == Some(c) {
  broadcast use axiom_lower; lemma_names();
  reveal_strlit("method"); reveal_strlit("path"); reveal_strlit("header"); reveal_strlit("query"); reveal_strlit("body"); reveal_strlit("status"); reveal_strlit("contents"); reveal_strlit("metadata");
  assert(ascii(cname(c))); assert(lower(cname(c)) =~= cname(c)); }
pub trait VxInto: Sized { spec fn cat(&self) -> Category; fn into(self) -> (r: Category) ensures r == self.cat(); }
impl VxInto for Category { open spec fn cat(&self) -> Category { *self } fn into(self) -> (r: Category) { self } }
impl VxInto for &str { open spec fn cat(&self) -> Category { cat_of((**self)@) } fn into(self) -> (r: Category) { cat_from_ref(self) } }
impl VxInto for String { open spec fn cat(&self) -> Category { cat_of(self@) } fn into(self) -> (r: Category) { cat_from_string(self) } }
impl VxDisp for Category { open spec fn disp(&self) -> Seq<char> { cname(*self) } fn vx_disp(&self) -> (r: String) { cat_into_str(self.clone()).to_string() } }
impl Category { pub fn to_string(&self) -> (r: String) ensures r@ == cname(*self) { self.vx_disp() } }
}
%src rust/pact_models/src/matchingrules/mod.rs
%struct RuleList
%struct MatchingRuleCategory
%struct MatchingRules
%prelude
verus! {
// ---- what the values are: rule lists by path, categories by name ----
pub type LQ = (Seq<RQ>, RuleLogic);
pub type CM = Map<Seq<char>, LQ>;
pub type RS = Map<Category, CM>;
pub open spec fn rqs(s: Seq<MatchingRule>) -> Seq<RQ> { s.map_values(|r: MatchingRule| rq(r)) }
pub open spec fn lq(l: RuleList) -> LQ { (rqs(l.rules@), l.rule_logic) }
pub open spec fn cm(c: MatchingRuleCategory) -> CM { c.rules@.map_values(|e: (DocPath, RuleList)| lq(e.1)) }
pub open spec fn rs(m: MatchingRules) -> RS { m.rules@.map_values(|e: (Category, MatchingRuleCategory)| cm(e.1)) }
pub open spec fn names_ok(m: MatchingRules) -> bool { forall|c: Category| #[trigger] m.rules@.dom().contains(c) ==> m.rules@[c].1.name == c }
pub open spec fn at(m: RS, c: Category) -> CM { if m.dom().contains(c) { m[c] } else { Map::empty() } }
// ---- writing ----
pub open spec fn logicj(l: RuleLogic) -> JV { match l { RuleLogic::And => JV::Str("AND"@), RuleLogic::Or => JV::Str("OR"@) } }
pub open spec fn rjs(s: Seq<RQ>) -> Seq<JV> { s.map_values(|r: RQ| JV::Obj(rj(r))) }
pub open spec fn listj(l: LQ) -> JV { JV::Obj(Map::<Seq<char>, JV>::empty().insert("combine"@, logicj(l.1)).insert("matchers"@, JV::Arr(rjs(l.0)))) }
pub open spec fn list2j(l: LQ) -> JV { if l.0.len() > 0 { JV::Obj(rj(l.0[0])) } else { JV::Obj(Map::empty()) } }
pub open spec fn by_name(c: Category) -> bool { c is HEADER || c is QUERY }
/// the name rules are filed under: headers and query parameters by their name, other categories by path
pub open spec fn kname(c: Category, p: Seq<char>) -> Seq<char> { if by_name(c) { match pfirst(p) { Some(n) => n, None => p } } else { p } }
/// no two entries have the same name
pub open spec fn inj(c: Category, m: CM) -> bool { forall|a: Seq<char>, b: Seq<char>| m.dom().contains(a) && m.dom().contains(b) && #[trigger] kname(c, a) == #[trigger] kname(c, b) ==> a == b }
/// o holds the list of each entry under its name and nothing else
pub open spec fn is_catj(o: JO, c: Category, m: CM) -> bool { (forall|p: Seq<char>| #[trigger] m.dom().contains(p) ==> o.dom().contains(kname(c, p)) && o[kname(c, p)] == listj(m[p])) && (forall|k: Seq<char>| #[trigger] o.dom().contains(k) ==> exists|p: Seq<char>| m.dom().contains(p) && #[trigger] kname(c, p) == k) }
// ---- reading ----
pub open spec fn jsub(v: JV, k: Seq<char>) -> Option<JV> { match v { JV::Obj(m) => if m.dom().contains(k) { Some(m[k]) } else { None }, _ => None } }
pub open spec fn logic_of(v: JV) -> RuleLogic { match jsub(v, "combine"@) { Some(x) => if upper(jtext(x)) == "OR"@ { RuleLogic::Or } else { RuleLogic::And }, None => RuleLogic::And } }
/// adds a rule at a path; the logic of the list there is kept
pub open spec fn add_rule(m: CM, p: Seq<char>, r: RQ, l: RuleLogic) -> CM { m.insert(p, if m.dom().contains(p) { (m[p].0.push(r), m[p].1) } else { (seq![r], l) }) }
pub open spec fn rule1(m: CM, p: Seq<char>, v: JV, l: RuleLogic) -> Option<CM> { match rfrom(v) { Some(r) => Some(add_rule(m, p, r, l)), None => None } }
pub open spec fn add_n(m: CM, p: Seq<char>, a: Seq<JV>, l: RuleLogic, n: nat) -> Option<CM> decreases n { if n == 0 || n > a.len() { Some(m) } else { match add_n(m, p, a, l, (n - 1) as nat) { Some(h) => rule1(h, p, a[n - 1], l), None => None } } }
pub proof fn lemma_add_mono(m: CM, p: Seq<char>, s: Seq<JV>, l: RuleLogic, a: nat, b: nat) requires a <= b, b <= s.len(), add_n(m, p, s, l, a) is None ensures add_n(m, p, s, l, b) is None decreases b { if a < b { lemma_add_mono(m, p, s, l, a, (b - 1) as nat); } }
/// a list of rules: each of its matchers, in order
pub open spec fn add_list(m: CM, p: Seq<char>, v: JV) -> Option<CM> { match jsub(v, "matchers"@) { Some(JV::Arr(a)) => add_n(m, p, a, logic_of(v), a.len()), _ => Some(m) } }
/// one entry: a path, or (names) the name of a header or parameter
pub open spec fn entry(m: CM, names: bool, k: Seq<char>, v: JV) -> Option<CM> { if names { add_list(m, field_path(k), v) } else if is_path(k) { add_list(m, k, v) } else { None } }
pub open spec fn entries(m: CM, names: bool, o: JO, n: nat) -> Option<CM> decreases n { if n == 0 || n > jkeys(o).len() { Some(m) } else { match entries(m, names, o, (n - 1) as nat) { Some(h) => entry(h, names, jkeys(o)[n - 1], o[jkeys(o)[n - 1]]), None => None } } }
pub proof fn lemma_entries_mono(m: CM, names: bool, o: JO, a: nat, b: nat) requires a <= b, b <= jkeys(o).len(), entries(m, names, o, a) is None ensures entries(m, names, o, b) is None decreases b { if a < b { lemma_entries_mono(m, names, o, a, (b - 1) as nat); } }
/// the rules of a category in JSON: a list, or an object of entries
pub open spec fn load_cat(m: CM, c: Category, v: JV, v3: bool) -> Option<CM> { if c is PATH && jsub(v, "matchers"@) is Some { add_list(m, seq![], v) } else { match v {
  JV::Obj(o) => if jsub(v, "matchers"@) matches Some(JV::Arr(_)) { add_list(m, seq![], v) } else { entries(m, v3 && by_name(c), o, jkeys(o).len()) }, _ => if v3 { None } else { Some(m) } } } }
/// the categories of a document
pub open spec fn load3_1(s: RS, k: Seq<char>, v: JV) -> Option<RS> { match load_cat(at(s, cat_of(k)), cat_of(k), v, true) { Some(m) => Some(s.insert(cat_of(k), m)), None => None } }
pub open spec fn load3(s: RS, o: JO, n: nat) -> Option<RS> decreases n { if n == 0 || n > jkeys(o).len() { Some(s) } else { match load3(s, o, (n - 1) as nat) { Some(h) => load3_1(h, jkeys(o)[n - 1], o[jkeys(o)[n - 1]]), None => None } } }
pub proof fn lemma_load3_mono(s: RS, o: JO, a: nat, b: nat) requires a <= b, b <= jkeys(o).len(), load3(s, o, a) is None ensures load3(s, o, b) is None decreases b { if a < b { lemma_load3_mono(s, o, a, (b - 1) as nat); } }
/// o holds the rules of each category that has any, under its name, and nothing else
pub open spec fn path_list(m: CM) -> Option<LQ> { if m.dom().contains(seq![]) { Some(m[seq![]]) } else if m.dom().contains(root_text()) { Some(m[root_text()]) } else { None } }
pub open spec fn has_json(c: Category, m: CM) -> bool { if c is PATH { path_list(m) is Some } else { !(m.dom() =~= Set::empty()) } }
pub open spec fn is_cat_entry(v: JV, c: Category, m: CM) -> bool { if c is PATH { v == listj(path_list(m)->0) } else { v matches JV::Obj(o) && is_catj(o, c, m) } }
pub open spec fn inj_all(s: RS) -> bool { forall|c: Category| #[trigger] s.dom().contains(c) ==> inj(c, s[c]) }
pub open spec fn is_setj(o: JO, s: RS) -> bool { (forall|c: Category| #[trigger] s.dom().contains(c) && has_json(c, s[c]) ==> o.dom().contains(cname(c)) && is_cat_entry(o[cname(c)], c, s[c])) && (forall|k: Seq<char>| #[trigger] o.dom().contains(k) ==> exists|c: Category| s.dom().contains(c) && has_json(c, s[c]) && #[trigger] cname(c) == k) }
// ---- V2: one rule for each path ----
pub open spec fn v2form(c: Category) -> Seq<char> { if c is HEADER { "headers"@ } else { cname(c) } }
/// str::replacen(a, b, 1)
pub uninterp spec fn replace1(s: Seq<char>, a: Seq<char>, b: Seq<char>) -> Seq<char>;
pub broadcast axiom fn axiom_replace1(s: Seq<char>, a: Seq<char>, b: Seq<char>) requires starts(s, a) ensures #[trigger] replace1(s, a, b) == b + s.skip(a.len() as int);
#[verifier::external_body] pub fn vx_replace1(s: String, a: &str, b: &str) -> (r: String) ensures r@ == replace1(s@, a@, b@) { unimplemented!() }
pub open spec fn v2key(c: Category, p: Seq<char>) -> Seq<char> { match c { Category::PATH => "$.path"@, Category::BODY => replace1(p, "$"@, "$.body"@), Category::HEADER | Category::QUERY => append_text(push_text(root_text(), v2form(c)), p), _ => seq!['$', '.'] + v2form(c) + seq!['.'] + p } }
pub open spec fn inj2(c: Category, m: CM) -> bool { forall|a: Seq<char>, b: Seq<char>| m.dom().contains(a) && m.dom().contains(b) && #[trigger] v2key(c, a) == #[trigger] v2key(c, b) ==> a == b }
pub open spec fn hj(m: HashMap<String, Value>) -> JO { m@.map_values(|e: (String, Value)| jv(e.1)) }
pub open spec fn is_cat2j(o: JO, c: Category, m: CM) -> bool { (forall|p: Seq<char>| #[trigger] m.dom().contains(p) ==> o.dom().contains(v2key(c, p)) && o[v2key(c, p)] == list2j(m[p])) && (forall|k: Seq<char>| #[trigger] o.dom().contains(k) ==> exists|p: Seq<char>| m.dom().contains(p) && #[trigger] v2key(c, p) == k) }
/// no two entries of any category have the same V2 key
pub open spec fn inj2_all(s: RS) -> bool { forall|c: Category, p: Seq<char>, d: Category, q: Seq<char>| s.dom().contains(c) && s.dom().contains(d) && s[c].dom().contains(p) && s[d].dom().contains(q) && #[trigger] v2key(c, p) == #[trigger] v2key(d, q) ==> c == d && p == q }
pub open spec fn is_set2j(o: JO, s: RS) -> bool { (forall|c: Category, p: Seq<char>| s.dom().contains(c) && #[trigger] s[c].dom().contains(p) ==> o.dom().contains(v2key(c, p)) && o[v2key(c, p)] == list2j(s[c][p])) && (forall|k: Seq<char>| #[trigger] o.dom().contains(k) ==> exists|c: Category, p: Seq<char>| s.dom().contains(c) && s[c].dom().contains(p) && #[trigger] v2key(c, p) == k) }
/// the path of a name: itself when it is one step, else a field step
pub open spec fn name_path(n: Seq<char>) -> Seq<char> { if is_path(n) && ptoks(n).len() == 2 && pfirst(n) == Some(n) { n } else { field_path(n) } }
/// the category and path a V2 key stands for
pub open spec fn v2_at(k: Seq<char>) -> Option<(Category, Seq<char>)> {
  if starts(k, "$.body"@) { if k == "$.body"@ { Some((cat_of("body"@), root_text())) } else if is_path(root_text() + k.skip(6)) { Some((cat_of("body"@), root_text() + k.skip(6))) } else { None } }
  else if !is_path(k) { None } else { let f = fields(ptoks(k));
    if starts(k, "$.headers"@) { if f.len() > 1 { Some((cat_of("header"@), name_path(f[1]))) } else { None } }
    else if f.len() > 0 { Some((cat_of(f[0]), if f.len() > 1 { name_path(f[1]) } else { seq![] })) } else { None } } }
pub open spec fn v2_rule(s: RS, c: Category, p: Seq<char>, v: JV) -> Option<RS> { match rule1(at(s, c), p, v, RuleLogic::And) { Some(m) => Some(s.insert(c, m)), None => None } }
pub open spec fn load2_1(s: RS, k: Seq<char>, v: JV) -> Option<RS> { match v2_at(k) { Some(x) => v2_rule(s, x.0, x.1, v), None => None } }
pub open spec fn load2(s: RS, o: JO, n: nat) -> Option<RS> decreases n { if n == 0 || n > jkeys(o).len() { Some(s) } else { match load2(s, o, (n - 1) as nat) { Some(h) => load2_1(h, jkeys(o)[n - 1], o[jkeys(o)[n - 1]]), None => None } } }
pub proof fn lemma_load2_mono(s: RS, o: JO, a: nat, b: nat) requires a <= b, b <= jkeys(o).len(), load2(s, o, a) is None ensures load2(s, o, b) is None decreases b { if a < b { lemma_load2_mono(s, o, a, (b - 1) as nat); } }
/// a document: V2 when its first key is a path
pub open spec fn load(v: JV, old_name: Option<Seq<char>>) -> Option<RS> {
  match (match jsub(v, "matchingRules"@) { Some(x) => Some(x), None => match old_name { Some(n) => jsub(v, n), None => None } }) {
    Some(JV::Obj(o)) => if jkeys(o).len() > 0 && starts(jkeys(o)[0], root_text()) { load2(Map::empty(), o, jkeys(o).len()) } else { load3(Map::empty(), o, jkeys(o).len()) }, _ => Some(Map::empty()) } }
}
%prelude
verus! {
pub open spec fn v2_upto(s: Seq<(&DocPath, &RuleList)>, c: Category, o: JO, n: int) -> bool { forall|i: int| 0 <= i < n ==> o.dom().contains(v2key(c, (#[trigger] s[i]).0.kv())) && o[v2key(c, s[i].0.kv())] == list2j(lq(*s[i].1)) }
pub open spec fn v2_only(s: Seq<(&DocPath, &RuleList)>, c: Category, o: JO, n: int) -> bool { forall|k: Seq<char>| #[trigger] o.dom().contains(k) ==> exists|i: int| 0 <= i < n && v2key(c, (#[trigger] s[i]).0.kv()) == k }
pub open spec fn cmm(m: Map<Seq<char>, (DocPath, RuleList)>) -> CM { m.map_values(|e: (DocPath, RuleList)| lq(e.1)) }
pub proof fn lemma_v2_step(s: Seq<(&DocPath, &RuleList)>, c: Category, m: Map<Seq<char>, (DocPath, RuleList)>, o: JO, p: JO, n: int)
  requires entries_of(s, m), 0 <= n < s.len(), inj2(c, cmm(m)) ==> v2_upto(s, c, o, n), v2_only(s, c, o, n), p =~= o.insert(v2key(c, s[n].0.kv()), list2j(lq(*s[n].1)))
  ensures inj2(c, cmm(m)) ==> v2_upto(s, c, p, n + 1), v2_only(s, c, p, n + 1) {
  assert(cmm(m).dom() =~= m.dom()); let k0 = v2key(c, s[n].0.kv());
  if inj2(c, cmm(m)) { assert forall|i: int| 0 <= i < n + 1 implies p.dom().contains(v2key(c, (#[trigger] s[i]).0.kv())) && p[v2key(c, s[i].0.kv())] == list2j(lq(*s[i].1)) by { if i < n { assert(s[i].0.kv() != s[n].0.kv()); assert(cmm(m).dom().contains(s[i].0.kv()) && cmm(m).dom().contains(s[n].0.kv())); } } }
  assert forall|k: Seq<char>| #[trigger] p.dom().contains(k) implies exists|i: int| 0 <= i < n + 1 && v2key(c, (#[trigger] s[i]).0.kv()) == k by { if k == k0 { assert(v2key(c, s[n].0.kv()) == k); } } }
pub proof fn lemma_v2_done(s: Seq<(&DocPath, &RuleList)>, c: Category, m: Map<Seq<char>, (DocPath, RuleList)>, o: JO)
  requires entries_of(s, m), inj2(c, cmm(m)) ==> v2_upto(s, c, o, s.len() as int), v2_only(s, c, o, s.len() as int) ensures inj2(c, cmm(m)) ==> is_cat2j(o, c, cmm(m)) {
  let q = cmm(m); assert(q.dom() =~= m.dom()); if inj2(c, q) {
    assert forall|p: Seq<char>| #[trigger] q.dom().contains(p) implies o.dom().contains(v2key(c, p)) && o[v2key(c, p)] == list2j(q[p]) by { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kv() == p; assert(m[p] == (*s[i].0, *s[i].1)); }
    assert forall|k: Seq<char>| #[trigger] o.dom().contains(k) implies exists|p: Seq<char>| q.dom().contains(p) && #[trigger] v2key(c, p) == k by { let i = choose|i: int| 0 <= i < s.len() && v2key(c, (#[trigger] s[i]).0.kv()) == k; assert(q.dom().contains(s[i].0.kv())); } } }
}
%src rust/pact_models/src/lib.rs
%enum PactSpecification
%src rust/pact_models/src/matchingrules/mod.rs
%prelude
verus! {
pub fn vx_sentries(m: HashMap<String, Value>) -> (r: Vec<(String, Value)>) ensures owned_of(r@, m@), hseq(r@) =~= hj(m) { let r = vx_sentries_(m); proof { lemma_hseq(r@); } r }
/// the JSON object of a sequence of entries
pub open spec fn hseq(s: Seq<(String, Value)>) -> JO decreases s.len() { if s.len() == 0 { Map::empty() } else { hseq(s.drop_last()).insert(s.last().0@, jv(s.last().1)) } }
pub proof fn lemma_hseq(s: Seq<(String, Value)>)
  requires forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0@ != (#[trigger] s[j]).0@
  ensures forall|i: int| 0 <= i < s.len() ==> hseq(s).dom().contains((#[trigger] s[i]).0@) && hseq(s)[s[i].0@] == jv(s[i].1), forall|k: Seq<char>| #[trigger] hseq(s).dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k decreases s.len() {
  if s.len() > 0 { let t = s.drop_last(); assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0@ != (#[trigger] t[j]).0@ by { assert(t[i] == s[i] && t[j] == s[j]); } lemma_hseq(t);
    assert forall|i: int| 0 <= i < s.len() implies hseq(s).dom().contains((#[trigger] s[i]).0@) && hseq(s)[s[i].0@] == jv(s[i].1) by { if i < t.len() { assert(t[i] == s[i]); } }
    assert forall|k: Seq<char>| #[trigger] hseq(s).dom().contains(k) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k by { if k != s.last().0@ { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0@ == k; assert(s[i].0@ == k); } } } }
pub open spec fn owned_of(s: Seq<(String, Value)>, m: Map<Seq<char>, (String, Value)>) -> bool { (forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0@) && m[s[i].0@] == s[i]) && (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0@ != (#[trigger] s[j]).0@) && (forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k) }
#[verifier::external_body] pub fn vx_sentries_(m: HashMap<String, Value>) -> (r: Vec<(String, Value)>) ensures owned_of(r@, m@) { unimplemented!() }
pub type SM = Map<Category, (Category, MatchingRuleCategory)>;
pub type SE<'a> = Seq<(&'a Category, &'a MatchingRuleCategory)>;
pub open spec fn rsm(m: SM) -> RS { m.map_values(|e: (Category, MatchingRuleCategory)| cm(e.1)) }
pub open spec fn set_upto(s: SE, o: JO, n: int) -> bool { forall|i: int| 0 <= i < n && has_json(*s[i].0, cm(*s[i].1)) ==> o.dom().contains(cname(*(#[trigger] s[i]).0)) && is_cat_entry(o[cname(*s[i].0)], *s[i].0, cm(*s[i].1)) }
pub open spec fn set_only(s: SE, o: JO, n: int) -> bool { forall|k: Seq<char>| #[trigger] o.dom().contains(k) ==> exists|i: int| 0 <= i < n && has_json(*s[i].0, cm(*s[i].1)) && cname(*(#[trigger] s[i]).0) == k }
pub open spec fn set2_upto(s: SE, o: JO, n: int) -> bool { forall|i: int, p: Seq<char>| 0 <= i < n && (#[trigger] cm(*s[i].1).dom().contains(p)) ==> o.dom().contains(v2key(*s[i].0, p)) && o[v2key(*s[i].0, p)] == list2j(cm(*s[i].1)[p]) }
pub open spec fn set2_only(s: SE, o: JO, n: int) -> bool { forall|k: Seq<char>| #[trigger] o.dom().contains(k) ==> exists|i: int, p: Seq<char>| 0 <= i < n && (#[trigger] cm(*s[i].1).dom().contains(p)) && v2key(*s[i].0, p) == k }
pub proof fn lemma_set2_step(s: SE, m: SM, o: JO, p: JO, n: int, h: JO)
  requires entries_of(s, m), 0 <= n < s.len(), set2_upto(s, o, n), set2_only(s, o, n), inj2_all(rsm(m)), inj2(*s[n].0, cm(*s[n].1)) ==> is_cat2j(h, *s[n].0, cm(*s[n].1)), p =~= o.union_prefer_right(h)
  ensures set2_upto(s, p, n + 1), set2_only(s, p, n + 1) {
  let c = *s[n].0; let q = cm(*s[n].1); let r = rsm(m); assert(r.dom() =~= m.dom());
  assert forall|i: int| 0 <= i < s.len() implies r.dom().contains(*(#[trigger] s[i]).0) && r[*s[i].0] == cm(*s[i].1) by { assert(m.dom().contains(*s[i].0)); assert(m[*s[i].0] == (*s[i].0, *s[i].1)); }
  assert(inj2(c, q)) by { assert(r.dom().contains(*s[n].0)); }
  assert forall|i: int, x: Seq<char>| 0 <= i < n + 1 && (#[trigger] cm(*s[i].1).dom().contains(x)) implies p.dom().contains(v2key(*s[i].0, x)) && p[v2key(*s[i].0, x)] == list2j(cm(*s[i].1)[x]) by {
    if i < n { assert(s[i].0.kv() != s[n].0.kv()); let k = v2key(*s[i].0, x); if h.dom().contains(k) { let y = choose|y: Seq<char>| q.dom().contains(y) && #[trigger] v2key(c, y) == k; assert(r.dom().contains(*s[i].0) && r.dom().contains(c)); assert(v2key(*s[i].0, x) == v2key(c, y)); assert(false); } } }
  assert forall|k: Seq<char>| #[trigger] p.dom().contains(k) implies exists|i: int, x: Seq<char>| 0 <= i < n + 1 && (#[trigger] cm(*s[i].1).dom().contains(x)) && v2key(*s[i].0, x) == k by {
    if h.dom().contains(k) { let y = choose|y: Seq<char>| q.dom().contains(y) && #[trigger] v2key(c, y) == k; assert(cm(*s[n].1).dom().contains(y)); } else { assert(o.dom().contains(k)); let (i, x) = choose|i: int, x: Seq<char>| 0 <= i < n && (#[trigger] cm(*s[i].1).dom().contains(x)) && v2key(*s[i].0, x) == k; assert(cm(*s[i].1).dom().contains(x)); } } }
pub proof fn lemma_set2_done(s: SE, m: SM, o: JO)
  requires entries_of(s, m), set2_upto(s, o, s.len() as int), set2_only(s, o, s.len() as int) ensures is_set2j(o, rsm(m)) {
  let r = rsm(m); assert(r.dom() =~= m.dom());
  assert forall|c: Category, p: Seq<char>| r.dom().contains(c) && #[trigger] r[c].dom().contains(p) implies o.dom().contains(v2key(c, p)) && o[v2key(c, p)] == list2j(r[c][p]) by { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kv() == c; assert(m[c] == (*s[i].0, *s[i].1)); assert(cm(*s[i].1).dom().contains(p)); }
  assert forall|k: Seq<char>| #[trigger] o.dom().contains(k) implies exists|c: Category, p: Seq<char>| r.dom().contains(c) && r[c].dom().contains(p) && #[trigger] v2key(c, p) == k by { let (i, x) = choose|i: int, x: Seq<char>| 0 <= i < s.len() && (#[trigger] cm(*s[i].1).dom().contains(x)) && v2key(*s[i].0, x) == k; assert(s[i].0.kv() == *s[i].0); assert(m[*s[i].0] == (*s[i].0, *s[i].1)); assert(r[*s[i].0].dom().contains(x)); } }
/// one more category: its entry is added when it has one
pub proof fn lemma_set_step(s: SE, m: SM, o: JO, p: JO, n: int)
  requires entries_of(s, m), 0 <= n < s.len(), set_upto(s, o, n), set_only(s, o, n),
    ({ let c = *s[n].0; let q = cm(*s[n].1); if has_json(c, q) { p.dom().contains(cname(c)) && is_cat_entry(p[cname(c)], c, q) && p =~= o.insert(cname(c), p[cname(c)]) } else { p =~= o } })
  ensures set_upto(s, p, n + 1), set_only(s, p, n + 1) {
  let c = *s[n].0; let q = cm(*s[n].1);
  if has_json(c, q) {
    assert forall|k: Seq<char>| #[trigger] p.dom().contains(k) implies exists|i: int| 0 <= i < n + 1 && has_json(*s[i].0, cm(*s[i].1)) && cname(*(#[trigger] s[i]).0) == k by { if k == cname(c) { assert(cname(*s[n].0) == k); } }
    assert forall|i: int| 0 <= i < n + 1 && has_json(*s[i].0, cm(*s[i].1)) implies p.dom().contains(cname(*(#[trigger] s[i]).0)) && is_cat_entry(p[cname(*s[i].0)], *s[i].0, cm(*s[i].1)) by { if i < n { assert(s[i].0.kv() != s[n].0.kv()); theorem_category_names(*s[i].0); theorem_category_names(c); } } } }
pub proof fn lemma_set_done(s: SE, m: SM, o: JO, ok: bool)
  requires entries_of(s, m), ok ==> set_upto(s, o, s.len() as int) && set_only(s, o, s.len() as int) ensures ok ==> is_setj(o, rsm(m)) {
  let q = rsm(m); assert(q.dom() =~= m.dom()); if ok {
    assert forall|c: Category| #[trigger] q.dom().contains(c) && has_json(c, q[c]) implies o.dom().contains(cname(c)) && is_cat_entry(o[cname(c)], c, q[c]) by { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kv() == c; assert(m[c] == (*s[i].0, *s[i].1)); }
    assert forall|k: Seq<char>| #[trigger] o.dom().contains(k) implies exists|c: Category| q.dom().contains(c) && has_json(c, q[c]) && #[trigger] cname(c) == k by { let i = choose|i: int| 0 <= i < s.len() && has_json(*s[i].0, cm(*s[i].1)) && cname(*(#[trigger] s[i]).0) == k; assert(m[*s[i].0] == (*s[i].0, *s[i].1)); assert(q.dom().contains(*s[i].0)); } } }
}
%fn FromStr for Category::from_str
%free
%rename cat_from_str
%fmt args
%sub `Result<Self, Self::Err>` => `Result<Category, String>`
%sub `s.to_lowercase().as_str()` => `vx_lit(vx_lower(s).as_str())`
%sig
  ensures r is Ok == cof(s@) is Some, r is Ok ==> Some(r->Ok_0) == cof(s@)
%fn Into<&'astr> for Category::into
%free
%rename cat_into_str
%sub `(self)` => `(s_: Category)`
%sub `match self` => `match s_`
%sub `&'a str` => `&'static str`
%sig
  ensures r@ == cname(s_)
%fn Into<String> for Category::into
%free
%rename cat_into_string
%sub `(self)` => `(s_: Category)`
%sub `self.to_string()` => `s_.to_string()`
%sig
  ensures r@ == cname(s_)
%fn Default for Category::default
%free
%rename cat_default
%sub `Self` => `Category`
%sig
  ensures r is BODY
%fn From<&'astr> for Category::from
%free
%rename cat_from_ref
%sub `&'a str` => `&str`
%sub `Self` => `Category`
%sub `Category::from_str(s).unwrap_or_default()` => `match cat_from_str(s) { Ok(c) => c, Err(_) => cat_default() }`
%sig
  ensures r == cat_of(s@)
%fn From<String> for Category::from
%free
%rename cat_from_string
%sub `Self` => `Category`
%sub `Category::from_str(&s).unwrap_or_default()` => `match cat_from_str(&s) { Ok(c) => c, Err(_) => cat_default() }`
%sig
  ensures r == cat_of(s@)
%fn Category::v2_form
%sig
  ensures r@ == (if self is HEADER { "headers"@ } else { cname(*self) })
%fn path_for_name
%eq
%sub `DocPath::new(name.as_str())` => `DocPath::new(&name)`
%sig
  ensures ptext(r) == name_path(name@)
%fn RuleLogic::to_json
%sub `.into()` => `.to_string()`
%sig
  ensures jv(r) == logicj(*self)
%body_start
  proof { broadcast use axiom_jv; }
%fn RuleList::empty
%sig
  ensures lq(r) == (Seq::<RQ>::empty(), rule_logic), !r.cascaded
%tail_after
  proof { assert(rqs(vx_ret.rules@) =~= seq![]); }
%fn RuleList::to_v3_json
%chain
%bty 0 Vec<Value>
%sig
  ensures jv(r) == listj(lq(*self))
%body_start
  proof { broadcast use axiom_jv; }
%loop 0 it
  invariant it.seq().len() == self.rules@.len(), forall|i: int| 0 <= i < self.rules@.len() ==> *(#[trigger] it.seq()[i]) == self.rules@[i], vx_b0@.len() == it.index@, forall|i: int| 0 <= i < vx_b0@.len() ==> jv(#[trigger] vx_b0@[i]) == rjs(rqs(self.rules@))[i]
%after_loop 0
  proof { assert(jvs(vx_b0@) =~= rjs(rqs(self.rules@))); }
%fn RuleList::to_v2_json
%sig
  ensures jv(r) == list2j(lq(*self))
%body_start
  proof { broadcast use axiom_jv; }
%fn MatchingRuleCategory::empty
%fngen <S: VxInto>
%sub `hashmap! {}` => `HashMap::new()`
%sig
  ensures r.name == name.cat(), cm(r) == Map::<Seq<char>, LQ>::empty()
%tail_after
  proof { assert(cm(vx_ret) =~= Map::empty()); }
%fn MatchingRuleCategory::rule_from_json
%sub `anyhow::Result<()>` => `Result<(), VxError>`
%sub `self.rules.entry(key)\n      .or_insert_with(|| RuleList::empty(rule_logic))` => `vx_entry(&mut self.rules, key, RuleList::empty(rule_logic))`
%sig
  ensures final(self).name == old(self).name, r is Ok == rule1(cm(*old(self)), ptext(key), jv(*matcher_json), rule_logic) is Some, r is Ok ==> Some(cm(*final(self))) == rule1(cm(*old(self)), ptext(key), jv(*matcher_json), rule_logic)
%tail
  proof { let p = ptext(key); assert(cm(*self)[p].0 =~= (if old(self).rules@.dom().contains(p) { cm(*old(self))[p].0.push(rq(matching_rule)) } else { seq![rq(matching_rule)] })); assert(cm(*self) =~= add_rule(cm(*old(self)), p, rq(matching_rule), rule_logic)); }
%fn MatchingRuleCategory::add_rule_list
%sub `anyhow::Result<()>` => `Result<(), VxError>`
%sub `json_to_string(val).to_uppercase() == "OR"` => `vx_str_eq(vx_upper(json_to_string(val)).as_str(), "OR")`
%sig
  ensures final(self).name == old(self).name, r is Ok == add_list(cm(*old(self)), ptext(k), jv(*v)) is Some, r is Ok ==> Some(cm(*final(self))) == add_list(cm(*old(self)), ptext(k), jv(*v))
%body_start
  proof { broadcast use axiom_jv; } let ghost m0 = cm(*self);
%loop 0 it
  invariant it.seq().len() == array@.len(), forall|i: int| 0 <= i < array@.len() ==> *(#[trigger] it.seq()[i]) == array@[i], m0 == cm(*old(self)), self.name == old(self).name, rule_logic == logic_of(jv(*v)), jsub(jv(*v), "matchers"@) == Some(JV::Arr(jvs(array@))),
    Some(cm(*self)) == add_n(m0, ptext(k), jvs(array@), rule_logic, it.index@ as nat)
%loop_start 0
  proof { let n = (it.index@ + 1) as nat; assert(jvs(array@)[it.index@] == jv(*matcher)); if add_n(m0, ptext(k), jvs(array@), rule_logic, n) is None { lemma_add_mono(m0, ptext(k), jvs(array@), rule_logic, n, array@.len()); } }
%fn MatchingRuleCategory::add_rules_from_json
%sub `anyhow::Result<()>` => `Result<(), VxError>`
%eq
%sub `json_to_string(val).to_uppercase() == "OR"` => `vx_str_eq(vx_upper(json_to_string(val)).as_str(), "OR")`
%closure 0 |matchers: &Value| -> (o: bool) ensures o == (*matchers is Array)
%base 1 vx_pairs
%sig
  ensures final(self).name == old(self).name, r is Ok == load_cat(cm(*old(self)), old(self).name, jv(*rules), false) is Some, r is Ok ==> Some(cm(*final(self))) == load_cat(cm(*old(self)), old(self).name, jv(*rules), false)
%body_start
  proof { broadcast use axiom_jv; } let ghost m0 = cm(*self);
%loop 0 it
  invariant it.seq().len() == array@.len(), forall|i: int| 0 <= i < array@.len() ==> *(#[trigger] it.seq()[i]) == array@[i], m0 == cm(*old(self)), self.name == old(self).name, self.name is PATH, rule_logic == logic_of(jv(*rules)), jsub(jv(*rules), "matchers"@) == Some(JV::Arr(jvs(array@))),
    Some(cm(*self)) == add_n(m0, seq![], jvs(array@), rule_logic, it.index@ as nat)
%loop_start 0
  proof { let n = (it.index@ + 1) as nat; assert(jvs(array@)[it.index@] == jv(*matcher)); if add_n(m0, seq![], jvs(array@), rule_logic, n) is None { lemma_add_mono(m0, seq![], jvs(array@), rule_logic, n, array@.len()); } }
%loop 1 it
  invariant pairs_of(it.seq(), jm(*m)), m0 == cm(*old(self)), self.name == old(self).name, load_cat(m0, self.name, jv(*rules), false) == entries(m0, false, jm(*m), jkeys(jm(*m)).len()), Some(cm(*self)) == entries(m0, false, jm(*m), it.index@ as nat)
%loop_start 1
  proof { let n = (it.index@ + 1) as nat; if entries(m0, false, jm(*m), n) is None { lemma_entries_mono(m0, false, jm(*m), n, jkeys(jm(*m)).len()); } }
%fn MatchingRuleCategory::add_v3_rules_from_json
%sub `anyhow::Result<()>` => `Result<(), VxError>`
%eq
%sub `json_to_string(val).to_uppercase() == "OR"` => `vx_str_eq(vx_upper(json_to_string(val)).as_str(), "OR")`
%closure 0 |matchers: &Value| -> (o: bool) ensures o == (*matchers is Array)
%base 1 vx_pairs
%base 2 vx_pairs
%sig
  ensures final(self).name == old(self).name, r is Ok == load_cat(cm(*old(self)), old(self).name, jv(*rules), true) is Some, r is Ok ==> Some(cm(*final(self))) == load_cat(cm(*old(self)), old(self).name, jv(*rules), true)
%body_start
  proof { broadcast use axiom_jv; } let ghost m0 = cm(*self);
%loop 0 it
  invariant it.seq().len() == array@.len(), forall|i: int| 0 <= i < array@.len() ==> *(#[trigger] it.seq()[i]) == array@[i], m0 == cm(*old(self)), self.name == old(self).name, self.name is PATH, rule_logic == logic_of(jv(*rules)), jsub(jv(*rules), "matchers"@) == Some(JV::Arr(jvs(array@))),
    Some(cm(*self)) == add_n(m0, seq![], jvs(array@), rule_logic, it.index@ as nat)
%loop_start 0
  proof { let n = (it.index@ + 1) as nat; assert(jvs(array@)[it.index@] == jv(*matcher)); if add_n(m0, seq![], jvs(array@), rule_logic, n) is None { lemma_add_mono(m0, seq![], jvs(array@), rule_logic, n, array@.len()); } }
%loop 1 it
  invariant pairs_of(it.seq(), jm(*m)), m0 == cm(*old(self)), self.name == old(self).name, load_cat(m0, self.name, jv(*rules), true) == entries(m0, true, jm(*m), jkeys(jm(*m)).len()), Some(cm(*self)) == entries(m0, true, jm(*m), it.index@ as nat)
%loop_start 1
  proof { let n = (it.index@ + 1) as nat; if entries(m0, true, jm(*m), n) is None { lemma_entries_mono(m0, true, jm(*m), n, jkeys(jm(*m)).len()); } }
%loop 2 it
  invariant pairs_of(it.seq(), jm(*m)), m0 == cm(*old(self)), self.name == old(self).name, load_cat(m0, self.name, jv(*rules), true) == entries(m0, false, jm(*m), jkeys(jm(*m)).len()), Some(cm(*self)) == entries(m0, false, jm(*m), it.index@ as nat)
%loop_start 2
  proof { let n = (it.index@ + 1) as nat; if entries(m0, false, jm(*m), n) is None { lemma_entries_mono(m0, false, jm(*m), n, jkeys(jm(*m)).len()); } }
%fn MatchingRuleCategory::to_v3_json
%opt
%sub `serde_json::Map::new()` => `JMap::new()`
%closure 2 |v: &str| -> (o: String) ensures o@ == v@
%base 0
%after_base 0
  proof { self.rules.axiom_wf(); }
%sub `String::from(category)` => `category.to_string()`
%sig
  ensures inj(self.name, cm(*self)) ==> (jv(r) matches JV::Obj(o) && is_catj(o, self.name, cm(*self)))
%loop 0 it
  invariant it.seq() == vx_s0@, entries_of(vx_s0@, self.rules@),
    inj(self.name, cm(*self)) ==> (forall|i: int| 0 <= i < it.index@ ==> jm(map).dom().contains(kname(self.name, (#[trigger] vx_s0@[i]).0.kv())) && jm(map)[kname(self.name, vx_s0@[i].0.kv())] == listj(lq(*vx_s0@[i].1))),
    forall|k: Seq<char>| #[trigger] jm(map).dom().contains(k) ==> exists|i: int| 0 <= i < it.index@ && kname(self.name, (#[trigger] vx_s0@[i]).0.kv()) == k
%loop_start 0
  proof { broadcast use axiom_jv; let n = it.index@; assert(cm(*self).dom() =~= self.rules@.dom()); assert(self.rules@[vx_s0@[n].0.kv()] == (*vx_s0@[n].0, *vx_s0@[n].1)); } let ghost m0 = jm(map);
%loop_end 0
  proof { let n = it.index@; let k0 = kname(self.name, vx_s0@[n].0.kv()); assert(jm(map) == m0.insert(k0, listj(lq(*vx_s0@[n].1))));
    if inj(self.name, cm(*self)) { assert forall|i: int| 0 <= i < n + 1 implies jm(map).dom().contains(kname(self.name, (#[trigger] vx_s0@[i]).0.kv())) && jm(map)[kname(self.name, vx_s0@[i].0.kv())] == listj(lq(*vx_s0@[i].1)) by { if i < n { assert(cm(*self).dom().contains(vx_s0@[i].0.kv()) && cm(*self).dom().contains(vx_s0@[n].0.kv())); assert(vx_s0@[i].0.kv() != vx_s0@[n].0.kv()); } } }
    assert forall|k: Seq<char>| #[trigger] jm(map).dom().contains(k) implies exists|i: int| 0 <= i < n + 1 && kname(self.name, (#[trigger] vx_s0@[i]).0.kv()) == k by { if k == k0 { assert(kname(self.name, vx_s0@[n].0.kv()) == k); } } }
%after_loop 0
  proof { broadcast use axiom_jv; let c = self.name; let m = cm(*self); assert(m.dom() =~= self.rules@.dom()); if inj(c, m) {
    assert forall|p: Seq<char>| #[trigger] m.dom().contains(p) implies jm(map).dom().contains(kname(c, p)) && jm(map)[kname(c, p)] == listj(m[p]) by { let i = choose|i: int| 0 <= i < vx_s0@.len() && (#[trigger] vx_s0@[i]).0.kv() == p; assert(self.rules@[p] == (*vx_s0@[i].0, *vx_s0@[i].1)); }
    assert forall|k: Seq<char>| #[trigger] jm(map).dom().contains(k) implies exists|p: Seq<char>| m.dom().contains(p) && #[trigger] kname(c, p) == k by { let i = choose|i: int| 0 <= i < vx_s0@.len() && kname(c, (#[trigger] vx_s0@[i]).0.kv()) == k; assert(m.dom().contains(vx_s0@[i].0.kv())); } } }
%fn Default for MatchingRules::default
%rename default
%free
%sub `Self` => `MatchingRules`
%rename rules_default
%sub `hashmap!{}` => `HashMap::new()`
%sig
  ensures rs(r) == Map::<Category, CM>::empty(), names_ok(r)
%tail_after
  proof { assert(rs(vx_ret) =~= Map::empty()); }
%fn MatchingRules::add_category
%fngen <S: VxInto>
%sig
  requires names_ok(*old(self))
  ensures r.name == category.cat(), cm(*r) == at(rs(*old(self)), category.cat()), 
    final(r).name == category.cat() ==> names_ok(*final(self)) && rs(*final(self)) =~= rs(*old(self)).insert(category.cat(), cm(*final(r)))
%fn MatchingRules::add_v2_rule
%fngen <S: VxText>
%sub `anyhow::Result<()>` => `Result<(), VxError>`
%sig
  requires names_ok(*old(self))
  ensures r is Ok ==> names_ok(*final(self)), r is Ok == v2_rule(rs(*old(self)), cat_of(category_name.text()), ptext(sub_category), jv(*rule)) is Some, r is Ok ==> Some(rs(*final(self))) == v2_rule(rs(*old(self)), cat_of(category_name.text()), ptext(sub_category), jv(*rule))
%fn MatchingRules::load_from_v3_map
%sub `anyhow::Result<()>` => `Result<(), VxError>`
%sub `serde_json::Map<String, Value>` => `JMap`
%base 0 vx_pairs
%sig
  requires names_ok(*old(self))
  ensures r is Ok ==> names_ok(*final(self)), r is Ok == load3(rs(*old(self)), jm(*map), jkeys(jm(*map)).len()) is Some, r is Ok ==> Some(rs(*final(self))) == load3(rs(*old(self)), jm(*map), jkeys(jm(*map)).len())
%body_start
  let ghost s0 = rs(*self);
%loop 0 it
  invariant pairs_of(it.seq(), jm(*map)), names_ok(*self), s0 == rs(*old(self)), Some(rs(*self)) == load3(s0, jm(*map), it.index@ as nat)
%loop_start 0
  proof { let n = (it.index@ + 1) as nat; if load3(s0, jm(*map), n) is None { lemma_load3_mono(s0, jm(*map), n, jkeys(jm(*map)).len()); } }
%fn MatchingRules::load_from_v2_map
%chain
%lazy
%eq
%opt
%fmt exact
%sub `anyhow::Result<()>` => `Result<(), VxError>`
%sub `serde_json::Map<String, Value>` => `JMap`
%base 0 vx_pairs
%sub `key.starts_with("$.body")` => `vx_starts(key, "$.body")`
%sub `key.starts_with("$.headers")` => `vx_starts(key, "$.headers")`
%sub `&key[6..]` => `vx_from6(key)`
%sub 2 `names.next()` => `vx_next(&mut names)`
%sig
  requires names_ok(*old(self))
  ensures r is Ok ==> names_ok(*final(self)), r is Ok == load2(rs(*old(self)), jm(*map), jkeys(jm(*map)).len()) is Some, r is Ok ==> Some(rs(*final(self))) == load2(rs(*old(self)), jm(*map), jkeys(jm(*map)).len())
%body_start
  let ghost s0 = rs(*self);
%loop 0 it
  invariant pairs_of(it.seq(), jm(*map)), names_ok(*self), s0 == rs(*old(self)), Some(rs(*self)) == load2(s0, jm(*map), it.index@ as nat)
%loop_start 0
  proof { lemma_names(); let n = (it.index@ + 1) as nat; if load2(s0, jm(*map), n) is None { lemma_load2_mono(s0, jm(*map), n, jkeys(jm(*map)).len()); } }
%loop 1 jt
  invariant jt.seq().len() == ptoks(ptext(path)).len(), forall|i: int| 0 <= i < jt.seq().len() ==> tk(*(#[trigger] jt.seq()[i])) == ptoks(ptext(path))[i], texts(vx_b1@) =~= fields(ptoks(ptext(path)).take(jt.index@))
%loop_start 1
  let ghost b0 = vx_b1@;
%loop_end 1
  proof { let q = ptoks(ptext(path)); let n = jt.index@; assert(q.take(n + 1) =~= q.take(n).push(q[n])); assert(q.take(n + 1).drop_last() =~= q.take(n)); assert(tk(*vx_x1) == q[n]); }
%after_loop 1
  proof { let q = ptoks(ptext(path)); assert(q.take(q.len() as int) =~= q); assert forall|i: int| 0 <= i < vx_b1@.len() implies (#[trigger] vx_b1@[i])@ == fields(q)[i] by { assert(texts(vx_b1@)[i] == vx_b1@[i]@); } }
%loop 2 jt
  invariant jt.seq().len() == ptoks(ptext(path)).len(), forall|i: int| 0 <= i < jt.seq().len() ==> tk(*(#[trigger] jt.seq()[i])) == ptoks(ptext(path))[i], texts(vx_b2@) =~= fields(ptoks(ptext(path)).take(jt.index@))
%loop_start 2
  let ghost b0 = vx_b2@;
%loop_end 2
  proof { let q = ptoks(ptext(path)); let n = jt.index@; assert(q.take(n + 1) =~= q.take(n).push(q[n])); assert(q.take(n + 1).drop_last() =~= q.take(n)); assert(tk(*vx_x2) == q[n]); }
%after_loop 2
  proof { let q = ptoks(ptext(path)); assert(q.take(q.len() as int) =~= q); assert forall|i: int| 0 <= i < vx_b2@.len() implies (#[trigger] vx_b2@[i])@ == fields(q)[i] by { assert(texts(vx_b2@)[i] == vx_b2@[i]@); } }
%fn MatchingRuleCategory::to_v2_json
%sub `hashmap!{}` => `HashMap::new()`
%sub 2 `self.rules.clone()` => `self.rules.iter()`
%sub `String::from(k).replacen("$", "$.body", 1)` => `vx_replace1(k.to_string(), "$", "$.body")`
%fmt exact
%base 0
%base 1
%base 2 vx_entries
%base 3 vx_entries
%sig
  ensures inj2(self.name, cm(*self)) ==> is_cat2j(hj(r), self.name, cm(*self))
%body_start
  proof { self.rules.axiom_wf(); }
%loop 0 it
  invariant it.seq() == vx_s0@, entries_of(vx_s0@, self.rules@), self.name is PATH, keys_wf(self.rules@),
    inj2(self.name, cm(*self)) ==> v2_upto(vx_s0@, self.name, hj(map), it.index@), forall|k: Seq<char>| #[trigger] hj(map).dom().contains(k) ==> exists|i: int| 0 <= i < it.index@ && v2key(self.name, (#[trigger] vx_s0@[i]).0.kv()) == k
%loop_start 0
  proof { broadcast use axiom_jv; assert(cm(*self).dom() =~= self.rules@.dom()); } let ghost m0 = hj(map);
%loop_end 0
  proof { let n = it.index@; reveal_strlit("$.path"); reveal_strlit("."); lemma_v2_step(vx_s0@, self.name, self.rules@, m0, hj(map), n); }
%after_loop 0
  proof { lemma_v2_done(vx_s0@, self.name, self.rules@, hj(map)); }
%loop 1 it
  invariant it.seq() == vx_s1@, entries_of(vx_s1@, self.rules@), self.name is BODY, keys_wf(self.rules@),
    inj2(self.name, cm(*self)) ==> v2_upto(vx_s1@, self.name, hj(map), it.index@), forall|k: Seq<char>| #[trigger] hj(map).dom().contains(k) ==> exists|i: int| 0 <= i < it.index@ && v2key(self.name, (#[trigger] vx_s1@[i]).0.kv()) == k
%loop_start 1
  proof { broadcast use axiom_jv; assert(cm(*self).dom() =~= self.rules@.dom()); } let ghost m0 = hj(map);
%loop_end 1
  proof { let n = it.index@; reveal_strlit("$.path"); reveal_strlit("."); lemma_v2_step(vx_s1@, self.name, self.rules@, m0, hj(map), n); }
%after_loop 1
  proof { lemma_v2_done(vx_s1@, self.name, self.rules@, hj(map)); }
%loop 2 it
  invariant it.seq() == vx_s2@, entries_of(vx_s2@, self.rules@), by_name(self.name), keys_wf(self.rules@),
    inj2(self.name, cm(*self)) ==> v2_upto(vx_s2@, self.name, hj(map), it.index@), forall|k: Seq<char>| #[trigger] hj(map).dom().contains(k) ==> exists|i: int| 0 <= i < it.index@ && v2key(self.name, (#[trigger] vx_s2@[i]).0.kv()) == k
%loop_start 2
  proof { broadcast use axiom_jv; assert(cm(*self).dom() =~= self.rules@.dom()); } let ghost m0 = hj(map);
%loop_end 2
  proof { let n = it.index@; reveal_strlit("$.path"); reveal_strlit("."); lemma_v2_step(vx_s2@, self.name, self.rules@, m0, hj(map), n); }
%after_loop 2
  proof { lemma_v2_done(vx_s2@, self.name, self.rules@, hj(map)); }
%loop 3 it
  invariant it.seq() == vx_s3@, entries_of(vx_s3@, self.rules@), !(self.name is PATH) && !(self.name is BODY) && !by_name(self.name), keys_wf(self.rules@),
    inj2(self.name, cm(*self)) ==> v2_upto(vx_s3@, self.name, hj(map), it.index@), forall|k: Seq<char>| #[trigger] hj(map).dom().contains(k) ==> exists|i: int| 0 <= i < it.index@ && v2key(self.name, (#[trigger] vx_s3@[i]).0.kv()) == k
%loop_start 3
  proof { broadcast use axiom_jv; assert(cm(*self).dom() =~= self.rules@.dom()); } let ghost m0 = hj(map);
%loop_end 3
  proof { let n = it.index@; let key = ptext(*k); assert(Seq::<char>::empty().push('$').push('.') + v2form(self.name) =~= seq!['$', '.'] + v2form(self.name)); assert((seq!['$', '.'] + v2form(self.name)).push('.') + key =~= v2key(self.name, key)); reveal_strlit("$.path"); reveal_strlit("."); lemma_v2_step(vx_s3@, self.name, self.rules@, m0, hj(map), n); }
%after_loop 3
  proof { lemma_v2_done(vx_s3@, self.name, self.rules@, hj(map)); }
%fn MatchingRules::to_v2_json
%base 0
%base 1 vx_sentries
%sub `serde_json::Map::new()` => `JMap::new()`
%after_base 0
  proof { self.rules.axiom_wf(); }
%sig
  requires names_ok(*self)
  ensures inj2_all(rs(*self)) ==> (jv(r) matches JV::Obj(o) && is_set2j(o, rs(*self)))
%loop 0 it
  invariant it.seq() == vx_s0@, entries_of(vx_s0@, self.rules@), names_ok(*self), keys_wf(self.rules@),
    inj2_all(rs(*self)) ==> set2_upto(vx_s0@, jm(map), it.index@) && set2_only(vx_s0@, jm(map), it.index@)
%loop_start 0
  proof { broadcast use axiom_jv; let n = it.index@; assert(rs(*self).dom() =~= self.rules@.dom()); assert(self.rules@[*vx_s0@[n].0] == (*vx_s0@[n].0, *vx_s0@[n].1)); assert(rs(*self)[*vx_s0@[n].0] == cm(*vx_s0@[n].1)); assert(*category == *vx_s0@[n].1 && category.name == *vx_s0@[n].0); } let ghost m0 = jm(map); let ghost n0 = it.index@;
%loop 1 jt
  invariant jt.seq() == vx_s1@, jm(map) =~= m0.union_prefer_right(hseq(vx_s1@.take(jt.index@)))
%loop_end 1
  proof { broadcast use axiom_jv; let j = jt.index@; assert(vx_s1@.take(j + 1).drop_last() =~= vx_s1@.take(j)); assert(vx_s1@.take(j + 1).last() == vx_s1@[j]); }
%after_loop 1
  proof { assert(vx_s1@.take(vx_s1@.len() as int) =~= vx_s1@); if inj2_all(rs(*self)) { lemma_set2_step(vx_s0@, self.rules@, m0, jm(map), n0, hseq(vx_s1@)); } }
%after_loop 0
  proof { broadcast use axiom_jv; if inj2_all(rs(*self)) { lemma_set2_done(vx_s0@, self.rules@, jm(map)); } }
%fn MatchingRules::to_v3_json
%opt
%base 0
%after_base 0
  proof { self.rules.axiom_wf(); }
%sub `serde_json::Map::new()` => `JMap::new()`
%sig
  requires names_ok(*self)
  ensures inj_all(rs(*self)) ==> (jv(r) matches JV::Obj(o) && is_setj(o, rs(*self)))
%loop 0 it
  invariant it.seq() == vx_s0@, entries_of(vx_s0@, self.rules@), names_ok(*self), keys_wf(self.rules@),
    inj_all(rs(*self)) ==> set_upto(vx_s0@, jm(map), it.index@) && set_only(vx_s0@, jm(map), it.index@)
%loop_start 0
  proof { broadcast use axiom_jv; let n = it.index@; assert(rs(*self).dom() =~= self.rules@.dom()); assert(self.rules@[*vx_s0@[n].0] == (*vx_s0@[n].0, *vx_s0@[n].1)); assert(rs(*self)[*vx_s0@[n].0] == cm(*vx_s0@[n].1)); assert(cm(*vx_s0@[n].1).dom() =~= vx_s0@[n].1.rules@.dom()); } let ghost m0 = jm(map);
%loop_end 0
  proof { let n = it.index@; let c = *vx_s0@[n].0; let q = cm(*vx_s0@[n].1); let k = cname(c); let g = *vx_s0@[n].1;
    assert(g.rules@.dom() =~= q.dom()); assert(*name == c && *sub_category == g && g.name == c);
    if inj_all(rs(*self)) { assert(inj(c, q)); assert(rs(*self).dom().contains(c));
      if c is PATH { assert(seq![] =~= Seq::<char>::empty());
        if path_list(q) is Some { assert(jm(map) == m0.insert(k, listj(path_list(q)->0))); } else { assert(jm(map) == m0); } }
      else { if has_json(c, q) { assert(exists|p: Seq<char>| q.dom().contains(p)); let p = choose|p: Seq<char>| q.dom().contains(p); assert(jm(map).dom().contains(k)); assert(jm(map) == m0.insert(k, jm(map)[k])); } else { assert(jm(map) == m0); } }
      lemma_set_step(vx_s0@, self.rules@, m0, jm(map), n); } }
%after_loop 0
  proof { broadcast use axiom_jv; lemma_set_done(vx_s0@, self.rules@, jm(map), inj_all(rs(*self))); }
%fn matchers_from_json
%sub `anyhow::Result<MatchingRules>` => `Result<MatchingRules, VxError>`
%sub `MatchingRules::default()` => `rules_default()`
%sub `m.keys().next().unwrap_or(&String::default()).starts_with("$")` => `vx_first_key_starts(m, "$")`
%closure 0 |name: String| -> (o: Option<&Value>) ensures o is Some == jsub(jv(*value), name@) is Some, o is Some ==> Some(jv(*o->0)) == jsub(jv(*value), name@)
%sig
  ensures r is Ok ==> names_ok(r->Ok_0), r is Ok == load(jv(*value), match deprecated_name { Some(n) => Some(n@), None => None }) is Some, r is Ok ==> Some(rs(r->Ok_0)) == load(jv(*value), match deprecated_name { Some(n) => Some(n@), None => None })
%body_start
  proof { broadcast use axiom_jv; lemma_names(); }
%fn matchers_to_json
%sig
  requires names_ok(*matchers)
  ensures spec_version is V3 || spec_version is V4 ==> (inj_all(rs(*matchers)) ==> (jv(r) matches JV::Obj(o) && is_setj(o, rs(*matchers)))),
    !(spec_version is V3 || spec_version is V4) ==> (inj2_all(rs(*matchers)) ==> (jv(r) matches JV::Obj(o) && is_set2j(o, rs(*matchers))))
%prelude
verus! {
// ---- reading back what was written ----
/// the rule is read back from its JSON (theorem_rule_json in rule_json, for every rule a file can hold)
pub open spec fn rule_back(r: RQ) -> bool { rfrom(JV::Obj(rj(r))) == Some(r) }
pub open spec fn list_ok(l: LQ) -> bool { l.0.len() > 0 && forall|i: int| 0 <= i < l.0.len() ==> rule_back(#[trigger] l.0[i]) }
pub open spec fn cat_ok(c: Category, m: CM) -> bool { if c is PATH { m.dom() =~= set![Seq::<char>::empty()] && list_ok(m[seq![]]) } else { inj(c, m) && !(m.dom() =~= Set::empty()) && forall|p: Seq<char>| #[trigger] m.dom().contains(p) ==> list_ok(m[p]) && (if by_name(c) { field_path(kname(c, p)) == p } else { is_path(p) }) } }
pub open spec fn set_ok(s: RS) -> bool { forall|c: Category| #[trigger] s.dom().contains(c) ==> cat_ok(c, s[c]) }
pub proof fn lemma_logic_back(l: LQ) ensures logic_of(listj(l)) == l.1 {
  broadcast use axiom_upper; lemma_names(); reveal_strlit("AND"); reveal_strlit("OR"); let t = match l.1 { RuleLogic::And => "AND"@, RuleLogic::Or => "OR"@ };
  assert("combine"@ != "matchers"@); assert(jsub(listj(l), "combine"@) == Some(JV::Str(t))); assert(jtext(JV::Str(t)) == t); assert(ascii(t)); assert(upper(t) =~= t); assert("AND"@.len() == 3 && "OR"@.len() == 2); }
pub proof fn lemma_add_n_back(m: CM, p: Seq<char>, l: LQ, n: nat)
  requires list_ok(l), !m.dom().contains(p), n <= l.0.len() ensures add_n(m, p, rjs(l.0), l.1, n) == Some(if n == 0 { m } else { m.insert(p, (l.0.take(n as int), l.1)) }) decreases n {
  if n > 0 { lemma_add_n_back(m, p, l, (n - 1) as nat); let r = l.0[n - 1]; assert(rjs(l.0)[n - 1] == JV::Obj(rj(r))); assert(rule_back(r)); assert(l.0.take(n as int) =~= l.0.take(n - 1).push(r)); assert(l.0.take(1) =~= seq![l.0[0]]);
    if n > 1 { assert(m.insert(p, (l.0.take(n - 1), l.1)).insert(p, (l.0.take(n as int), l.1)) =~= m.insert(p, (l.0.take(n as int), l.1))); } } }
/// a list of rules is read back, with its rules in order and its way of combining them
pub proof fn theorem_list_back(m: CM, p: Seq<char>, l: LQ) requires list_ok(l), !m.dom().contains(p) ensures add_list(m, p, listj(l)) == Some(m.insert(p, l)) {
  lemma_logic_back(l); lemma_names(); assert("combine"@ != "matchers"@); assert(jsub(listj(l), "matchers"@) == Some(JV::Arr(rjs(l.0)))); lemma_add_n_back(m, p, l, l.0.len()); assert(l.0.take(l.0.len() as int) =~= l.0); }
pub proof fn lemma_entries_back(c: Category, m: CM, o: JO, n: nat)
  requires cat_ok(c, m), !(c is PATH), is_catj(o, c, m), n <= jkeys(o).len()
  ensures entries(Map::empty(), by_name(c), o, n) matches Some(h) && (forall|p: Seq<char>| #[trigger] h.dom().contains(p) <==> m.dom().contains(p) && jkeys(o).take(n as int).contains(kname(c, p))) && (forall|p: Seq<char>| #[trigger] h.dom().contains(p) ==> h[p] == m[p]) decreases n {
  broadcast use axiom_jkeys; let ks = jkeys(o);
  if n > 0 { lemma_entries_back(c, m, o, (n - 1) as nat); let g = entries(Map::empty(), by_name(c), o, (n - 1) as nat)->0; let k = ks[n - 1]; assert(ks.contains(k)); assert(o.dom().contains(k));
    let p = choose|p: Seq<char>| m.dom().contains(p) && #[trigger] kname(c, p) == k; assert(o[k] == listj(m[p])); assert(!ks.take(n - 1).contains(k)); assert(!g.dom().contains(p)); theorem_list_back(g, p, m[p]);
    let h = g.insert(p, m[p]); assert(entries(Map::empty(), by_name(c), o, n) == Some(h)); assert(ks.take(n as int) =~= ks.take(n - 1).push(k));
    assert forall|q: Seq<char>| #[trigger] h.dom().contains(q) <==> m.dom().contains(q) && ks.take(n as int).contains(kname(c, q)) by {
      if q == p { assert(ks.take(n as int)[n - 1] == k); } else { if m.dom().contains(q) && ks.take(n as int).contains(kname(c, q)) { assert(kname(c, q) != k); assert(ks.take(n - 1).contains(kname(c, q))); } if g.dom().contains(q) { let j = choose|j: int| 0 <= j < ks.take(n - 1).len() && #[trigger] ks.take(n - 1)[j] == kname(c, q); assert(ks.take(n as int)[j] == kname(c, q)); } } } }
  else { assert(ks.take(0).len() == 0); } }
/// the rules of a category are read back from what is written for it, every path or name with its list
pub proof fn theorem_category_json(c: Category, m: CM, v: JV) requires cat_ok(c, m), is_cat_entry(v, c, m) ensures load_cat(Map::empty(), c, v, true) == Some(m) {
  broadcast use axiom_jkeys; lemma_names(); assert(Seq::<char>::empty() =~= seq![]);
  if c is PATH { assert(m.dom().contains(seq![])); theorem_list_back(Map::empty(), seq![], m[seq![]]); assert("combine"@ != "matchers"@); assert(Map::<Seq<char>, LQ>::empty().insert(seq![], m[seq![]]) =~= m); }
  else { let o = v->Obj_0; let ks = jkeys(o); lemma_entries_back(c, m, o, ks.len()); assert(ks.take(ks.len() as int) =~= ks); let h = entries(Map::empty(), by_name(c), o, ks.len())->0;
    assert forall|p: Seq<char>| m.dom().contains(p) implies #[trigger] h.dom().contains(p) by { assert(o.dom().contains(kname(c, p))); } assert(h =~= m);
    if o.dom().contains("matchers"@) { let p = choose|p: Seq<char>| m.dom().contains(p) && #[trigger] kname(c, p) == "matchers"@; assert(o["matchers"@] == listj(m[p])); } } }
pub proof fn lemma_load3_back(s: RS, o: JO, n: nat) requires set_ok(s), is_setj(o, s), n <= jkeys(o).len()
  ensures load3(Map::empty(), o, n) matches Some(h) && (forall|c: Category| #[trigger] h.dom().contains(c) <==> s.dom().contains(c) && jkeys(o).take(n as int).contains(cname(c))) && (forall|c: Category| #[trigger] h.dom().contains(c) ==> h[c] == s[c]) decreases n {
  broadcast use axiom_jkeys; let ks = jkeys(o);
  if n > 0 { lemma_load3_back(s, o, (n - 1) as nat); let g = load3(Map::empty(), o, (n - 1) as nat)->0; let k = ks[n - 1]; assert(ks.contains(k)); assert(o.dom().contains(k));
    let c = choose|c: Category| s.dom().contains(c) && has_json(c, s[c]) && #[trigger] cname(c) == k; theorem_category_names(c); assert(is_cat_entry(o[k], c, s[c])); assert(!ks.take(n - 1).contains(k)); assert(!g.dom().contains(c)); theorem_category_json(c, s[c], o[k]);
    let h = g.insert(c, s[c]); assert(load3(Map::empty(), o, n) == Some(h)); assert(ks.take(n as int) =~= ks.take(n - 1).push(k));
    assert forall|d: Category| #[trigger] h.dom().contains(d) <==> s.dom().contains(d) && ks.take(n as int).contains(cname(d)) by { theorem_category_names(d);
      if d == c { assert(ks.take(n as int)[n - 1] == k); } else { if s.dom().contains(d) && ks.take(n as int).contains(cname(d)) { assert(cname(d) != k); assert(ks.take(n - 1).contains(cname(d))); } if g.dom().contains(d) { let j = choose|j: int| 0 <= j < ks.take(n - 1).len() && #[trigger] ks.take(n - 1)[j] == cname(d); assert(ks.take(n as int)[j] == cname(d)); } } } }
  else { assert(ks.take(0).len() == 0); } }
/// the matching rules of an interaction are read back from what is written for them
pub proof fn theorem_matching_rules_json(s: RS, o: JO) requires set_ok(s), is_setj(o, s) ensures load3(Map::empty(), o, jkeys(o).len()) == Some(s), load(JV::Obj(Map::<Seq<char>, JV>::empty().insert("matchingRules"@, JV::Obj(o))), None) == Some(s) {
  broadcast use axiom_jkeys; let ks = jkeys(o); lemma_load3_back(s, o, ks.len()); assert(ks.take(ks.len() as int) =~= ks); let h = load3(Map::empty(), o, ks.len())->0;
  assert forall|c: Category| s.dom().contains(c) implies #[trigger] h.dom().contains(c) by { assert(cat_ok(c, s[c])); assert(has_json(c, s[c])) by { if c is PATH { assert(s[c].dom().contains(seq![])); } } assert(o.dom().contains(cname(c))); } assert(h =~= s);
  if ks.len() > 0 { assert(ks.contains(ks[0])); assert(o.dom().contains(ks[0])); let c = choose|c: Category| s.dom().contains(c) && has_json(c, s[c]) && #[trigger] cname(c) == ks[0]; lemma_names(); assert(!starts(ks[0], root_text())) by { if starts(ks[0], root_text()) { assert(ks[0][0] == ks[0].take(1)[0]); assert(root_text()[0] == '$'); } } } }
}
