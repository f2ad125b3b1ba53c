%unit gens_json
%include std.rs
%include vxmap.rs
%include json_val.rs
%src rust/pact_models/src/generators/mod.rs
%enum GeneratorCategory
%prelude
verus! {
impl Clone for GeneratorCategory { fn clone(&self) -> (r: Self) ensures r == *self { match self { GeneratorCategory::METHOD => GeneratorCategory::METHOD, GeneratorCategory::PATH => GeneratorCategory::PATH, GeneratorCategory::HEADER => GeneratorCategory::HEADER, GeneratorCategory::QUERY => GeneratorCategory::QUERY, GeneratorCategory::BODY => GeneratorCategory::BODY, GeneratorCategory::STATUS => GeneratorCategory::STATUS, GeneratorCategory::METADATA => GeneratorCategory::METADATA } } }
impl VxKey for GeneratorCategory { type KV = GeneratorCategory; open spec fn kv(&self) -> GeneratorCategory { *self } }
pub enum Category { METHOD, PATH, HEADER, QUERY, BODY, STATUS, CONTENTS, METADATA }
/// derived PartialEq of a unit-only enum
#[verifier::external_body] pub fn vx_eq(a: &GeneratorCategory, b: &GeneratorCategory) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
/// two str values with the same characters are equal
#[verifier::external_body] pub fn vx_lit<'a>(s: &'a str) -> (r: &'a str) ensures r@ == s@, forall|b: &str| (#[trigger] b@) == s@ ==> b == r { unimplemented!() }
// ---- paths and generators, by the contracts proved for them in path_ops, path_parse and gen_json ----
#[verifier::external_body] pub struct DocPath { _p: () }
pub uninterp spec fn ptext(p: DocPath) -> Seq<char>;
impl VxKey for DocPath { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { ptext(*self) } }
/// the text of the path made of the root and one field, and which texts are paths
pub uninterp spec fn field_path(n: Seq<char>) -> Seq<char>;
pub uninterp spec fn is_path(s: Seq<char>) -> bool;
#[verifier::external_body] pub fn vx_field_path(n: &String) -> (r: DocPath) ensures ptext(r) == field_path(n@) { unimplemented!() }
impl DocPath {
  #[verifier::external_body] pub fn new(s: &String) -> (r: Result<DocPath, VxError>) ensures r is Ok == is_path(s@), r is Ok ==> ptext(r->Ok_0) == s@ { unimplemented!() }
  #[verifier::external_body] pub fn empty() -> (r: DocPath) ensures ptext(r) == Seq::<char>::empty() { unimplemented!() }
}
impl Clone for DocPath { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub type JO = Map<Seq<char>, JV>;
#[verifier::external_body] pub struct Generator { _p: () }
#[verifier::external_body] pub ghost struct GQ { _p: () }
pub uninterp spec fn gq(g: Generator) -> GQ;
pub uninterp spec fn gf(t: Seq<char>, m: JO) -> Option<GQ>;
impl Generator { #[verifier::external_body] pub fn from_map(t: &String, m: &JMap) -> (r: Option<Generator>) ensures r is Some == gf(t@, jm(*m)) is Some, r is Some ==> gq(r->0) == gf(t@, jm(*m))->0 { unimplemented!() } }
impl Clone for Generator { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures gq(r) == gq(*self) { unimplemented!() } }
// ---- str::to_lowercase: ASCII letters by table ----
pub open spec fn loc(c: char) -> char { if 'A' <= c && c <= 'Z' { (c as u8 + 32) as u8 as char } else { c } }
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub broadcast axiom fn axiom_lower(s: Seq<char>) requires ascii(s) ensures #[trigger] lower(s) == s.map_values(|c: char| loc(c));
#[verifier::external_body] pub fn vx_lower(s: &str) -> (r: String) ensures r@ == lower(s@) { unimplemented!() }
// ---- the entries of an object, in its own fixed order ----
pub uninterp spec fn jkeys(d: JO) -> Seq<Seq<char>>;
pub open spec fn pairs_of(s: Seq<(&String, &Value)>, m: JO) -> bool { s.len() == jkeys(m).len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0@ == jkeys(m)[i] && jv(*s[i].1) == m[jkeys(m)[i]] }
#[verifier::external_body] pub fn vx_pairs<'a>(m: &'a JMap) -> (r: Vec<(&'a String, &'a Value)>) ensures pairs_of(r@, jm(*m)) { unimplemented!() }
// ---- category names ----
pub open spec fn cname(c: GeneratorCategory) -> Seq<char> { match c { GeneratorCategory::METHOD => "method"@, GeneratorCategory::PATH => "path"@, GeneratorCategory::HEADER => "header"@, GeneratorCategory::QUERY => "query"@, GeneratorCategory::BODY => "body"@, GeneratorCategory::STATUS => "status"@, GeneratorCategory::METADATA => "metadata"@ } }
pub open spec fn cof(s: Seq<char>) -> Option<GeneratorCategory> { let l = lower(s); if l == "method"@ { Some(GeneratorCategory::METHOD) } else if l == "path"@ { Some(GeneratorCategory::PATH) } else if l == "header"@ { Some(GeneratorCategory::HEADER) } else if l == "query"@ { Some(GeneratorCategory::QUERY) } else if l == "body"@ { Some(GeneratorCategory::BODY) } else if l == "status"@ { Some(GeneratorCategory::STATUS) } else if l == "metadata"@ { Some(GeneratorCategory::METADATA) } else { None } }
pub proof fn theorem_category_names(c: GeneratorCategory) ensures cof(cname(c)) == Some(c) {
  broadcast use axiom_lower;
  reveal_strlit("method"); reveal_strlit("path"); reveal_strlit("header"); reveal_strlit("query"); reveal_strlit("body"); reveal_strlit("status"); reveal_strlit("metadata");
  assert(ascii(cname(c))); assert(lower(cname(c)) =~= cname(c));
  assert("method"@.len() == 6 && "path"@.len() == 4 && "header"@.len() == 6 && "query"@.len() == 5 && "body"@.len() == 4 && "status"@.len() == 6 && "metadata"@.len() == 8);
  assert("method"@[0] == 'm' && "path"@[0] == 'p' && "header"@[0] == 'h' && "body"@[0] == 'b' && "status"@[0] == 's');
}
// ---- the generators as a function of category and path, and what loading adds ----
pub type GM = Map<GeneratorCategory, Map<Seq<char>, GQ>>;
pub open spec fn paths_q(m: HashMap<DocPath, Generator>) -> Map<Seq<char>, GQ> { m@.map_values(|e: (DocPath, Generator)| gq(e.1)) }
pub open spec fn gm(g: Generators) -> GM { g.categories@.map_values(|e: (GeneratorCategory, HashMap<DocPath, Generator>)| paths_q(e.1)) }
pub open spec fn at(g: GM, c: GeneratorCategory) -> Map<Seq<char>, GQ> { if g.dom().contains(c) { g[c] } else { Map::empty() } }
pub open spec fn add(g: GM, c: GeneratorCategory, p: Seq<char>, x: GQ) -> GM { g.insert(c, at(g, c).insert(p, x)) }
/// an object with a type that names a generator adds it, anything else is ignored
pub open spec fn load_one(g: GM, c: GeneratorCategory, m: JO, p: Seq<char>) -> GM { if m.dom().contains("type"@) { match m["type"@] { JV::Str(t) => match gf(t, m) { Some(x) => add(g, c, p, x), None => g }, _ => g } } else { g } }
/// one entry of a category: None when its path does not parse
pub open spec fn load_sub(g: GM, c: GeneratorCategory, k: Seq<char>, v: JV) -> Option<GM> { match v { JV::Obj(m) => if c is QUERY || c is HEADER { Some(load_one(g, c, m, field_path(k))) } else if is_path(k) { Some(load_one(g, c, m, k)) } else { None }, _ => Some(g) } }
pub open spec fn load_subs(g: GM, c: GeneratorCategory, m: JO, n: nat) -> Option<GM> decreases n { if n == 0 || n > jkeys(m).len() { Some(g) } else { match load_subs(g, c, m, (n - 1) as nat) { Some(h) => load_sub(h, c, jkeys(m)[n - 1], m[jkeys(m)[n - 1]]), None => None } } }
pub open spec fn load_cat(g: GM, k: Seq<char>, v: JV) -> Option<GM> { match v { JV::Obj(m) => match cof(k) { Some(c) => if c is PATH || c is METHOD || c is STATUS { Some(load_one(g, c, m, seq![])) } else { load_subs(g, c, m, jkeys(m).len()) }, None => Some(g) }, _ => Some(g) } }
pub open spec fn load(g: GM, m: JO, n: nat) -> Option<GM> decreases n { if n == 0 || n > jkeys(m).len() { Some(g) } else { match load(g, m, (n - 1) as nat) { Some(h) => load_cat(h, jkeys(m)[n - 1], m[jkeys(m)[n - 1]]), None => None } } }
pub proof fn lemma_load_mono(g: GM, m: JO, a: nat, b: nat) requires a <= b, b <= jkeys(m).len(), load(g, m, a) is None ensures load(g, m, b) is None decreases b { if a < b { lemma_load_mono(g, m, a, (b - 1) as nat); } }
pub proof fn lemma_subs_mono(g: GM, c: GeneratorCategory, m: JO, a: nat, b: nat) requires a <= b, b <= jkeys(m).len(), load_subs(g, c, m, a) is None ensures load_subs(g, c, m, b) is None decreases b { if a < b { lemma_subs_mono(g, c, m, a, (b - 1) as nat); } }
/// adding a generator changes its own entry and no other
pub proof fn theorem_add(g: GM, c: GeneratorCategory, p: Seq<char>, x: GQ, d: GeneratorCategory, q: Seq<char>) ensures ({ let h = add(g, c, p, x); at(h, c).dom().contains(p) && at(h, c)[p] == x && ((d != c || q != p) ==> at(h, d).dom().contains(q) == at(g, d).dom().contains(q) && (at(g, d).dom().contains(q) ==> at(h, d)[q] == at(g, d)[q])) }) {}
}
%struct Generators
%fn FromStr for GeneratorCategory::from_str
%free
%rename cat_from_str
%fmt args
%sub `Result<Self, Self::Err>` => `Result<GeneratorCategory, String>`
%sub `s.to_lowercase().as_str()` => `vx_lit(vx_lower(s).as_str())`
%sig
  ensures r is Ok == cof(s@) is Some, r is Ok ==> Some(r->Ok_0) == cof(s@)
%fn Into<String> for GeneratorCategory::into
%free
%rename cat_into
%sub `(self)` => `(s_: GeneratorCategory)`
%sub `self.into()` => `cat_into_str(s_)`
%sig
  ensures r@ == cname(s_)
%fn Into<&'astr> for GeneratorCategory::into
%free
%rename cat_into_str
%sub `(self)` => `(s_: GeneratorCategory)`
%sub `match self` => `match s_`
%sub `&'a str` => `&'static str`
%sig
  ensures r@ == cname(s_)
%fn Into<Category> for GeneratorCategory::into
%free
%rename cat_into_cat
%sub `(self)` => `(s_: GeneratorCategory)`
%sub `match self` => `match s_`
%sig
  ensures r == (match s_ { GeneratorCategory::METHOD => Category::METHOD, GeneratorCategory::PATH => Category::PATH, GeneratorCategory::HEADER => Category::HEADER, GeneratorCategory::QUERY => Category::QUERY, GeneratorCategory::BODY => Category::BODY, GeneratorCategory::STATUS => Category::STATUS, GeneratorCategory::METADATA => Category::METADATA })
%fn Generators::add_generator
%sig
  ensures gm(*final(self)) == add(gm(*old(self)), *category, Seq::<char>::empty(), gq(generator))
%fn Generators::add_generator_with_subcategory
%sub `self.categories.entry(category.clone()).or_insert(HashMap::new())` => `vx_entry(&mut self.categories, category.clone(), HashMap::new())`
%sig
  ensures gm(*final(self)) == add(gm(*old(self)), *category, ptext(subcategory), gq(generator))
%body_start
  let ghost g0 = gm(*self); let ghost p0 = ptext(subcategory); let ghost c0 = self.categories@;
%body_end
  proof { let c = *category; assert(paths_q(self.categories@[c].1) =~= at(g0, c).insert(p0, gq(generator))); assert(gm(*self) =~= add(g0, c, p0, gq(generator))); }
%fn Generators::parse_generator_from_map
%sub `serde_json::Map<String, Value>` => `JMap`
%sig
  ensures gm(*final(self)) == load_one(gm(*old(self)), *category, jm(*map), match subcat { Some(p) => ptext(p), None => seq![] })
%body_start
  proof { broadcast use axiom_jv; }
%fn Generators::load_from_map
%attr #[verifier::loop_isolation(false)]
%eq
%sub `serde_json::Map<String, Value>` => `JMap`
%sub `anyhow::Result<()>` => `Result<(), VxError>`
%base 0 vx_pairs
%base 1 vx_pairs
%sub `GeneratorCategory::from_str(k)` => `cat_from_str(k)`
%sub `DocPath::root().push_field(sub_k).clone()` => `vx_field_path(sub_k)`
%sig
  ensures r is Ok == load(gm(*old(self)), jm(*map), jkeys(jm(*map)).len()) is Some, r is Ok ==> Some(gm(*final(self))) == load(gm(*old(self)), jm(*map), jkeys(jm(*map)).len())
%body_start
  let ghost m0 = jm(*map); let ghost g0 = gm(*self);
%loop 0 it
  invariant pairs_of(it.seq(), m0), m0 == jm(*map), g0 == gm(*old(self)), Some(gm(*self)) == load(g0, m0, it.index@ as nat)
%loop_start 0
  proof { broadcast use axiom_jv; if load(g0, m0, (it.index@ + 1) as nat) is None { lemma_load_mono(g0, m0, (it.index@ + 1) as nat, jkeys(m0).len()); } }
  let ghost g1 = gm(*self); let ghost n0 = it.index@ as nat;
%loop 1 jt
  invariant n0 < jkeys(m0).len(), load(g0, m0, n0) == Some(g1), load(g0, m0, (n0 + 1) as nat) == load_subs(g1, *category, jm(*map), jkeys(jm(*map)).len()), g0 == gm(*old(self)), Some(gm(*self)) == load_subs(g1, *category, jm(*map), jt.index@ as nat), pairs_of(jt.seq(), jm(*map))
%loop_start 1
  proof { broadcast use axiom_jv; if load_subs(g1, *category, jm(*map), (jt.index@ + 1) as nat) is None { lemma_subs_mono(g1, *category, jm(*map), (jt.index@ + 1) as nat, jkeys(jm(*map)).len()); lemma_load_mono(g0, m0, (n0 + 1) as nat, jkeys(m0).len()); } }
