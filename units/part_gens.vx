%unit part_gens
%include std.rs
%include rules_types.vx
%src rust/pact_models/src/matchingrules/mod.rs
%struct MatchingRules
%src rust/pact_models/src/generators/mod.rs
%enum GeneratorCategory
%struct Generators
%prelude
verus! {
pub type CatMap = Map<Seq<char>, (Seq<Tok>, RL)>;
pub type Rules = Map<Category, (Category, MatchingRuleCategory)>;
pub open spec fn cat(m: Rules, c: Category) -> CatMap { if m.dom().contains(c) { rlm(m[c].1.rules@) } else { Map::empty() } }
impl RuleList { #[verifier::external_body] pub fn default_() -> (r: Self) ensures rl(r) == empty_rl() { unimplemented!() } }
pub trait VxInto: Sized { spec fn cat(&self) -> Category; fn into(self) -> (r: Category) ensures r == self.cat(); }
impl VxInto for Category { open spec fn cat(&self) -> Category { *self } fn into(self) -> (r: Category) { self } }
impl VxInto for GeneratorCategory { open spec fn cat(&self) -> Category { cat_of(*self) } fn into(self) -> (r: Category) { self.into_() } }
impl Clone for GeneratorCategory { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl VxKey for GeneratorCategory { type KV = GeneratorCategory; open spec fn kv(&self) -> GeneratorCategory { *self } }
#[verifier::external_body] pub ghost struct GQ { _p: () }
pub uninterp spec fn gq(g: Generator) -> GQ;
impl Clone for Generator { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures gq(r) == gq(*self) { unimplemented!() } }
pub type Variants = Vec<(usize, MatchingRuleCategory, HashMap<DocPath, Generator>)>;
/// the generator that goes with the variants
pub uninterp spec fn arr_gen(v: Variants) -> GQ;
/// Generator::ArrayContains(variants.clone())
#[verifier::external_body] pub fn vx_array_contains(v: &Variants) -> (r: Generator) ensures gq(r) == arr_gen(*v) { unimplemented!() }
pub open spec fn cat_of(c: GeneratorCategory) -> Category { match c { GeneratorCategory::METHOD => Category::METHOD, GeneratorCategory::PATH => Category::PATH, GeneratorCategory::HEADER => Category::HEADER, GeneratorCategory::QUERY => Category::QUERY, GeneratorCategory::BODY => Category::BODY, GeneratorCategory::STATUS => Category::STATUS, GeneratorCategory::METADATA => Category::METADATA } }
// ---- the generators that the rules carry ----
pub open spec fn carries(v: Variants) -> bool { exists|i: int| 0 <= i < v@.len() && !((#[trigger] v@[i]).2@.dom() =~= Set::empty()) }
pub open spec fn rule_gen(m: MatchingRule) -> Option<GQ> { match m { MatchingRule::ArrayContains(v) => if carries(v) { Some(arr_gen(v)) } else { None }, _ => None } }
/// the last one of a list
pub open spec fn list_gen(s: Seq<MatchingRule>) -> Option<GQ> decreases s.len() { if s.len() == 0 { None } else { match rule_gen(s.last()) { Some(g) => Some(g), None => list_gen(s.drop_last()) } } }
pub type GenMap = Map<Seq<char>, GQ>;
pub open spec fn paths_q(m: HashMap<DocPath, Generator>) -> GenMap { m@.map_values(|e: (DocPath, Generator)| gq(e.1)) }
pub open spec fn gen_at(m: CatMap, k: Seq<char>) -> Option<GQ> { if m.dom().contains(k) { list_gen(m[k].1.rules) } else { None } }
pub open spec fn mget(m: GenMap, k: Seq<char>) -> Option<GQ> { if m.dom().contains(k) { Some(m[k]) } else { None } }
pub open spec fn gens_at(g: Generators, c: GeneratorCategory) -> GenMap { if g.categories@.dom().contains(c) { paths_q(g.categories@[c].1) } else { Map::empty() } }
/// the part's own generator at a path, unless the rules at that path carry one
pub open spec fn built(g: GenMap, m: CatMap, k: Seq<char>) -> Option<GQ> { match gen_at(m, k) { Some(x) => Some(x), None => mget(g, k) } }
pub open spec fn seen(s: Seq<(&DocPath, &Generator)>, n: int, k: Seq<char>) -> bool { exists|i: int| 0 <= i < n && (#[trigger] s[i]).0.kv() == k }
pub proof fn lemma_seen(s: Seq<(&DocPath, &Generator)>, n: int, m: Map<Seq<char>, (DocPath, Generator)>) requires entries_of(s, m), 0 <= n < s.len() ensures forall|k: Seq<char>| #[trigger] seen(s, n + 1, k) == (seen(s, n, k) || k == s[n].0.kv()), !seen(s, n, s[n].0.kv()) {
  assert forall|k: Seq<char>| #[trigger] seen(s, n + 1, k) == (seen(s, n, k) || k == s[n].0.kv()) by { if k == s[n].0.kv() { assert(seen(s, n + 1, k)); } if seen(s, n, k) { let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).0.kv() == k; assert(s[i].0.kv() == k); assert(seen(s, n + 1, k)); } } }
pub proof fn lemma_all_seen(m: Map<Seq<char>, (DocPath, Generator)>) ensures forall|s: Seq<(&DocPath, &Generator)>, k: Seq<char>| entries_of(s, m) ==> #[trigger] seen(s, s.len() as int, k) == m.dom().contains(k) {
  assert forall|s: Seq<(&DocPath, &Generator)>, k: Seq<char>| entries_of(s, m) implies #[trigger] seen(s, s.len() as int, k) == m.dom().contains(k) by { if m.dom().contains(k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kv() == k; assert(seen(s, s.len() as int, k)); } } }
// ---- a part ----
#[verifier::external_body] pub struct Part { _p: () }
pub uninterp spec fn pr(p: Part) -> MatchingRules;
pub uninterp spec fn pg(p: Part) -> Generators;
impl Part {
  #[verifier::external_body] pub fn matching_rules(&self) -> (r: &MatchingRules) ensures *r == pr(*self) { unimplemented!() }
  #[verifier::external_body] pub fn generators(&self) -> (r: &Generators) ensures *r == pg(*self) { unimplemented!() }
}
}
%fn Into<Category> for GeneratorCategory::into
%rename into_
%sig
  ensures r == cat_of(self)
%src rust/pact_models/src/matchingrules/mod.rs
%fn MatchingRule::has_generators
%base 0
%sig
  ensures r == rule_gen(*self) is Some
%loop 0 it
  invariant_except_break vx_b0 == false, forall|i: int| 0 <= i < it.index@ ==> (#[trigger] variants@[i]).2@.dom() =~= Set::empty()
  invariant it.seq().len() == variants@.len(), forall|i: int| 0 <= i < variants@.len() ==> *(#[trigger] it.seq()[i]) == variants@[i]
  ensures vx_b0 == carries(*variants)
%loop_start 0
  proof { assert(*(it.seq()[it.index@ as int]) == variants@[it.index@ as int]); }
%fn MatchingRule::generators
%sub `Generator::ArrayContains(variants.clone())` => `vx_array_contains(variants)`
%sig
  ensures rule_gen(*self) is Some ==> r@.len() == 1 && gq(r@[0]) == rule_gen(*self)->0, !(*self is ArrayContains) ==> r@.len() == 0
%fn MatchingRuleCategory::generators
%sub `hashmap!{}` => `HashMap::new()`
%sub `&self.rules` => `self.rules.iter()`
%sig
  ensures forall|k: Seq<char>| #[trigger] mget(paths_q(r), k) == gen_at(rlm(self.rules@), k)
%loop 0 it
  invariant entries_of(it.seq(), self.rules@),
    forall|k: Seq<char>| #[trigger] mget(paths_q(generators), k) == (if exists|i: int| 0 <= i < it.index@ && (#[trigger] it.seq()[i]).0.kv() == k { gen_at(rlm(self.rules@), k) } else { None })
%loop_start 0
  let ghost g0 = paths_q(generators); let ghost n = it.index@; let ghost s = it.seq(); let ghost k0 = base_path.expr@;
  proof { assert(s[n].0.kv() == k0); assert forall|i: int| 0 <= i < n implies (#[trigger] s[i]).0.kv() != k0 by {} assert(mget(g0, k0) is None); assert(rules.rules@.take(0) =~= seq![]); }
%loop_end 0
  proof { assert(rules.rules@.take(rules.rules@.len() as int) =~= rules.rules@); assert(rlm(self.rules@).dom() =~= self.rules@.dom()); assert(rlm(self.rules@)[k0].1 == rl(*rules));
    assert forall|k: Seq<char>| #[trigger] mget(paths_q(generators), k) == (if exists|i: int| 0 <= i < n + 1 && (#[trigger] s[i]).0.kv() == k { gen_at(rlm(self.rules@), k) } else { None }) by {
      if k != k0 { assert(mget(paths_q(generators), k) == mget(g0, k)); assert((exists|i: int| 0 <= i < n + 1 && (#[trigger] s[i]).0.kv() == k) == (exists|i: int| 0 <= i < n && (#[trigger] s[i]).0.kv() == k)); } } }
%loop 1 jt
  invariant jt.seq().len() == rules.rules@.len(), forall|i: int| 0 <= i < rules.rules@.len() ==> *(#[trigger] jt.seq()[i]) == rules.rules@[i], base_path.expr@ == k0,
    mget(paths_q(generators), k0) == list_gen(rules.rules@.take(jt.index@ as int)), forall|k: Seq<char>| k != k0 ==> #[trigger] mget(paths_q(generators), k) == mget(g0, k)
%loop_start 1
  proof { let t = rules.rules@.take(jt.index@ + 1); assert(t.drop_last() =~= rules.rules@.take(jt.index@ as int)); assert(t.last() == *rule); }
  let ghost g1 = paths_q(generators); let ghost vx_n = jt.index@;
%loop_end 1
  proof { assert forall|k: Seq<char>| k != k0 implies #[trigger] mget(paths_q(generators), k) == mget(g0, k) by { assert(mget(g1, k) == mget(g0, k)); if rule_gen(*rule) is Some { assert(paths_q(generators) =~= g1.insert(k0, rule_gen(*rule)->0)); assert(mget(paths_q(generators), k) == mget(g1, k)); } else { assert(paths_q(generators) == g1); } } }
%loop 2 kt
  invariant kt.seq().len() == 1, gq(kt.seq()[0]) == rule_gen(*rule)->0, base_path.expr@ == k0, kt.index@ == 0 ==> paths_q(generators) == g1, kt.index@ == 1 ==> paths_q(generators) =~= g1.insert(k0, rule_gen(*rule)->0)
%fn MatchingRules::rules_for_category
%fngen <S: VxInto>
%sig
  ensures r is Some == self.rules@.dom().contains(category.cat()), r matches Some(x) ==> rlm(x.rules@) == cat(self.rules@, category.cat())
%src rust/pact_models/src/http_parts.rs
%fn trait HttpPart::build_generators
%selfty Part
%sub `category.clone().into()` => `category.clone().into_()`
%sub `hashmap!{}` => `HashMap::new()`
%sub `in generators_for_category` => `in it: generators_for_category.iter()`
%sub `for (path, generator) in rules.generators()` => `let vx_g = rules.generators(); for (path, generator) in jt: vx_g.iter()`
%loop 0 it
  invariant entries_of(it.seq(), generators_for_category@),
    forall|k: Seq<char>| #[trigger] mget(paths_q(generators), k) == (if seen(it.seq(), it.index@ as int, k) { mget(paths_q(*generators_for_category), k) } else { None })
%loop_start 0
  let ghost g0 = paths_q(generators); let ghost n = it.index@ as int; let ghost s = it.seq(); let ghost k0 = path.expr@;
%loop_end 0
  proof { lemma_seen(s, n, generators_for_category@); assert(paths_q(generators) =~= g0.insert(k0, gq(*generator)));
    assert forall|k: Seq<char>| #[trigger] mget(paths_q(generators), k) == (if seen(s, n + 1, k) { mget(paths_q(*generators_for_category), k) } else { None }) by {
      assert(mget(g0, k) == (if seen(s, n, k) { mget(paths_q(*generators_for_category), k) } else { None })); if k == k0 { assert(paths_q(*generators_for_category)[k] == gq(*generator)); } else { assert(mget(paths_q(generators), k) == mget(g0, k)); } } }
%after_loop 0
  proof { lemma_all_seen(generators_for_category@); }
%before `let mr_category`
  let ghost gp = paths_q(generators); let ghost gg = gens_at(pg(*self), *category);
  proof { assert forall|k: Seq<char>| #[trigger] mget(gp, k) == mget(gg, k) by {} }
%loop 1 jt
  invariant entries_of(jt.seq(), vx_g@),
    forall|k: Seq<char>| #[trigger] mget(paths_q(generators), k) == (if seen(jt.seq(), jt.index@ as int, k) { mget(paths_q(vx_g), k) } else { mget(gp, k) })
%loop_start 1
  let ghost g0 = paths_q(generators); let ghost n = jt.index@ as int; let ghost s = jt.seq(); let ghost k0 = path.expr@;
%loop_end 1
  proof { lemma_seen(s, n, vx_g@); assert(paths_q(generators) =~= g0.insert(k0, gq(*generator)));
    assert forall|k: Seq<char>| #[trigger] mget(paths_q(generators), k) == (if seen(s, n + 1, k) { mget(paths_q(vx_g), k) } else { mget(gp, k) }) by {
      assert(mget(g0, k) == (if seen(s, n, k) { mget(paths_q(vx_g), k) } else { mget(gp, k) })); if k == k0 { assert(paths_q(vx_g)[k] == gq(*generator)); } else { assert(mget(paths_q(generators), k) == mget(g0, k)); } } }
%after_loop 1
  proof { lemma_all_seen(vx_g@); assert forall|k: Seq<char>| #[trigger] mget(paths_q(generators), k) == built(gg, rlm(rules.rules@), k) by { assert(mget(paths_q(vx_g), k) == gen_at(rlm(rules.rules@), k)); assert(mget(gp, k) == mget(gg, k)); } }
%sig
  ensures forall|k: Seq<char>| #[trigger] mget(paths_q(r), k) == built(gens_at(pg(*self), *category), cat(pr(*self).rules@, cat_of(*category)), k)
