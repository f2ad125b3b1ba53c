%unit rules_merge
%include std.rs
%include rules_ops.vx
%src rust/pact_models/src/matchingrules/mod.rs
%prelude
verus! {
pub type CatMap = Map<Seq<char>, (Seq<Tok>, RL)>;
pub type Rules = Map<Category, (Category, MatchingRuleCategory)>;
/// the rules of the other are added after the ones there already are; nothing is lost
pub open spec fn merged_rl(a: RL, b: RL) -> RL { RL { rules: a.rules + b.rules, ..a } }
pub open spec fn merged(a: CatMap, b: CatMap) -> CatMap {
  Map::new(a.dom().union(b.dom()), |k: Seq<char>| if a.dom().contains(k) { if b.dom().contains(k) { (a[k].0, merged_rl(a[k].1, b[k].1)) } else { a[k] } } else { b[k] }) }
/// the rules filed under a category, none when there is no such category
pub open spec fn cat(m: Rules, c: Category) -> CatMap { if m.dom().contains(c) { rlm(m[c].1.rules@) } else { Map::empty() } }
pub open spec fn cat_eq(a: CatMap, b: CatMap) -> bool { a =~= b }
/// every category is filed under its own name
pub open spec fn names_ok(m: Rules) -> bool { forall|c: Category| #[trigger] m.dom().contains(c) ==> m[c].1.name == c }
/// merging with nothing changes nothing, either way around
pub proof fn theorem_merge_unit(a: CatMap) ensures merged(a, Map::empty()) =~= a, merged(Map::empty(), a) =~= a {}
/// merging is associative
pub proof fn theorem_merge_assoc(a: CatMap, b: CatMap, c: CatMap) ensures merged(merged(a, b), c) =~= merged(a, merged(b, c)) {
  assert forall|k: Seq<char>| #[trigger] merged(merged(a, b), c).dom().contains(k) implies merged(merged(a, b), c)[k] == merged(a, merged(b, c))[k] by {
    if a.dom().contains(k) && b.dom().contains(k) && c.dom().contains(k) { assert(a[k].1.rules + b[k].1.rules + c[k].1.rules =~= a[k].1.rules + (b[k].1.rules + c[k].1.rules)); } } }
/// no rule is lost: every rule of either side is in the list at its path
pub proof fn theorem_merge_keeps(a: CatMap, b: CatMap, k: Seq<char>, i: int)
  ensures a.dom().contains(k) && 0 <= i < a[k].1.rules.len() ==> merged(a, b).dom().contains(k) && merged(a, b)[k].1.rules.contains(a[k].1.rules[i]),
    b.dom().contains(k) && 0 <= i < b[k].1.rules.len() ==> merged(a, b).dom().contains(k) && merged(a, b)[k].1.rules.contains(b[k].1.rules[i]) {
  if a.dom().contains(k) && 0 <= i < a[k].1.rules.len() { assert(merged(a, b)[k].1.rules[i] == a[k].1.rules[i]); }
  if b.dom().contains(k) && 0 <= i < b[k].1.rules.len() { let n = if a.dom().contains(k) { a[k].1.rules.len() as int } else { 0 }; assert(merged(a, b)[k].1.rules[n + i] == b[k].1.rules[i]); } }
/// stands for Into<Category>; the conversions from text are From<&str> for Category below
pub trait VxInto: Sized { spec fn cat(&self) -> Category; fn into(self) -> (r: Category) ensures r == self.cat(); }
impl VxInto for Category { open spec fn cat(&self) -> Category { *self } fn into(self) -> (r: Category) { self } }
pub fn vx_clone<T: Clone>(x: &T) -> (r: T) ensures call_ensures(T::clone, (x,), r) { x.clone() }
}
%struct MatchingRules
%prelude
verus! {
impl Clone for MatchingRules { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.rules@.dom() == self.rules@.dom(), forall|c: Category| cat(r.rules@, c) == cat(self.rules@, c), names_ok(self.rules@) ==> names_ok(r.rules@) { unimplemented!() } }
/// empty categories are no rules
pub open spec fn no_rules(m: Rules) -> bool { forall|c: Category| #[trigger] m.dom().contains(c) ==> m[c].1.rules@.dom() =~= Set::empty() }
}
%fn MatchingRuleCategory::add_rule
%sub `self.rules.entry(key).or_insert_with(|| RuleList::empty(rule_logic))` => `vx_entry(&mut self.rules, key, RuleList::empty(rule_logic))`
%sig
  ensures final(self).name == old(self).name,
    rlm(final(self).rules@) =~= rlm(old(self).rules@).insert(key.expr@, if old(self).rules@.dom().contains(key.expr@) { let o = rlm(old(self).rules@)[key.expr@]; (o.0, RL { rules: o.1.rules.push(matcher), ..o.1 }) }
      else { (tvs(key.path_tokens@), RL { rules: seq![matcher], logic: rule_logic, cascaded: false }) })
%body_end
  proof { assert(seq![].push(matcher) =~= seq![matcher]); assert(rlm(self.rules@).dom() =~= rlm(old(self).rules@).dom().insert(key.expr@)); }
%fn MatchingRuleCategory::empty
%fngen <S: VxInto>
%sub `hashmap! {}` => `HashMap::new()`
%sig
  ensures r.name == name.cat(), r.rules@ == Map::<Seq<char>, (DocPath, RuleList)>::empty()
%fn MatchingRuleCategory::rename
%fngen <S: VxInto>
%sig
  ensures r.name == name.cat(), rlm(r.rules@) == rlm(self.rules@)
%fn MatchingRuleCategory::add_rules
%sub `&category.rules` => `category.rules.iter()`
%sig
  ensures final(self).name == old(self).name, rlm(final(self).rules@) =~= merged(rlm(old(self).rules@), rlm(category.rules@))
%loop 0 it
  invariant
    entries_of(it.seq(), category.rules@), self.name == old(self).name,
    forall|k: Seq<char>| #[trigger] rlm(self.rules@).dom().contains(k) <==> old(self).rules@.dom().contains(k) || exists|i: int| 0 <= i < it.index@ && (#[trigger] it.seq()[i]).0.kv() == k,
    forall|k: Seq<char>| #[trigger] rlm(self.rules@).dom().contains(k) ==> rlm(self.rules@)[k] == (
      if exists|i: int| 0 <= i < it.index@ && (#[trigger] it.seq()[i]).0.kv() == k { merged(rlm(old(self).rules@), rlm(category.rules@))[k] } else { rlm(old(self).rules@)[k] })
%loop_start 0
  let ghost m0 = self.rules@; let ghost n = it.index@; let ghost s = it.seq();
%loop_end 0
  proof { let k0 = path.expr@; assert(s[n].0.kv() == k0); assert(category.rules@.dom().contains(k0)); assert(rlm(category.rules@).dom() =~= category.rules@.dom()); assert(rlm(old(self).rules@).dom() =~= old(self).rules@.dom());
    assert(rlm(m0).dom() =~= m0.dom()); assert(rlm(self.rules@).dom() =~= self.rules@.dom());
    assert forall|i: int| 0 <= i < n implies (#[trigger] s[i]).0.kv() != k0 by {}
    assert(m0.dom().contains(k0) == old(self).rules@.dom().contains(k0));
    assert forall|k: Seq<char>| #[trigger] rlm(self.rules@).dom().contains(k) implies rlm(self.rules@)[k] == (if exists|i: int| 0 <= i < n + 1 && (#[trigger] s[i]).0.kv() == k { merged(rlm(old(self).rules@), rlm(category.rules@))[k] } else { rlm(old(self).rules@)[k] }) by {
      if k != k0 { assert(rlm(m0).dom().contains(k)); } else { assert(rlm(category.rules@)[k0] == (tvs(s[n].0.path_tokens@), rl(*s[n].1))); if m0.dom().contains(k0) { assert(rlm(m0)[k0] == rlm(old(self).rules@)[k0]); } } } }
%after_loop 0
  proof { assert(rlm(category.rules@).dom() =~= category.rules@.dom()); assert(rlm(old(self).rules@).dom() =~= old(self).rules@.dom()); }
%fn MatchingRules::is_empty
%base 0
%before_loop 0
  let ghost e0 = vx_s0@; let ghost e = choose|e: Seq<(&Category, &MatchingRuleCategory)>| #[trigger] entries_of(e, self.rules@) && e.len() == e0.len() && forall|i: int| 0 <= i < e0.len() ==> *(#[trigger] e0[i]) == *e[i].1;
%loop 0 it
  invariant_except_break vx_b0 == true, forall|i: int| 0 <= i < it.index@ ==> (#[trigger] e0[i]).rules@.dom() =~= Set::empty()
  invariant it.seq() == e0, entries_of(e, self.rules@), e.len() == e0.len(), forall|i: int| 0 <= i < e0.len() ==> *(#[trigger] e0[i]) == *e[i].1
  ensures vx_b0 == ((forall|i: int| 0 <= i < e0.len() ==> (#[trigger] e0[i]).rules@.dom() =~= Set::empty()))
%after_loop 0
  proof {
    assert forall|c: Category| #[trigger] self.rules@.dom().contains(c) implies exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.kv() == c && self.rules@[c].1 == *e0[i] by { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.kv() == c; assert(*e0[i] == *e[i].1); }
    assert forall|i: int| 0 <= i < e0.len() implies self.rules@.dom().contains(e[i].0.kv()) && self.rules@[e[i].0.kv()].1 == *(#[trigger] e0[i]) by {} }
%sig
  ensures r == no_rules(self.rules@)
%fn MatchingRules::is_not_empty
%base 0
%before_loop 0
  let ghost e0 = vx_s0@; let ghost e = choose|e: Seq<(&Category, &MatchingRuleCategory)>| #[trigger] entries_of(e, self.rules@) && e.len() == e0.len() && forall|i: int| 0 <= i < e0.len() ==> *(#[trigger] e0[i]) == *e[i].1;
%loop 0 it
  invariant_except_break vx_b0 == false, forall|i: int| 0 <= i < it.index@ ==> (#[trigger] e0[i]).rules@.dom() =~= Set::empty()
  invariant it.seq() == e0, entries_of(e, self.rules@), e.len() == e0.len(), forall|i: int| 0 <= i < e0.len() ==> *(#[trigger] e0[i]) == *e[i].1
  ensures vx_b0 == (!(forall|i: int| 0 <= i < e0.len() ==> (#[trigger] e0[i]).rules@.dom() =~= Set::empty()))
%after_loop 0
  proof {
    assert forall|c: Category| #[trigger] self.rules@.dom().contains(c) implies exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.kv() == c && self.rules@[c].1 == *e0[i] by { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.kv() == c; assert(*e0[i] == *e[i].1); }
    assert forall|i: int| 0 <= i < e0.len() implies self.rules@.dom().contains(e[i].0.kv()) && self.rules@[e[i].0.kv()].1 == *(#[trigger] e0[i]) by {} }
%sig
  ensures r == !no_rules(self.rules@)
%fn Default for MatchingRules::default
%rename default_
%sub `hashmap!{}` => `HashMap::new()`
%sig
  ensures r.rules@ == Map::<Category, (Category, MatchingRuleCategory)>::empty()
%fn MatchingRules::add_category
%fngen <S: VxInto>
%sig
  requires names_ok(old(self).rules@)
  ensures r.name == category.cat(), rlm(r.rules@) == cat(old(self).rules@, category.cat()),
    final(self).rules@.dom() =~= old(self).rules@.dom().insert(category.cat()), rlm(final(r).rules@) == cat(final(self).rules@, category.cat()),
    forall|c: Category| c != category.cat() ==> #[trigger] cat(final(self).rules@, c) == cat(old(self).rules@, c),
    final(r).name == category.cat() ==> names_ok(final(self).rules@)
%fn MatchingRules::rules_for_category
%fngen <S: VxInto>
%sig
  ensures r is Some == self.rules@.dom().contains(category.cat()), r matches Some(x) ==> x.name == self.rules@[category.cat()].1.name && rlm(x.rules@) == cat(self.rules@, category.cat())
%fn MatchingRules::resolve_matchers
%fngen <S: VxInto>
%closure 0 |rules: MatchingRuleCategory| -> (x: MatchingRuleCategory) ensures x.name == rules.name, rlm(x.rules@) =~= (if collection(rules.name) { matching(rlm(rules.rules@), strs(path@)) } else { rlm(rules.rules@) })
%sig
  requires names_ok(self.rules@)
  ensures r is Some == self.rules@.dom().contains(category.cat()), r matches Some(x) ==> x.name == category.cat()
    && rlm(x.rules@) =~= (if collection(category.cat()) { matching(cat(self.rules@, category.cat()), strs(path@)) } else { cat(self.rules@, category.cat()) })
%fn MatchingRules::matcher_is_defined
%fngen <S: VxInto + Clone>
%sig
  requires names_ok(self.rules@), forall|x: S| #[trigger] call_ensures(S::clone, (&category,), x) ==> x.cat() == category.cat()
  ensures r == !(if collection(category.cat()) { matching(cat(self.rules@, category.cat()), strs(path@)) } else { cat(self.rules@, category.cat()) }.dom() =~= Set::empty())
%fn MatchingRules::add_rules
%fngen <S: VxInto>
%sub `self.rules.entry(category.clone()).or_insert_with(|| MatchingRuleCategory::empty(category.clone()))` => `vx_entry(&mut self.rules, category.clone(), MatchingRuleCategory::empty(category.clone()))`
%sig
  requires names_ok(old(self).rules@)
  ensures names_ok(final(self).rules@), final(self).rules@.dom() =~= old(self).rules@.dom().insert(category.cat()),
    cat(final(self).rules@, category.cat()) =~= merged(cat(old(self).rules@, category.cat()), rlm(rules.rules@)),
    forall|c: Category| c != category.cat() ==> #[trigger] cat(final(self).rules@, c) == cat(old(self).rules@, c)
%fn MatchingRules::merge
%sub `&other.rules` => `other.rules.iter()`
%sig
  requires names_ok(old(self).rules@), names_ok(other.rules@)
  ensures names_ok(final(self).rules@), final(self).rules@.dom() =~= old(self).rules@.dom().union(other.rules@.dom()),
    forall|c: Category| cat_eq(#[trigger] cat(final(self).rules@, c), merged(cat(old(self).rules@, c), cat(other.rules@, c)))
%loop 0 it
  invariant entries_of(it.seq(), other.rules@), names_ok(self.rules@), 
    forall|k: Category| #[trigger] self.rules@.dom().contains(k) <==> old(self).rules@.dom().contains(k) || exists|i: int| 0 <= i < it.index@ && (#[trigger] it.seq()[i]).0.kv() == k,
    forall|k: Category| cat_eq(#[trigger] cat(self.rules@, k), 
      if exists|i: int| 0 <= i < it.index@ && (#[trigger] it.seq()[i]).0.kv() == k { merged(cat(old(self).rules@, k), cat(other.rules@, k)) } else { cat(old(self).rules@, k) })
%loop_start 0
  let ghost m0 = self.rules@; let ghost n = it.index@; let ghost s = it.seq();
%loop_end 0
  proof { let k0 = *category; assert(s[n].0.kv() == k0); assert(cat(other.rules@, k0) == rlm(rules.rules@));
    assert forall|i: int| 0 <= i < n implies (#[trigger] s[i]).0.kv() != k0 by {}
    assert(cat_eq(cat(m0, k0), cat(old(self).rules@, k0)));
    assert forall|k: Category| cat_eq(#[trigger] cat(self.rules@, k), if exists|i: int| 0 <= i < n + 1 && (#[trigger] s[i]).0.kv() == k { merged(cat(old(self).rules@, k), cat(other.rules@, k)) } else { cat(old(self).rules@, k) }) by {
      if k != k0 { assert(cat_eq(cat(m0, k), if exists|i: int| 0 <= i < n && (#[trigger] s[i]).0.kv() == k { merged(cat(old(self).rules@, k), cat(other.rules@, k)) } else { cat(old(self).rules@, k) })); } } }
%after_loop 0
  proof { assert forall|c: Category| cat_eq(#[trigger] cat(self.rules@, c), merged(cat(old(self).rules@, c), cat(other.rules@, c))) by { theorem_merge_unit(cat(old(self).rules@, c)); if !other.rules@.dom().contains(c) { assert(cat(other.rules@, c) == Map::<Seq<char>, (Seq<Tok>, RL)>::empty()); } } }
%prelude
verus! {
pub open spec fn list_has(m: CatMap, f: spec_fn(MatchingRule) -> bool) -> bool { exists|k: Seq<char>| #[trigger] m.dom().contains(k) && some_rule(m[k].1.rules, f) }
pub proof fn lemma_values<K: VxKey, V>(e0: Seq<&V>, m: Map<K::KV, (K, V)>) -> (e: Seq<(&K, &V)>) requires values_of(e0, m)
  ensures entries_of(e, m), e.len() == e0.len(), forall|i: int| 0 <= i < e0.len() ==> *(#[trigger] e0[i]) == *e[i].1 && m.dom().contains(e[i].0.kv()) && m[e[i].0.kv()].1 == *e0[i],
    forall|k: K::KV| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < e0.len() && (#[trigger] e[i]).0.kv() == k && *e0[i] == m[k].1
{ let e = choose|e: Seq<(&K, &V)>| #[trigger] entries_of(e, m) && e.len() == e0.len() && forall|i: int| 0 <= i < e0.len() ==> *(#[trigger] e0[i]) == *e[i].1;
  assert forall|i: int| 0 <= i < e0.len() implies *(#[trigger] e0[i]) == *e[i].1 && m.dom().contains(e[i].0.kv()) && m[e[i].0.kv()].1 == *e0[i] by { }
  assert forall|k: K::KV| #[trigger] m.dom().contains(k) implies exists|i: int| 0 <= i < e0.len() && (#[trigger] e[i]).0.kv() == k && *e0[i] == m[k].1 by { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.kv() == k; assert(*e0[i] == m[k].1); }
  e }
}
%fn MatchingRuleCategory::type_matcher_defined
%base 0
%before_loop 0
  let ghost e0 = vx_s0@; let ghost e = lemma_values(e0, self.rules@);
%loop 0 it
  invariant_except_break vx_b0 == false, forall|i: int| 0 <= i < it.index@ ==> !some_rule((#[trigger] e0[i]).rules@, |x: MatchingRule| type_like(x))
  invariant it.seq() == e0
  ensures vx_b0 == (exists|i: int| 0 <= i < e0.len() && some_rule((#[trigger] e0[i]).rules@, |x: MatchingRule| type_like(x)))
%after_loop 0
  proof { assert(rlm(self.rules@).dom() =~= self.rules@.dom()); if vx_b0 { let i = choose|i: int| 0 <= i < e0.len() && some_rule((#[trigger] e0[i]).rules@, |x: MatchingRule| type_like(x)); lemma_rlm(self.rules@, e[i].0.kv()); assert(rlm(self.rules@).dom().contains(e[i].0.kv())); } else { assert forall|k: Seq<char>| #[trigger] rlm(self.rules@).dom().contains(k) implies !some_rule(rlm(self.rules@)[k].1.rules, |x: MatchingRule| type_like(x)) by { lemma_rlm(self.rules@, k); } } }
%sig
  ensures r == list_has(rlm(self.rules@), |x: MatchingRule| type_like(x))
%fn MatchingRuleCategory::values_matcher_defined
%base 0
%before_loop 0
  let ghost e0 = vx_s0@; let ghost e = lemma_values(e0, self.rules@);
%loop 0 it
  invariant_except_break vx_b0 == false, forall|i: int| 0 <= i < it.index@ ==> !some_rule((#[trigger] e0[i]).rules@, |x: MatchingRule| values_like(x))
  invariant it.seq() == e0
  ensures vx_b0 == (exists|i: int| 0 <= i < e0.len() && some_rule((#[trigger] e0[i]).rules@, |x: MatchingRule| values_like(x)))
%after_loop 0
  proof { assert(rlm(self.rules@).dom() =~= self.rules@.dom()); if vx_b0 { let i = choose|i: int| 0 <= i < e0.len() && some_rule((#[trigger] e0[i]).rules@, |x: MatchingRule| values_like(x)); lemma_rlm(self.rules@, e[i].0.kv()); assert(rlm(self.rules@).dom().contains(e[i].0.kv())); } else { assert forall|k: Seq<char>| #[trigger] rlm(self.rules@).dom().contains(k) implies !some_rule(rlm(self.rules@)[k].1.rules, |x: MatchingRule| values_like(x)) by { lemma_rlm(self.rules@, k); } } }
%sig
  ensures r == list_has(rlm(self.rules@), |x: MatchingRule| values_like(x))
%fn MatchingRules::resolve_body_matchers_by_path
%sub `self.rules_for_category("body")` => `self.rules_for_category(Category::BODY)`
%sig
  ensures rl(r) == (if self.rules@.dom().contains(Category::BODY) { best(cat(self.rules@, Category::BODY), strs(path@)) } else { empty_rl() })
%fn MatchingRules::type_matcher_defined
%fngen <S: VxInto + Clone>
%sig
  requires names_ok(self.rules@), forall|x: S| #[trigger] call_ensures(S::clone, (&category,), x) ==> x.cat() == category.cat()
  ensures r == list_has(if collection(category.cat()) { matching(cat(self.rules@, category.cat()), strs(path@)) } else { cat(self.rules@, category.cat()) }, |x: MatchingRule| type_like(x))
%fn MatchingRules::rename
%fngen <S: VxInto>
%sig
  requires names_ok(self.rules@)
  ensures names_ok(r.rules@),
    forall|c: Category| cat_eq(#[trigger] cat(r.rules@, c), if old_name.cat() == new_name.cat() { cat(self.rules@, c) } else if c == new_name.cat() { merged(cat(self.rules@, c), cat(self.rules@, old_name.cat())) } else if c == old_name.cat() { Map::empty() } else { cat(self.rules@, c) })
%body_start
  proof { theorem_merge_unit(cat(self.rules@, old_name.cat())); theorem_merge_unit(cat(self.rules@, new_name.cat())); }
