%unit eq_sets
%include eq_base.vx
%include hash_part.rs
%src rust/pact_models/src/matchingrules/mod.rs
%prelude
verus! {
vx_part!(MatchingRule, RuleQ, part_rule); vx_part!(Generator, GenQ, part_gen);
}
%enum RuleLogic
%struct RuleList
%enum Category
%struct MatchingRuleCategory
%struct MatchingRules
%src rust/pact_models/src/generators/mod.rs
%enum GeneratorCategory
%struct Generators
%src rust/pact_models/src/matchingrules/mod.rs
%prelude
verus! {
vx_plain!(RuleLogic); vx_plain!(Category); vx_plain!(GeneratorCategory);
/// derived Ord: a total order
macro_rules! vx_ord { ($t:ident, $le:ident, $ax:ident) => { verus! { pub uninterp spec fn $le(a: $t, b: $t) -> bool;
  pub axiom fn $ax(a: $t, b: $t, c: $t) ensures $le(a, b) || $le(b, a), $le(a, b) && $le(b, a) ==> a == b, $le(a, b) && $le(b, c) ==> $le(a, c);
  impl VxKey for $t { type KV = $t; open spec fn kv(&self) -> $t { *self } }
  impl VxKeyOrd for $t { open spec fn kle(a: $t, b: $t) -> bool { $le(a, b) } proof fn kle_order(a: $t, b: $t, c: $t) { $ax(a, b, c); } } } } }
vx_ord!(Category, cat_le, axiom_cat_order); vx_ord!(GeneratorCategory, gcat_le, axiom_gcat_order);
pub ghost struct RLQ { pub logic: RuleLogic, pub rules: Seq<RuleQ> }
pub ghost struct CQ { pub name: Category, pub rules: Map<Seq<char>, RLQ> }
pub open spec fn rules_feed(s: Seq<RuleQ>, n: nat) -> Seq<Tk> decreases n { if n == 0 || n > s.len() { seq![] } else { rules_feed(s, (n - 1) as nat) + feed_of(s[n - 1]) } }
pub open spec fn rl_feed(q: RLQ) -> Seq<Tk> { feed_of(q.logic) + rules_feed(q.rules, q.rules.len()) }
pub open spec fn rlm_feed(m: Map<Seq<char>, RLQ>, ks: Seq<Seq<char>>, n: nat) -> Seq<Tk> decreases n { if n == 0 || n > ks.len() { seq![] } else { rlm_feed(m, ks, (n - 1) as nat) + feed_of(ks[n - 1]) + rl_feed(m[ks[n - 1]]) } }
pub open spec fn cat_feed(q: CQ) -> Seq<Tk> { let ks = skeys::<DocPath>(q.rules.dom()); feed_of(q.name) + rlm_feed(q.rules, ks, ks.len()) }
pub open spec fn set_feed(m: Map<Category, CQ>, ks: Seq<Category>, n: nat) -> Seq<Tk> decreases n { if n == 0 || n > ks.len() { seq![] } else { set_feed(m, ks, (n - 1) as nat) + feed_of(ks[n - 1]) + cat_feed(m[ks[n - 1]]) } }
pub open spec fn genm_feed(m: Map<Seq<char>, GenQ>, ks: Seq<Seq<char>>, n: nat) -> Seq<Tk> decreases n { if n == 0 || n > ks.len() { seq![] } else { genm_feed(m, ks, (n - 1) as nat) + feed_of(ks[n - 1]) + feed_of(m[ks[n - 1]]) } }
pub type GMQ = Map<Seq<char>, GenQ>;
pub open spec fn gens_feed(m: Map<GeneratorCategory, GMQ>, ks: Seq<GeneratorCategory>, n: nat) -> Seq<Tk> decreases n { if n == 0 || n > ks.len() { seq![] } else { let g = m[ks[n - 1]]; let k2 = skeys::<DocPath>(g.dom()); gens_feed(m, ks, (n - 1) as nat) + (feed_of(ks[n - 1]) + genm_feed(g, k2, k2.len())) } }
pub open spec fn cat_live() -> spec_fn(MatchingRuleCategory) -> bool { |c: MatchingRuleCategory| !(c.rules@.dom() =~= Set::empty()) }
pub open spec fn gen_live() -> spec_fn(HashMap<DocPath, Generator>) -> bool { |c: HashMap<DocPath, Generator>| !(c@.dom() =~= Set::empty()) }
impl VxEq for RuleList { type Q = RLQ; open spec fn q(&self) -> RLQ { RLQ { logic: self.rule_logic, rules: q_seq(self.rules@) } } fn vx_eqf(&self, o: &Self) -> (r: bool) { self.eq_(o) } }
impl Hash for RuleList { open spec fn feed(q: RLQ) -> Seq<Tk> { rl_feed(q) } fn hash<H: Hasher>(&self, state: &mut H) { self.hash_(state) } }
impl VxEq for MatchingRuleCategory { type Q = CQ; open spec fn q(&self) -> CQ { CQ { name: self.name, rules: q_map(self.rules@) } } fn vx_eqf(&self, o: &Self) -> (r: bool) { self.eq_(o) } }
impl Hash for MatchingRuleCategory { open spec fn feed(q: CQ) -> Seq<Tk> { cat_feed(q) } fn hash<H: Hasher>(&self, state: &mut H) { self.hash_(state) } }
impl VxEq for MatchingRules { type Q = Map<Category, CQ>; open spec fn q(&self) -> Map<Category, CQ> { q_map(live(self.rules@, cat_live())) } fn vx_eqf(&self, o: &Self) -> (r: bool) { self.eq_(o) } }
impl Hash for MatchingRules { open spec fn feed(q: Map<Category, CQ>) -> Seq<Tk> { let ks = skeys::<Category>(q.dom()); set_feed(q, ks, ks.len()) } fn hash<H: Hasher>(&self, state: &mut H) { self.hash_(state) } }
impl VxEq for Generators { type Q = Map<GeneratorCategory, GMQ>; open spec fn q(&self) -> Map<GeneratorCategory, GMQ> { q_map(live(self.categories@, gen_live())) } fn vx_eqf(&self, o: &Self) -> (r: bool) { self.eq_(o) } }
impl Hash for Generators { open spec fn feed(q: Map<GeneratorCategory, GMQ>) -> Seq<Tk> { let ks = skeys::<GeneratorCategory>(q.dom()); gens_feed(q, ks, ks.len()) } fn hash<H: Hasher>(&self, state: &mut H) { self.hash_(state) } }
}
%fn PartialEq for RuleList::eq
%rename eq_
%eq
%sig
  ensures r == (self.q() == other.q())
%fn Hash for RuleList::hash
%rename hash_
%sig
  ensures final(state).fed() == old(state).fed() + RuleList::feed(self.q())
%body_start
  let ghost st0 = state.fed();
%loop 0 it
  invariant st0 == old(state).fed(), it.seq().len() == self.rules@.len(), forall|i: int| 0 <= i < self.rules@.len() ==> *(#[trigger] it.seq()[i]) == self.rules@[i],
    state.fed() == st0 + (feed_of(self.rule_logic) + rules_feed(q_seq(self.rules@), it.index@ as nat))
%loop_end 0
  proof { let i = it.index@ as int; assert(q_seq(self.rules@)[i] == rule.q()); assert(state.fed() =~= st0 + (feed_of(self.rule_logic) + rules_feed(q_seq(self.rules@), (i + 1) as nat))); }
%before `for rule in`
  proof { assert(state.fed() + seq![] =~= state.fed()); assert(state.fed() =~= st0 + (feed_of(self.rule_logic) + rules_feed(q_seq(self.rules@), 0))); }
%fn PartialEq for MatchingRuleCategory::eq
%rename eq_
%eq
%sig
  ensures r == (self.q() == other.q())
%fn PartialEq for MatchingRuleCategory::ne
%rename ne_
%eq
%sig
  ensures r == !(self.q() == other.q())
%fn MatchingRuleCategory::is_not_empty
%sig
  ensures r == cat_live()(*self)
%fn Hash for MatchingRuleCategory::hash
%rename hash_
%chain
%sig
  ensures final(state).fed() == old(state).fed() + MatchingRuleCategory::feed(self.q())
%body_start
  let ghost st0 = state.fed(); let ghost qm = q_map(self.rules@); let ghost ks = skeys::<DocPath>(qm.dom());
%base 0
%after_base 0
  proof { self.rules.axiom_wf(); assert(qm.dom() =~= self.rules@.dom()); assert(entries_of(vx_s0@, self.rules@)); assert(kvs(vx_s0@) == ks); assert(state.fed() + seq![] =~= state.fed()); assert(state.fed() =~= st0 + (feed_of(self.name) + rlm_feed(qm, ks, 0))); }
%loop 0 it
  invariant st0 == old(state).fed(), it.seq() == vx_s0@, entries_of(vx_s0@, self.rules@), kvs(vx_s0@) == ks, qm == q_map(self.rules@),
    state.fed() == st0 + (feed_of(self.name) + rlm_feed(qm, ks, it.index@ as nat))
%loop_start 0
  proof { let i = it.index@ as int; assert(vx_s0@[i].0.kv() == kvs(vx_s0@)[i]); assert(self.rules@[ks[i]].1 == *v); assert(qm[ks[i]] == v.q()); }
%loop_end 0
  proof { let i = it.index@ as int; assert(state.fed() =~= st0 + (feed_of(self.name) + rlm_feed(qm, ks, (i + 1) as nat))); }
%fn PartialEq for MatchingRules::eq
%rename eq_
%eq
%chain
%sig
  ensures r == (self.q() == other.q())
%bty 0 Vec<(&Category, &MatchingRuleCategory)>
%bty 1 Vec<(&Category, &MatchingRuleCategory)>
%base 0
%loop 0 it
  invariant it.seq() == vx_s0@, entries_of(vx_s0@, self.rules@), part(vx_b0@, vx_s0@, it.index@ as int, cat_live())
%loop_start 0
  let ghost b0 = vx_b0@;
%loop_end 0
  proof { lemma_part_step(b0, vx_b0@, vx_s0@, it.index@ as int, cat_live(), self.rules@); }
%after_loop 0
  proof { lemma_part_end(vx_b0@, vx_s0@, cat_live(), self.rules@); }
%base 1
%loop 1 it
  invariant it.seq() == vx_s1@, entries_of(vx_s1@, other.rules@), part(vx_b1@, vx_s1@, it.index@ as int, cat_live())
%loop_start 1
  let ghost b0 = vx_b1@;
%loop_end 1
  proof { lemma_part_step(b0, vx_b1@, vx_s1@, it.index@ as int, cat_live(), other.rules@); }
%after_loop 1
  proof { lemma_part_end(vx_b1@, vx_s1@, cat_live(), other.rules@); }
%tail
  proof { let (a, b) = (self_rules@, other_rules@); let (m, n) = (live(self.rules@, cat_live()), live(other.rules@, cat_live())); assert(entries_of(a, m) && entries_of(b, n)); lemma_same_pairs(a, b, m, n);
    let same = a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0.kv() == b[i].0.kv() && a[i].1.q() == b[i].1.q();
    if q_seq(a) == q_seq(b) { assert(a.len() == q_seq(a).len() && b.len() == q_seq(b).len()); assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).0.kv() == b[i].0.kv() && a[i].1.q() == b[i].1.q() by { assert(q_seq(a)[i] == q_seq(b)[i]); } }
    if same { assert forall|i: int| 0 <= i < a.len() implies #[trigger] q_seq(a)[i] == q_seq(b)[i] by { assert(a[i].0.kv() == b[i].0.kv()); } assert(q_seq(a) =~= q_seq(b)); } }
%fn Hash for MatchingRules::hash
%rename hash_
%chain
%sig
  ensures final(state).fed() == old(state).fed() + MatchingRules::feed(self.q())
%body_start
  let ghost st0 = state.fed(); let ghost lm = live(self.rules@, cat_live()); let ghost qm = q_map(lm); let ghost ks = skeys::<Category>(qm.dom());
%bty 1 Vec<(&Category, &MatchingRuleCategory)>
%base 0
%base 1
%loop 1 jt
  invariant jt.seq() == vx_s1@, entries_of(vx_s1@, self.rules@), part(vx_b1@, vx_s1@, jt.index@ as int, cat_live())
%loop_start 1
  let ghost b0 = vx_b1@;
%loop_end 1
  proof { lemma_part_step(b0, vx_b1@, vx_s1@, jt.index@ as int, cat_live(), self.rules@); }
%after_loop 1
  proof { lemma_part_end(vx_b1@, vx_s1@, cat_live(), self.rules@); }
%after_base 0
  proof { assert(qm.dom() =~= lm.dom()); assert(entries_of(vx_s0@, lm)); assert(kvs(vx_s0@) == ks); assert(state.fed() =~= st0 + set_feed(qm, ks, 0)); }
%loop 0 it
  invariant st0 == old(state).fed(), it.seq() == vx_s0@, entries_of(vx_s0@, lm), kvs(vx_s0@) == ks, qm == q_map(lm), state.fed() == st0 + set_feed(qm, ks, it.index@ as nat)
%loop_start 0
  proof { let i = it.index@ as int; assert(vx_s0@[i].0.kv() == kvs(vx_s0@)[i]); assert(lm[ks[i]].1 == *v); assert(qm[ks[i]] == v.q()); }
%loop_end 0
  proof { let i = it.index@ as int; assert(state.fed() =~= st0 + set_feed(qm, ks, (i + 1) as nat)); }
%src rust/pact_models/src/generators/mod.rs
%fn PartialEq for Generators::eq
%rename eq_
%eq
%chain
%sig
  ensures r == (self.q() == other.q())
%bty 0 Vec<(&GeneratorCategory, &HashMap<DocPath, Generator>)>
%bty 1 Vec<(&GeneratorCategory, &HashMap<DocPath, Generator>)>
%base 0
%loop 0 it
  invariant it.seq() == vx_s0@, entries_of(vx_s0@, self.categories@), part(vx_b0@, vx_s0@, it.index@ as int, gen_live())
%loop_start 0
  let ghost b0 = vx_b0@;
%loop_end 0
  proof { lemma_part_step(b0, vx_b0@, vx_s0@, it.index@ as int, gen_live(), self.categories@); }
%after_loop 0
  proof { lemma_part_end(vx_b0@, vx_s0@, gen_live(), self.categories@); }
%base 1
%loop 1 it
  invariant it.seq() == vx_s1@, entries_of(vx_s1@, other.categories@), part(vx_b1@, vx_s1@, it.index@ as int, gen_live())
%loop_start 1
  let ghost b0 = vx_b1@;
%loop_end 1
  proof { lemma_part_step(b0, vx_b1@, vx_s1@, it.index@ as int, gen_live(), other.categories@); }
%after_loop 1
  proof { lemma_part_end(vx_b1@, vx_s1@, gen_live(), other.categories@); }
%tail
  proof { let (a, b) = (self_gen@, other_gen@); let (m, n) = (live(self.categories@, gen_live()), live(other.categories@, gen_live())); assert(entries_of(a, m) && entries_of(b, n)); lemma_same_pairs(a, b, m, n);
    let same = a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0.kv() == b[i].0.kv() && a[i].1.q() == b[i].1.q();
    if q_seq(a) == q_seq(b) { assert(a.len() == q_seq(a).len() && b.len() == q_seq(b).len()); assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).0.kv() == b[i].0.kv() && a[i].1.q() == b[i].1.q() by { assert(q_seq(a)[i] == q_seq(b)[i]); } }
    if same { assert forall|i: int| 0 <= i < a.len() implies #[trigger] q_seq(a)[i] == q_seq(b)[i] by { assert(a[i].0.kv() == b[i].0.kv()); } assert(q_seq(a) =~= q_seq(b)); } }
%fn Hash for Generators::hash
%rename hash_
%chain
%sig
  ensures final(state).fed() == old(state).fed() + Generators::feed(self.q())
%body_start
  let ghost st0 = state.fed(); let ghost lm = live(self.categories@, gen_live()); let ghost qm = q_map(lm); let ghost ks = skeys::<GeneratorCategory>(qm.dom());
%bty 1 Vec<(&GeneratorCategory, &HashMap<DocPath, Generator>)>
%base 0
%base 1
%loop 1 jt
  invariant jt.seq() == vx_s1@, entries_of(vx_s1@, self.categories@), part(vx_b1@, vx_s1@, jt.index@ as int, gen_live())
%loop_start 1
  let ghost b0 = vx_b1@;
%loop_end 1
  proof { lemma_part_step(b0, vx_b1@, vx_s1@, jt.index@ as int, gen_live(), self.categories@); }
%after_loop 1
  proof { lemma_part_end(vx_b1@, vx_s1@, gen_live(), self.categories@); }
%after_base 0
  proof { assert(qm.dom() =~= lm.dom()); assert(entries_of(vx_s0@, lm)); assert(kvs(vx_s0@) == ks); assert(state.fed() =~= st0 + gens_feed(qm, ks, 0)); }
%loop 0 it
  invariant st0 == old(state).fed(), it.seq() == vx_s0@, entries_of(vx_s0@, lm), kvs(vx_s0@) == ks, qm == q_map(lm), state.fed() == st0 + gens_feed(qm, ks, it.index@ as nat)
%loop_start 0
  let ghost st1 = state.fed(); let ghost g = q_map(v@); let ghost k2s = skeys::<DocPath>(g.dom());
  proof { let i = it.index@ as int; assert(vx_s0@[i].0.kv() == kvs(vx_s0@)[i]); assert(lm[ks[i]].1 == *v); assert(qm[ks[i]] == g); }
%base 2
%after_base 2
  proof { assert(g.dom() =~= v@.dom()); assert(entries_of(vx_s2@, v@)); assert(kvs(vx_s2@) == k2s); assert(state.fed() + seq![] =~= state.fed()); assert(state.fed() =~= st1 + (feed_of(*k) + genm_feed(g, k2s, 0))); }
%loop 2 kt
  invariant kt.seq() == vx_s2@, entries_of(vx_s2@, v@), kvs(vx_s2@) == k2s, g == q_map(v@), state.fed() == st1 + (feed_of(*k) + genm_feed(g, k2s, kt.index@ as nat))
%loop_start 2
  proof { let i = kt.index@ as int; assert(vx_s2@[i].0.kv() == kvs(vx_s2@)[i]); assert(v@[k2s[i]].1 == *v2); assert(g[k2s[i]] == v2.q()); }
%loop_end 2
  proof { let i = kt.index@ as int; assert(state.fed() =~= st1 + (feed_of(*k) + genm_feed(g, k2s, (i + 1) as nat))); }
%loop_end 0
  proof { let i = it.index@ as int; assert(state.fed() =~= st0 + gens_feed(qm, ks, (i + 1) as nat)); }
