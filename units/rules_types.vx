%include vxmap.rs
%include path_weight.vx
%src rust/pact_models/src/matchingrules/mod.rs
%prelude
verus! {
impl VxKey for DocPath { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self.expr@ } }
impl VxOrd for &DocPath { open spec fn le(&self, o: &Self) -> bool { str_le(self.expr@, o.expr@) } #[verifier::external_body] fn vx_le(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl VxOrd for (usize, &DocPath) { open spec fn le(&self, o: &Self) -> bool { self.0 < o.0 || (self.0 == o.0 && str_le(self.1.expr@, o.1.expr@)) } fn vx_le(&self, o: &Self) -> (r: bool) { self.0 < o.0 || (self.0 == o.0 && self.1.vx_le(&o.1)) } }
#[verifier::external_body] pub struct Value { _p: () }
#[verifier::external_body] pub struct MatchingRuleDefinition { _p: () }
#[verifier::external_body] pub struct Generator { _p: () }
#[verifier::external_body] pub struct HttpStatus { _p: () }
// derived Clone: an equal value
impl Clone for MatchingRule { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for RuleLogic { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for RuleLogic {}
impl Clone for RuleList { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.rules@ == self.rules@, r.rule_logic == self.rule_logic, r.cascaded == self.cascaded { unimplemented!() } }
impl Clone for Category { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for MatchingRuleCategory { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.name == self.name, rlm(r.rules@) == rlm(self.rules@) { unimplemented!() } }
impl VxKey for Category { type KV = Category; open spec fn kv(&self) -> Category { *self } }
impl Default for RuleList { fn default() -> (r: Self) ensures rl(r) == empty_rl() { RuleList::default_() } }

/// view of a rule list
pub ghost struct RL { pub rules: Seq<MatchingRule>, pub logic: RuleLogic, pub cascaded: bool }
pub open spec fn rl(r: RuleList) -> RL { RL { rules: r.rules@, logic: r.rule_logic, cascaded: r.cascaded } }
pub open spec fn empty_rl() -> RL { RL { rules: seq![], logic: RuleLogic::And, cascaded: false } }
/// view of the rules of a category: path text -> (steps, rule list)
pub open spec fn rlm(m: Map<Seq<char>, (DocPath, RuleList)>) -> Map<Seq<char>, (Seq<Tok>, RL)> { m.map_values(|v: (DocPath, RuleList)| (tvs(v.0.path_tokens@), rl(v.1))) }
pub open spec fn min_max(r: MatchingRule) -> bool { r is MinType || r is MaxType || r is MinMaxType }
pub open spec fn type_like(r: MatchingRule) -> bool { r is Type || min_max(r) }
pub open spec fn values_like(r: MatchingRule) -> bool { r is Values || r is EachValue }
pub open spec fn some_rule(s: Seq<MatchingRule>, f: spec_fn(MatchingRule) -> bool) -> bool { exists|i: int| 0 <= i < s.len() && f(#[trigger] s[i]) }
}
%enum MatchingRule
%enum RuleLogic #[derive(PartialEq, Structural)]
%struct RuleList
%enum Category #[derive(PartialEq, Eq, Structural)]
%struct MatchingRuleCategory
