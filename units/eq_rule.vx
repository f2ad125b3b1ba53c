%unit eq_rule
%include eq_base.vx
%src rust/pact_models/src/matchingrules/mod.rs
%prelude
verus! {
vx_part!(MatchingRuleCategory, CatQ, part_cat); vx_part!(Generator, GenQ, part_gen); vx_part!(MatchingRuleDefinition, DefQ, part_def);
pub type VarQ = (usize, CatQ, Map<Seq<char>, GenQ>);
pub ghost enum RuleQ { Regex(Seq<char>), MinType(usize), MaxType(usize), MinMax(usize, usize), Timestamp(Seq<char>), Time(Seq<char>), Date(Seq<char>), Include(Seq<char>), ContentType(Seq<char>), Array(Seq<VarQ>), Status(StQ), EachKey(DefQ), EachValue(DefQ), Other(u64) }
pub open spec fn gens_feed(m: Map<Seq<char>, GenQ>, ks: Seq<Seq<char>>, n: nat) -> Seq<Tk> decreases n { if n == 0 || n > ks.len() { seq![] } else { gens_feed(m, ks, (n - 1) as nat) + feed_of(ks[n - 1]) + feed_of(m[ks[n - 1]]) } }
pub open spec fn var_feed(v: VarQ) -> Seq<Tk> { let ks = skeys::<DocPath>(v.2.dom()); feed_of(v.0) + feed_of(v.1) + gens_feed(v.2, ks, ks.len()) }
pub open spec fn vars_feed(s: Seq<VarQ>, n: nat) -> Seq<Tk> decreases n { if n == 0 || n > s.len() { seq![] } else { vars_feed(s, (n - 1) as nat) + var_feed(s[n - 1]) } }
pub open spec fn gq(m: HashMap<DocPath, Generator>) -> Map<Seq<char>, GenQ> { q_map(m@) }
}
%src rust/pact_models/src/lib.rs
%enum HttpStatus
%src rust/pact_models/src/matchingrules/mod.rs
%enum MatchingRule
%prelude
verus! {
pub ghost enum StQ { Codes(Seq<u16>), Other(HttpStatus) }
pub open spec fn st_q(s: HttpStatus) -> StQ { match s { HttpStatus::StatusCodes(c) => StQ::Codes(c@), s => StQ::Other(s) } }
/// derived PartialEq
impl VxEq for HttpStatus { type Q = StQ; open spec fn q(&self) -> StQ { st_q(*self) } #[verifier::external_body] fn vx_eqf(&self, o: &Self) -> (r: bool) { unimplemented!() } }
pub open spec fn disc(r: MatchingRule) -> u64 { match r {
  MatchingRule::Equality => 0, MatchingRule::Regex(_) => 1, MatchingRule::Type => 2, MatchingRule::MinType(_) => 3, MatchingRule::MaxType(_) => 4, MatchingRule::MinMaxType(_, _) => 5,
  MatchingRule::Timestamp(_) => 6, MatchingRule::Time(_) => 7, MatchingRule::Date(_) => 8, MatchingRule::Include(_) => 9, MatchingRule::Number => 10, MatchingRule::Integer => 11, MatchingRule::Decimal => 12,
  MatchingRule::Null => 13, MatchingRule::ContentType(_) => 14, MatchingRule::ArrayContains(_) => 15, MatchingRule::Values => 16, MatchingRule::Boolean => 17, MatchingRule::StatusCode(_) => 18,
  MatchingRule::NotEmpty => 19, MatchingRule::Semver => 20, MatchingRule::EachKey(_) => 21, MatchingRule::EachValue(_) => 22 } }
/// std::mem::discriminant
#[verifier::external_body] pub fn vx_discr(r: &MatchingRule) -> (d: VxDiscr) ensures d.d == disc(*r) { unimplemented!() }
pub open spec fn rule_q(r: MatchingRule) -> RuleQ { match r {
  MatchingRule::Regex(s) => RuleQ::Regex(s@), MatchingRule::MinType(n) => RuleQ::MinType(n), MatchingRule::MaxType(n) => RuleQ::MaxType(n), MatchingRule::MinMaxType(a, b) => RuleQ::MinMax(a, b),
  MatchingRule::Timestamp(s) => RuleQ::Timestamp(s@), MatchingRule::Time(s) => RuleQ::Time(s@), MatchingRule::Date(s) => RuleQ::Date(s@), MatchingRule::Include(s) => RuleQ::Include(s@), MatchingRule::ContentType(s) => RuleQ::ContentType(s@),
  MatchingRule::ArrayContains(v) => RuleQ::Array(v.q()), MatchingRule::StatusCode(s) => RuleQ::Status(st_q(s)), MatchingRule::EachKey(d) => RuleQ::EachKey(d.q()), MatchingRule::EachValue(d) => RuleQ::EachValue(d.q()), r => RuleQ::Other(disc(r)) } }
pub open spec fn disc_q(q: RuleQ) -> u64 { match q { RuleQ::Regex(_) => 1, RuleQ::MinType(_) => 3, RuleQ::MaxType(_) => 4, RuleQ::MinMax(_, _) => 5, RuleQ::Timestamp(_) => 6, RuleQ::Time(_) => 7, RuleQ::Date(_) => 8, RuleQ::Include(_) => 9, RuleQ::ContentType(_) => 14, RuleQ::Array(_) => 15, RuleQ::Status(_) => 18, RuleQ::EachKey(_) => 21, RuleQ::EachValue(_) => 22, RuleQ::Other(d) => d } }
pub open spec fn rule_feed(q: RuleQ) -> Seq<Tk> { feed_of(disc_q(q)) + match q {
  RuleQ::Regex(s) => feed_of(s), RuleQ::MinType(n) => feed_of(n), RuleQ::MaxType(n) => feed_of(n), RuleQ::MinMax(a, b) => feed_of(a) + feed_of(b), RuleQ::Timestamp(s) => feed_of(s), RuleQ::Time(s) => feed_of(s), RuleQ::Date(s) => feed_of(s),
  RuleQ::Include(s) => feed_of(s), RuleQ::ContentType(s) => feed_of(s), RuleQ::Array(v) => vars_feed(v, v.len()), _ => seq![] } }
impl VxEq for MatchingRule { type Q = RuleQ; open spec fn q(&self) -> RuleQ { rule_q(*self) } fn vx_eqf(&self, o: &Self) -> (r: bool) { self.eq_(o) } }
impl Hash for MatchingRule { open spec fn feed(q: RuleQ) -> Seq<Tk> { rule_feed(q) } fn hash<H: Hasher>(&self, state: &mut H) { self.hash_(state) } }
}
%fn PartialEq for MatchingRule::eq
%rename eq_
%eq
%sub `mem::discriminant(self)` => `vx_discr(self)`
%sub `mem::discriminant(other)` => `vx_discr(other)`
%sig
  ensures r == (self.q() == other.q())
%fn Hash for MatchingRule::hash
%rename hash_
%chain
%sub `mem::discriminant(self)` => `vx_discr(self)`
%sig
  ensures final(state).fed() == old(state).fed() + MatchingRule::feed(self.q())
%body_start
  let ghost st0 = state.fed();
%before `match self {`
  proof { assert(state.fed() + seq![] =~= state.fed()); }
%loop 0 it
  invariant st0 == old(state).fed(), *self matches MatchingRule::ArrayContains(vs) && *variants == vs, it.seq().len() == variants@.len(), forall|i: int| 0 <= i < variants@.len() ==> *(#[trigger] it.seq()[i]) == variants@[i],
    state.fed() == st0 + (feed_of(15u64) + vars_feed(q_seq(variants@), it.index@ as nat))
%loop_start 0
  let ghost st1 = state.fed(); let ghost vq = q_seq(variants@)[it.index@]; let ghost ks = skeys::<DocPath>(vq.2.dom());
  proof { assert(vq == (*index, rules.q(), gq(*generators))); }
%base 1
%loop 1 jt
  invariant jt.seq() == vx_s1@, entries_of(vx_s1@, generators@), kvs(vx_s1@) == ks, vq == (*index, rules.q(), gq(*generators)), keys_wf(generators@),
    state.fed() == st1 + (feed_of(vq.0) + feed_of(vq.1) + gens_feed(vq.2, ks, jt.index@ as nat))
%loop_start 1
  proof { let i = jt.index@ as int; assert(vx_s1@[i].0.kv() == kvs(vx_s1@)[i]); assert(generators@[ks[i]].1 == *g); assert(vq.2[ks[i]] == g.q()); }
  let ghost st2 = state.fed();
%loop_end 1
  proof { let i = jt.index@ as int; assert(state.fed() =~= st1 + (feed_of(vq.0) + feed_of(vq.1) + gens_feed(vq.2, ks, (i + 1) as nat))); }
%after_base 1
  proof { generators.axiom_wf(); assert(gq(*generators).dom() =~= generators@.dom()); assert(vq.2 == gq(*generators)); assert(entries_of(vx_s1@, generators@)); assert(kvs(vx_s1@) == skeys::<DocPath>(generators@.dom())); }
%loop_end 0
  proof { let i = it.index@ as int; assert(vars_feed(q_seq(variants@), (i + 1) as nat) == vars_feed(q_seq(variants@), i as nat) + var_feed(vq)); assert(state.fed() =~= st0 + (feed_of(15u64) + vars_feed(q_seq(variants@), (i + 1) as nat))); }
