%unit rules_ops
%include std.rs
%include rules_types.vx
%src rust/pact_models/src/matchingrules/mod.rs
%fn MatchingRule::is_values_matcher
%sig
  ensures r == values_like(*self)
%fn MatchingRule::is_type_matcher
%sig
  ensures r == type_like(*self)
%fn MatchingRule::is_length_type_matcher
%sig
  ensures r == min_max(*self)
%fn MatchingRule::can_cascade
%sig
  ensures r == !(self is Values || self is EachValue || self is EachKey)
%fn MatchingRule::for_single_item
%sig
  ensures r == (if min_max(*self) { MatchingRule::Type } else { *self })
%fn RuleList::empty
%sig
  ensures rl(r) == (RL { rules: seq![], logic: rule_logic, cascaded: false })
%fn RuleList::equality
%sig
  ensures rl(r) == (RL { rules: seq![MatchingRule::Equality], logic: RuleLogic::And, cascaded: false })
%tail_after
  proof { assert(vx_ret.rules@ =~= seq![MatchingRule::Equality]); }
%fn RuleList::new
%sig
  ensures rl(r) == (RL { rules: seq![rule], logic: RuleLogic::And, cascaded: false })
%tail_after
  proof { assert(vx_ret.rules@ =~= seq![rule]); }
%fn Default for RuleList::default
%rename default_
%sig
  ensures rl(r) == empty_rl()
%fn RuleList::is_empty
%sig
  ensures r == (self.rules@.len() == 0)
%fn RuleList::type_matcher_defined
%loop 0 it
  invariant_except_break vx_b0 == false, forall|i: int| 0 <= i < it.index@ ==> !type_like(#[trigger] self.rules@[i])
  invariant it.seq().len() == self.rules@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.rules@[i],
  ensures vx_b0 == some_rule(self.rules@, |x: MatchingRule| type_like(x))
%sig
  ensures r == some_rule(self.rules@, |x: MatchingRule| type_like(x))
%fn RuleList::values_matcher_defined
%loop 0 it
  invariant_except_break vx_b0 == false, forall|i: int| 0 <= i < it.index@ ==> !values_like(#[trigger] self.rules@[i])
  invariant it.seq().len() == self.rules@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.rules@[i],
  ensures vx_b0 == some_rule(self.rules@, |x: MatchingRule| values_like(x))
%sig
  ensures r == some_rule(self.rules@, |x: MatchingRule| values_like(x))
%fn RuleList::has_non_type_matchers
%loop 0 it
  invariant_except_break vx_b0 == false, forall|i: int| 0 <= i < it.index@ ==> type_like(#[trigger] self.rules@[i])
  invariant it.seq().len() == self.rules@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.rules@[i],
  ensures vx_b0 == some_rule(self.rules@, |x: MatchingRule| !type_like(x))
%sig
  ensures r == some_rule(self.rules@, |x: MatchingRule| !type_like(x))
%fn RuleList::add_rule
%sig
  ensures rl(*final(self)) == (RL { rules: old(self).rules@.push(*rule), ..rl(*old(self)) })
%fn RuleList::as_cascaded
%sig
  ensures rl(r) == (RL { cascaded: b, ..rl(*self) })
%fn RuleList::add_rules
%loop 0 it
  invariant it.seq().len() == rules.rules@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == rules.rules@[i],
    rl(*self) == (RL { rules: old(self).rules@ + rules.rules@.take(it.index@), ..rl(*old(self)) })
%loop_start 0
  proof { let k = it.index@; assert(rules.rules@.take(k + 1) =~= rules.rules@.take(k).push(rules.rules@[k])); assert(old(self).rules@ + rules.rules@.take(k + 1) =~= (old(self).rules@ + rules.rules@.take(k)).push(rules.rules@[k])); }
%before_loop 0
  proof { assert(old(self).rules@ + rules.rules@.take(0) =~= old(self).rules@); }
%after_loop 0
  proof { assert(rules.rules@.take(rules.rules@.len() as int) =~= rules.rules@); }
%sig
  ensures rl(*final(self)) == (RL { rules: old(self).rules@ + rules.rules@, ..rl(*old(self)) })
%fn RuleList::and_rules
%sig
  ensures rl(r) == (RL { rules: self.rules@ + rules.rules@, ..rl(*self) })
%prelude
verus! {
/// what select_best_matcher must return for the entries m and a path: the rules of the entry with the
/// greatest weight * length (ties: greatest path text), flagged as cascaded when it is shorter
pub open spec fn score(ts: Seq<Tok>, p: Seq<Seq<char>>) -> nat { min_nat(weight(ts, p) * ts.len(), usize::MAX as nat) }
pub open spec fn cand(m: Map<Seq<char>, (Seq<Tok>, RL)>, p: Seq<Seq<char>>, k: Seq<char>) -> bool { m.dom().contains(k) && weight(m[k].0, p) > 0 }
pub open spec fn beats(m: Map<Seq<char>, (Seq<Tok>, RL)>, p: Seq<Seq<char>>, a: Seq<char>, b: Seq<char>) -> bool {
  score(m[a].0, p) > score(m[b].0, p) || (score(m[a].0, p) == score(m[b].0, p) && str_le(b, a)) }
pub open spec fn is_best(m: Map<Seq<char>, (Seq<Tok>, RL)>, p: Seq<Seq<char>>, k: Seq<char>) -> bool { cand(m, p, k) && forall|j: Seq<char>| #[trigger] cand(m, p, j) ==> beats(m, p, k, j) }
pub open spec fn best(m: Map<Seq<char>, (Seq<Tok>, RL)>, p: Seq<Seq<char>>) -> RL {
  if exists|k: Seq<char>| is_best(m, p, k) { let k = choose|k: Seq<char>| is_best(m, p, k); RL { cascaded: m[k].0.len() != p.len(), ..m[k].1 } } else { empty_rl() } }
/// at most one entry is the best one, so the result depends on the entries and the path only
pub proof fn theorem_best_unique(m: Map<Seq<char>, (Seq<Tok>, RL)>, p: Seq<Seq<char>>, a: Seq<char>, b: Seq<char>)
  requires is_best(m, p, a), is_best(m, p, b) ensures a == b
{ broadcast use str_order; assert(cand(m, p, a) && cand(m, p, b)); assert(beats(m, p, a, b) && beats(m, p, b, a)); assert(str_le(a, b) && str_le(b, a)); }
pub proof fn lemma_strs_len(p: Seq<&str>) ensures strs(p).len() == p.len() {}
pub open spec fn collection(c: Category) -> bool { c is HEADER || c is QUERY || c is BODY || c is CONTENTS || c is METADATA }
/// the entries whose path matches
pub open spec fn matches(ts: Seq<Tok>, p: Seq<Seq<char>>) -> bool { p.len() >= ts.len() && all_match(ts, p) }
pub open spec fn matching(m: Map<Seq<char>, (Seq<Tok>, RL)>, p: Seq<Seq<char>>) -> Map<Seq<char>, (Seq<Tok>, RL)> { m.restrict(m.dom().filter(|k: Seq<char>| matches(m[k].0, p))) }
pub open spec fn min_at(s: Seq<(&DocPath, &RuleList)>, n: int, i: int, key: &DocPath, item: (&DocPath, &RuleList)) -> bool {
  0 <= i < n && item.0 == s[i].0 && item.1 == s[i].1 && key == s[i].0 && forall|j: int| 0 <= j < n ==> str_le(s[i].0.kv(), (#[trigger] s[j]).0.kv()) }
/// the entry at i beats every candidate seen so far
pub open spec fn best_at(s: Seq<(&DocPath, &RuleList)>, n: int, m: Map<Seq<char>, (Seq<Tok>, RL)>, p: Seq<Seq<char>>, i: int, key: (usize, &DocPath), item: (&DocPath, &RuleList, (usize, usize))) -> bool {
  &&& 0 <= i < n && item.0 == s[i].0 && item.1 == s[i].1 && item.2.1 == s[i].0.path_tokens@.len()
  &&& key.1 == s[i].0 && key.0 as nat == score(m[s[i].0.kv()].0, p) && cand(m, p, s[i].0.kv())
  &&& forall|j: int| 0 <= j < n ==> cand(m, p, (#[trigger] s[j]).0.kv()) ==> beats(m, p, s[i].0.kv(), s[j].0.kv())
}
pub proof fn lemma_rlm(m: Map<Seq<char>, (DocPath, RuleList)>, k: Seq<char>) requires m.dom().contains(k) ensures rlm(m).dom() == m.dom(), rlm(m)[k] == (tvs(m[k].0.path_tokens@), rl(m[k].1)) {}
/// the first rule list by path text
pub open spec fn is_first(m: Map<Seq<char>, (Seq<Tok>, RL)>, k: Seq<char>) -> bool { m.dom().contains(k) && forall|j: Seq<char>| #[trigger] m.dom().contains(j) ==> str_le(k, j) }
pub open spec fn first(m: Map<Seq<char>, (Seq<Tok>, RL)>) -> RL { if exists|k: Seq<char>| is_first(m, k) { m[choose|k: Seq<char>| is_first(m, k)].1 } else { empty_rl() } }
pub proof fn theorem_first_unique(m: Map<Seq<char>, (Seq<Tok>, RL)>, a: Seq<char>, b: Seq<char>) requires is_first(m, a), is_first(m, b) ensures a == b { broadcast use str_order; assert(str_le(a, b) && str_le(b, a)); }
}
%fn MatchingRuleCategory::max_by_path
%chain
%base 0
%bty 0 Option<((usize, &DocPath), (&DocPath, &RuleList, (usize, usize)))>
%closure 3 |x: (&DocPath, &RuleList, (usize, usize))| -> (r: RuleList) ensures rl(r) == (RL { cascaded: x.2.1 != path@.len(), ..rl(*x.1) }) ;; let (_, v, (_, t)) = x;
%loop 0 it
  invariant it.seq() == e0, entries_of(e0, self.rules@),
    vx_b0 is None ==> forall|i: int| 0 <= i < it.index@ ==> !cand(rlm(self.rules@), strs(path@), (#[trigger] it.seq()[i]).0.kv()),
    vx_b0 matches Some(b) ==> exists|i: int| #[trigger] best_at(it.seq(), it.index@, rlm(self.rules@), strs(path@), i, b.0, b.1)
%before_loop 0
  let ghost e0 = vx_s0@;
%loop_start 0
  let ghost b_old = vx_b0; let ghost n = it.index@;
  proof { lemma_rlm(self.rules@, it.seq()[n].0.kv()); broadcast use str_order; }
%loop_end 0
  proof {
    broadcast use str_order;
    let m = rlm(self.rules@); let p = strs(path@); let s = it.seq();
    if b_old is Some { let b = b_old->0; let i = choose|i: int| best_at(s, n, m, p, i, b.0, b.1);
      assert(best_at(s, n, m, p, i, b.0, b.1));
      if vx_b0 == b_old { assert(best_at(s, n + 1, m, p, i, b.0, b.1)); } else { assert(best_at(s, n + 1, m, p, n, (vx_b0->0).0, (vx_b0->0).1)); }
    } else if vx_b0 is Some { assert(best_at(s, n + 1, m, p, n, (vx_b0->0).0, (vx_b0->0).1)); }
  }
%after_loop 0
  proof {
    broadcast use str_order;
    let m = rlm(self.rules@); let p = strs(path@);
    assert(m.dom() =~= self.rules@.dom());
    assert forall|k: Seq<char>| #[trigger] self.rules@.dom().contains(k) implies exists|x: int| 0 <= x < e0.len() && (#[trigger] e0[x]).0.kv() == k by { }
    if vx_b0 is Some { let b = vx_b0->0; let e = e0;
      let i = choose|i: int| best_at(e, e.len() as int, m, p, i, b.0, b.1); let k = e[i].0.kv();
      assert forall|j: Seq<char>| #[trigger] cand(m, p, j) implies beats(m, p, k, j) by { let x = choose|x: int| 0 <= x < e.len() && (#[trigger] e[x]).0.kv() == j; assert(self.rules@.dom().contains(j)); assert(cand(m, p, e[x].0.kv())); }
      assert(is_best(m, p, k)); theorem_best_unique(m, p, k, choose|k: Seq<char>| is_best(m, p, k)); lemma_rlm(self.rules@, k);
    } else { assert forall|k: Seq<char>| !is_best(m, p, k) by { if is_best(m, p, k) { assert(cand(m, p, k)); } } }
  }
%sig
  ensures rl(r) == best(rlm(self.rules@), strs(path@))
%fn MatchingRuleCategory::as_rule_list
%chain
%base 0
%bty 0 Option<(&DocPath, (&DocPath, &RuleList))>
%closure 1 |x: (&DocPath, &RuleList)| -> (r: RuleList) ensures rl(r) == rl(*x.1) ;; let (_, rules) = x;
%before_loop 0
  let ghost e0 = vx_s0@;
%loop 0 it
  invariant it.seq() == e0, entries_of(e0, self.rules@), vx_b0 is None == (it.index@ == 0),
    vx_b0 matches Some(b) ==> exists|i: int| #[trigger] min_at(e0, it.index@, i, b.0, b.1)
%loop_start 0
  let ghost b_old = vx_b0; let ghost n = it.index@;
%loop_end 0
  proof { broadcast use str_order;
    if b_old is Some { let i = choose|i: int| min_at(e0, n, i, (b_old->0).0, (b_old->0).1); assert(min_at(e0, n, i, (b_old->0).0, (b_old->0).1));
      if vx_b0 == b_old { assert(min_at(e0, n + 1, i, (vx_b0->0).0, (vx_b0->0).1)); } else { assert(min_at(e0, n + 1, n, (vx_b0->0).0, (vx_b0->0).1)); } }
    else { assert(min_at(e0, n + 1, n, (vx_b0->0).0, (vx_b0->0).1)); } }
%after_loop 0
  proof { broadcast use str_order; let m = rlm(self.rules@); assert(m.dom() =~= self.rules@.dom());
    assert forall|k: Seq<char>| #[trigger] self.rules@.dom().contains(k) implies exists|x: int| 0 <= x < e0.len() && (#[trigger] e0[x]).0.kv() == k by { }
    if vx_b0 is Some { let i = choose|i: int| min_at(e0, e0.len() as int, i, (vx_b0->0).0, (vx_b0->0).1); let k = e0[i].0.kv();
      assert forall|j: Seq<char>| #[trigger] m.dom().contains(j) implies str_le(k, j) by { let x = choose|x: int| 0 <= x < e0.len() && (#[trigger] e0[x]).0.kv() == j; }
      assert(is_first(m, k)); theorem_first_unique(m, k, choose|k: Seq<char>| is_first(m, k)); lemma_rlm(self.rules@, k);
    } else { assert forall|k: Seq<char>| !is_first(m, k) by { if is_first(m, k) { assert(self.rules@.dom().contains(k)); } } } }
%sig
  ensures rl(r) == first(rlm(self.rules@))
%fn MatchingRuleCategory::filter
%chain
%base 0
%bty 0 HashMap<DocPath, RuleList>
%sig
  requires forall|x: (&DocPath, &RuleList)| call_requires(predicate, (&x,))
  ensures r.name == self.name,
    forall|k: Seq<char>| #[trigger] rlm(r.rules@).dom().contains(k) ==> self.rules@.dom().contains(k) && rlm(r.rules@)[k] == rlm(self.rules@)[k] && call_ensures(predicate, (&(&self.rules@[k].0, &self.rules@[k].1),), true),
    forall|k: Seq<char>| #[trigger] self.rules@.dom().contains(k) && !rlm(r.rules@).dom().contains(k) ==> call_ensures(predicate, (&(&self.rules@[k].0, &self.rules@[k].1),), false)
%before_loop 0
  let ghost e0 = vx_s0@;
%loop 0 it
  invariant it.seq() == e0, entries_of(e0, self.rules@), forall|x: (&DocPath, &RuleList)| call_requires(predicate, (&x,)),
    forall|k: Seq<char>| #[trigger] rlm(vx_b0@).dom().contains(k) ==> self.rules@.dom().contains(k) && rlm(vx_b0@)[k] == rlm(self.rules@)[k] && call_ensures(predicate, (&(&self.rules@[k].0, &self.rules@[k].1),), true)
      && exists|i: int| 0 <= i < it.index@ && (#[trigger] e0[i]).0.kv() == k,
    forall|i: int| 0 <= i < it.index@ ==> rlm(vx_b0@).dom().contains((#[trigger] e0[i]).0.kv()) || call_ensures(predicate, (&(e0[i].0, e0[i].1),), false)
%loop_start 0
  let ghost m0 = vx_b0@; let ghost n = it.index@;
%loop_end 0
  proof { assert(rlm(vx_b0@).dom() =~= vx_b0@.dom()); assert(rlm(m0).dom() =~= m0.dom()); assert(rlm(self.rules@).dom() =~= self.rules@.dom());
    assert forall|k: Seq<char>| #[trigger] rlm(vx_b0@).dom().contains(k) implies exists|i: int| 0 <= i < n + 1 && (#[trigger] e0[i]).0.kv() == k by { if rlm(m0).dom().contains(k) { } else { assert(e0[n].0.kv() == k); } } }
%fn MatchingRuleCategory::resolve_matchers_for_path
%closure 0 |kv: &(&DocPath, &RuleList)| -> (b: bool) ensures b == (path@.len() >= kv.0.path_tokens@.len() && all_match(tvs(kv.0.path_tokens@), strs(path@))) ;; let (val, _) = kv;
%sig
  ensures r.name == self.name, rlm(r.rules@) =~= (if collection(self.name) { matching(rlm(self.rules@), strs(path@)) } else { rlm(self.rules@) })
%tail
  proof { assert forall|k: Seq<char>| #[trigger] self.rules@.dom().contains(k) implies rlm(self.rules@)[k] == (tvs(self.rules@[k].0.path_tokens@), rl(self.rules@[k].1)) by {} }
%fn MatchingRuleCategory::select_best_matcher
%sig
  ensures rl(r) == (if self.name is BODY || self.name is METADATA { best(rlm(self.rules@), strs(path@)) } else if collection(self.name) { first(matching(rlm(self.rules@), strs(path@))) } else { first(rlm(self.rules@)) })
%fn MatchingRuleCategory::is_empty
%sig
  ensures r == (self.rules@.dom() =~= Set::empty())
%fn MatchingRuleCategory::is_not_empty
%sig
  ensures r == !(self.rules@.dom() =~= Set::empty())
%fn MatchingRuleCategory::matcher_is_defined
%sig
  ensures r == if collection(self.name) { exists|k: Seq<char>| #[trigger] matching(rlm(self.rules@), strs(path@)).dom().contains(k) } else { !(self.rules@.dom() =~= Set::empty()) }
