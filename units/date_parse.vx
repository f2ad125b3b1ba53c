%unit date_parse
%include std.rs
%include lexer.rs
%src rust/pact_models/src/generators/datetime_expressions.rs
%enum DateBase #[derive(PartialEq, Eq, Structural)]
%enum Operation #[derive(PartialEq, Eq, Structural)]
%enum DateOffsetType #[derive(PartialEq, Eq, Structural)]
%struct Adjustment
%src rust/pact_models/src/generators/date_expression_parser.rs
%enum DateExpressionToken #[derive(PartialEq, Eq, Structural)]
%struct ParsedDateExpression
%include date_spec.rs
%prelude
verus! {
/// steps as the parser reads them: up to the end of the text or to a token that starts no step
/// (the steps, the rest, and whether a token was read after the last step)
pub open spec fn d_run(s: Seq<Option<DTok>>) -> Option<(Seq<DAdj>, Lx<DTok>)> decreases s.len(), 0int {
  if s.len() < 3 || d_step(s) is None { None } else { d_cat(seq![d_step(s)->0], d_after(s.skip(3))) } }
pub open spec fn d_after(t: Seq<Option<DTok>>) -> Option<(Seq<DAdj>, Lx<DTok>)> decreases t.len(), 1int {
  if d_at(t, 0) is Some && d_op(d_at(t, 0)->0) is Some { d_run(t) } else { Some((seq![], lx_next(Lx { rest: t, last: true }))) } }
pub open spec fn d_cat(p: Seq<DAdj>, r: Option<(Seq<DAdj>, Lx<DTok>)>) -> Option<(Seq<DAdj>, Lx<DTok>)> { match r { None => None, Some(x) => Some((p + x.0, x.1)) } }
pub proof fn lemma_run(s: Seq<Option<DTok>>) requires s.len() > 0
  ensures d_run(s) is Some && !(d_run(s)->0).1.last ==> (d_run(s)->0).1.rest.len() == 0 && d_steps(s) == Some((d_run(s)->0).0), d_run(s) is None || (d_run(s)->0).1.last ==> d_steps(s) is None
  decreases s.len()
{ if s.len() >= 3 && d_step(s) is Some { let t = s.skip(3); if t.len() > 0 { lemma_run(t); } } }
pub proof fn lemma_all(t: DTok, r: Seq<Option<DTok>>) ensures forall|s: Seq<Option<DTok>>| s.len() > 0 && s[0] == Some(t) && #[trigger] s.skip(1) == r ==> s == seq![Some(t)] + r { assert forall|s: Seq<Option<DTok>>| s.len() > 0 && s[0] == Some(t) && #[trigger] s.skip(1) == r implies s == seq![Some(t)] + r by { assert(s =~= seq![Some(t)] + s.skip(1)); } }
pub proof fn lemma_cat(p: Seq<DAdj>, q: Seq<DAdj>, r: Option<(Seq<DAdj>, Lx<DTok>)>) ensures d_cat(p, d_cat(q, r)) == d_cat(p + q, r) { if r is Some { assert(p + (q + (r->0).0) =~= (p + q) + (r->0).0); } }
pub proof fn lemma_start(s: Seq<Option<DTok>>) ensures s.len() > 0 && s[0] is Some ==> d_all(s[0]->0, lx_next(Lx { rest: s, last: true })) == s && (d_run(s) is Some && !(d_run(s)->0).1.last ==> (d_run(s)->0).1.rest.len() == 0 && d_steps(s) == Some((d_run(s)->0).0)) && (d_run(s) is None || (d_run(s)->0).1.last ==> d_steps(s) is None)
{ if s.len() > 0 { lemma_run(s); if s[0] is Some { assert(seq![s[0]] + s.skip(1) =~= s); } } }
pub open spec fn d_all(t: DTok, l: Lx<DTok>) -> Seq<Option<DTok>> { seq![Some(t)] + l.rest }
}
%fn DateExpressionToken::is_base
%sig
  ensures r == d_base(*self) is Some
%fn DateExpressionToken::is_op
%sig
  ensures r == d_op(*self) is Some
%fn base
%sig
  ensures final(lex)@ == old(lex)@, r is Ok == d_base(*token) is Some, r is Ok ==> r->Ok_0 == d_base(*token)->0
%fn operation
%sig
  ensures final(lex)@ == old(lex)@, r is Ok == d_op(*token) is Some, r is Ok ==> r->Ok_0 == d_op(*token)->0
%fn duration_type
%sig
  ensures r is Ok == (d_at(old(lex)@.rest, 0) is Some && d_unit(d_at(old(lex)@.rest, 0)->0) is Some), r is Ok ==> r->Ok_0 == d_unit(d_at(old(lex)@.rest, 0)->0)->0 && final(lex)@ == lx_next(old(lex)@)
%fn duration
%body_start
  proof { assert(lex@.rest.len() >= 2 ==> lex@.rest.skip(1).skip(1) =~= lex@.rest.skip(2)); }
%sig
  ensures r is Ok == (d_at(old(lex)@.rest, 0) is Some && d_at(old(lex)@.rest, 0)->0 is Int && d_at(old(lex)@.rest, 1) is Some && d_unit(d_at(old(lex)@.rest, 1)->0) is Some),
    r is Ok ==> r->Ok_0.0 == d_unit(d_at(old(lex)@.rest, 1)->0)->0 && r->Ok_0.1 == (d_at(old(lex)@.rest, 0)->0)->Int_0 && final(lex)@ == (Lx::<DTok> { rest: old(lex)@.rest.skip(2), last: true })
%fn offset
%sig
  ensures r is Ok == (d_at(old(lex)@.rest, 0) is Some && d_offset(d_at(old(lex)@.rest, 0)->0) is Some), r is Ok ==> r->Ok_0 == d_offset(d_at(old(lex)@.rest, 0)->0)->0 && final(lex)@ == lx_next(old(lex)@)
%fn adjustment
%sig
  ensures r is Ok == d_step(d_all(*token, old(lex)@)) is Some, r is Ok ==> r->Ok_0 == d_step(d_all(*token, old(lex)@))->0 && final(lex)@ == (Lx::<DTok> { rest: old(lex)@.rest.skip(2), last: true })
%fn adjustments
%attr #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause] #[verifier::allow_complex_invariants]
%sig
  requires d_op(*token) is Some
  ensures r is Ok == d_run(d_all(*token, old(lex)@)) is Some, r is Ok ==> r->Ok_0@ == (d_run(d_all(*token, old(lex)@))->0).0 && final(lex)@ == (d_run(d_all(*token, old(lex)@))->0).1
%body_start
  let ghost all = d_all(*token, lex@); proof { assert(all.len() >= 3 ==> all.skip(3) =~= lex@.rest.skip(2)); }
%loop 0
  invariant_except_break d_run(all) == d_cat(results@, d_after(lex@.rest)) ensures d_run(all) == Some((results@, lex@))
%loop_start 0
  let ghost before = results@; proof { lemma_all(token, lex@.rest); let s = d_all(token, lex@); assert(s.len() >= 3 ==> s.skip(3) =~= lex@.rest.skip(2)); if d_op(token) is Some { if s.len() >= 3 && d_step(s) is Some { lemma_cat(before, seq![d_step(s)->0], d_after(s.skip(3))); } assert(d_run(all) == d_cat(before, d_run(s))); } else { assert(before + Seq::<DAdj>::empty() =~= before); } }
%fn expression
%sub `lex.remainder().trim()` => `vx_no_remainder(lex)`
%sub `!remainder.is_empty()` => `!remainder`
%sub 4 `adj.extend_from_slice(&*adjustments(lex, exp, &token)?)` => `vx_extend(&mut adj, &adjustments(lex, exp, &token)?)`
%sub `lex.slice().is_empty()` => `vx_slice_empty(lex)`
%sig
  ensures r is Ok == date_expr(old(lex)@.rest) is Some, r is Ok ==> (r->Ok_0.base, r->Ok_0.adjustments@) == date_expr(old(lex)@.rest)->0
%body_start
  let ghost s = lex@.rest; proof { lemma_start(s); lemma_start(s.skip(1)); lemma_start(s.skip(2)); if s.len() >= 2 { assert(s.skip(1).skip(1) =~= s.skip(2)); } }
