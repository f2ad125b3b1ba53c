%unit time_parse
%include std.rs
%include lexer.rs
%src rust/pact_models/src/generators/datetime_expressions.rs
%enum TimeBase #[derive(PartialEq, Eq, Structural)]
%enum ClockHour #[derive(PartialEq, Eq, Structural)]
%enum Operation #[derive(PartialEq, Eq, Structural)]
%enum TimeOffsetType #[derive(PartialEq, Eq, Structural)]
%struct Adjustment
%src rust/pact_models/src/generators/time_expression_parser.rs
%enum TimeExpressionToken #[derive(PartialEq, Eq, Structural)]
%struct ParsedTimeExpression
%include time_spec.rs
%prelude
verus! {
/// steps as the parser reads them: up to the end of the text or to a token that starts no step
/// (the steps, the rest, and whether a token was read after the last step)
pub open spec fn t_run(s: Seq<Option<TTok>>) -> Option<(Seq<TAdj>, Lx<TTok>)> decreases s.len(), 0int {
  if s.len() < 3 || t_step(s) is None { None } else { t_cat(seq![t_step(s)->0], t_after(s.skip(3))) } }
pub open spec fn t_after(t: Seq<Option<TTok>>) -> Option<(Seq<TAdj>, Lx<TTok>)> decreases t.len(), 1int {
  if t_at(t, 0) is Some && t_op(t_at(t, 0)->0) is Some { t_run(t) } else { Some((seq![], lx_next(Lx { rest: t, last: true }))) } }
pub open spec fn t_cat(p: Seq<TAdj>, r: Option<(Seq<TAdj>, Lx<TTok>)>) -> Option<(Seq<TAdj>, Lx<TTok>)> { match r { None => None, Some(x) => Some((p + x.0, x.1)) } }
pub proof fn lemma_run(s: Seq<Option<TTok>>) requires s.len() > 0
  ensures t_run(s) is Some && !(t_run(s)->0).1.last ==> (t_run(s)->0).1.rest.len() == 0 && t_steps(s) == Some((t_run(s)->0).0), t_run(s) is None || (t_run(s)->0).1.last ==> t_steps(s) is None
  decreases s.len()
{ if s.len() >= 3 && t_step(s) is Some { let t = s.skip(3); if t.len() > 0 { lemma_run(t); } } }
pub proof fn lemma_all(t: TTok, r: Seq<Option<TTok>>) ensures forall|s: Seq<Option<TTok>>| s.len() > 0 && s[0] == Some(t) && #[trigger] s.skip(1) == r ==> s == seq![Some(t)] + r { assert forall|s: Seq<Option<TTok>>| s.len() > 0 && s[0] == Some(t) && #[trigger] s.skip(1) == r implies s == seq![Some(t)] + r by { assert(s =~= seq![Some(t)] + s.skip(1)); } }
pub proof fn lemma_cat(p: Seq<TAdj>, q: Seq<TAdj>, r: Option<(Seq<TAdj>, Lx<TTok>)>) ensures t_cat(p, t_cat(q, r)) == t_cat(p + q, r) { if r is Some { assert(p + (q + (r->0).0) =~= (p + q) + (r->0).0); } }
pub proof fn lemma_start(s: Seq<Option<TTok>>) ensures s.len() == 0 ==> t_steps(s) == Some(Seq::<TAdj>::empty()), s.len() > 0 && (s[0] is None || t_op(s[0]->0) is None) ==> t_steps(s) is None, s.len() > 0 && s[0] is Some ==> t_all(s[0]->0, lx_next(Lx { rest: s, last: true })) == s && (t_run(s) is Some && !(t_run(s)->0).1.last ==> (t_run(s)->0).1.rest.len() == 0 && t_steps(s) == Some((t_run(s)->0).0)) && (t_run(s) is None || (t_run(s)->0).1.last ==> t_steps(s) is None)
{ if s.len() > 0 { lemma_run(s); if s[0] is Some { assert(seq![s[0]] + s.skip(1) =~= s); } } }
pub open spec fn t_all(t: TTok, l: Lx<TTok>) -> Seq<Option<TTok>> { seq![Some(t)] + l.rest }
}
%prelude
verus! {
impl Clone for TimeExpressionToken { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for TimeExpressionToken {}
}
%src rust/pact_models/src/generators/datetime_expressions.rs
%fn TimeBase::of
%sig
  ensures r is Ok == clock(hour, ch) is Some, r is Ok ==> r->Ok_0 == clock(hour, ch)->0
%src rust/pact_models/src/generators/time_expression_parser.rs
%fn TimeExpressionToken::is_base
%sig
  ensures r == (*self is Now || *self is Midnight || *self is Noon || *self is Digits)
%fn TimeExpressionToken::is_op
%sig
  ensures r == t_op(*self) is Some
%fn oclock
%sig
  ensures ({ let s = old(lex)@.rest; r is Ok == (t_at(s, 0) == Some(TTok::OClock) && (s.len() >= 2 ==> s[1] is Some))
    && (r is Ok ==> r->Ok_0.0 == (match t_at(s, 1) { Some(TTok::Am) => ClockHour::AM, Some(TTok::Pm) => ClockHour::PM, _ => ClockHour::NEXT })
      && r->Ok_0.1 == (match t_at(s, 1) { Some(TTok::Am) | Some(TTok::Pm) | None => None, Some(t) => Some(t) }) && final(lex)@ == lx_next(lx_next(old(lex)@))) })
%fn base
%sig
  ensures ({ let s = t_all(token, old(lex)@); (r is Ok ==> t_base(s) is Some && !(token is Digits && s.len() >= 3 && s[2] is None)) && (r is Err ==> t_base(s) is None || (t_at(s, 0)->0 is Digits && s.len() >= 3 && s[2] is None))
    && (r is Ok ==> r->Ok_0.0 == (t_base(s)->0).0 && if token is Digits { r->Ok_0.1 == (if (t_base(s)->0).1 == 3 { None } else { t_at(s, 2) }) && final(lex)@ == lx_next(lx_next(old(lex)@)) } else { r->Ok_0.1 is None && final(lex)@ == old(lex)@ }) })
%closure 0 |tb: TimeBase| -> (o: (TimeBase, Option<TimeExpressionToken>)) ensures o == (tb, next)
%body_start
  proof { let s = t_all(token, lex@); assert(s.skip(1) =~= lex@.rest); assert(forall|i: int| t_at(s, i + 1) == t_at(lex@.rest, i) || i == -1); assert(t_at(s, 1) == t_at(lex@.rest, 0) && t_at(s, 2) == t_at(lex@.rest, 1)); }
%fn operation
%sig
  ensures final(lex)@ == old(lex)@, r is Ok == t_op(token) is Some, r is Ok ==> r->Ok_0 == t_op(token)->0
%fn duration_type
%sig
  ensures r is Ok == (t_at(old(lex)@.rest, 0) is Some && t_unit(t_at(old(lex)@.rest, 0)->0) is Some), r is Ok ==> r->Ok_0 == t_unit(t_at(old(lex)@.rest, 0)->0)->0 && final(lex)@ == lx_next(old(lex)@)
%fn duration
%body_start
  proof { assert(lex@.rest.len() >= 2 ==> lex@.rest.skip(1).skip(1) =~= lex@.rest.skip(2)); }
%sig
  ensures r is Ok == (t_at(old(lex)@.rest, 0) is Some && t_at(old(lex)@.rest, 0)->0 is Digits && t_at(old(lex)@.rest, 1) is Some && t_unit(t_at(old(lex)@.rest, 1)->0) is Some),
    r is Ok ==> r->Ok_0.0 == t_unit(t_at(old(lex)@.rest, 1)->0)->0 && r->Ok_0.1 == (t_at(old(lex)@.rest, 0)->0)->Digits_0 && final(lex)@ == (Lx::<TTok> { rest: old(lex)@.rest.skip(2), last: true })
%fn offset
%sig
  ensures r is Ok == (t_at(old(lex)@.rest, 0) is Some && t_unit(t_at(old(lex)@.rest, 0)->0) is Some), r is Ok ==> r->Ok_0 == t_unit(t_at(old(lex)@.rest, 0)->0)->0 && final(lex)@ == lx_next(old(lex)@)
%fn adjustment
%sig
  ensures r is Ok == t_step(t_all(token, old(lex)@)) is Some, r is Ok ==> r->Ok_0 == t_step(t_all(token, old(lex)@))->0 && final(lex)@ == (Lx::<TTok> { rest: old(lex)@.rest.skip(2), last: true })
%fn adjustments
%attr #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause] #[verifier::allow_complex_invariants]
%sig
  requires t_op(token) is Some
  ensures r is Ok == t_run(t_all(token, old(lex)@)) is Some, r is Ok ==> r->Ok_0@ == (t_run(t_all(token, old(lex)@))->0).0 && final(lex)@ == (t_run(t_all(token, old(lex)@))->0).1
%body_start
  let ghost all = t_all(token, lex@);
%loop 0
  invariant_except_break t_run(all) == t_cat(results@, if t_op(token) is Some { t_run(t_all(token, lex@)) } else { Some((seq![], lex@)) }), lex@.last || results@.len() == 0 ensures t_run(all) == Some((results@, lex@))
%loop_start 0
  let ghost before = results@; proof { let s = t_all(token, lex@); assert(s.len() >= 3 ==> s.skip(3) =~= lex@.rest.skip(2)); if t_op(token) is Some { if s.len() >= 3 && t_step(s) is Some { lemma_cat(before, seq![t_step(s)->0], t_after(s.skip(3))); } } assert(before + Seq::<TAdj>::empty() =~= before); }
%loop_end 0
  proof { lemma_all(token, lex@.rest); }
%fn expression
%sub `lex.remainder().trim()` => `vx_no_remainder(lex)`
%sub `!remainder.is_empty()` => `!remainder`
%sub 4 `adj.extend_from_slice(&*a)` => `vx_extend(&mut adj, &a)`
%sub `lex.slice().is_empty()` => `vx_slice_empty(lex)`
%sub `next.map(|next| Ok(next)).or_else(|| lex.next())` => `match next { Some(next) => Some(Ok(next)), None => lex.next() }`
%sig
  ensures r is Ok == time_expr(old(lex)@.rest) is Some, r is Ok ==> (r->Ok_0.base, r->Ok_0.adjustments@) == time_expr(old(lex)@.rest)->0
%body_start
  let ghost s = lex@.rest; proof { lemma_start(s); lemma_start(s.skip(1)); lemma_start(s.skip(2)); lemma_start(s.skip(3)); if s.len() >= 2 { assert(s.skip(1).skip(1) =~= s.skip(2)); } if s.len() >= 3 { assert(s.skip(2).skip(1) =~= s.skip(3)); } }
