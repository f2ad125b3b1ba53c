%unit when
%include std.rs
%include lexer.rs
%include cal.rs
%src rust/pact_models/src/generators/datetime_expressions.rs
%enum DateBase #[derive(PartialEq, Eq, Structural)]
%enum TimeBase #[derive(PartialEq, Eq, Structural)]
%enum ClockHour #[derive(PartialEq, Eq, Structural)]
%enum Operation #[derive(PartialEq, Eq, Structural)]
%enum DateOffsetType #[derive(PartialEq, Eq, Structural)]
%enum TimeOffsetType #[derive(PartialEq, Eq, Structural)]
%struct Adjustment
%src rust/pact_models/src/generators/date_expression_parser.rs
%enum DateExpressionToken #[derive(PartialEq, Eq, Structural)]
%struct ParsedDateExpression
%src rust/pact_models/src/generators/time_expression_parser.rs
%enum TimeExpressionToken #[derive(PartialEq, Eq, Structural)]
%struct ParsedTimeExpression
%include date_spec.rs
%include time_spec.rs
%include when_spec.rs
%fn expression
%trusted
%rename time_expression
%sig
  ensures r is Ok == time_expr(old(lex)@.rest) is Some, r is Ok ==> (r->Ok_0.base, r->Ok_0.adjustments@) == time_expr(old(lex)@.rest)->0
%src rust/pact_models/src/generators/date_expression_parser.rs
%fn expression
%trusted
%rename date_expression
%sig
  ensures r is Ok == date_expr(old(lex)@.rest) is Some, r is Ok ==> (r->Ok_0.base, r->Ok_0.adjustments@) == date_expr(old(lex)@.rest)->0
%src rust/pact_models/src/generators/datetime_expressions.rs
%fn parse_date_expression
%sub `crate::generators::date_expression_parser::expression(` => `date_expression(`
%sig
  ensures r is Ok == date_expr(d_tokens(expression@)) is Some, r is Ok ==> (r->Ok_0.base, r->Ok_0.adjustments@) == date_expr(d_tokens(expression@))->0
%fn parse_time_expression
%sub `crate::generators::time_expression_parser::expression(` => `time_expression(`
%sig
  ensures r is Ok == time_expr(t_tokens(expression@)) is Some, r is Ok ==> (r->Ok_0.base, r->Ok_0.adjustments@) == time_expr(t_tokens(expression@))->0
%fn overflow
%trusted
%sub `anyhow::Error` => `VxError`
%sig
%fn plus
%sig
  ensures ov(r) == (match duration { Some(d) => if_fits(shift(date@, d.ns())), None => None })
%fn minus
%sig
  ensures ov(r) == (match duration { Some(d) => if_fits(shift(date@, -d.ns())), None => None })
%fn move_months
%sub `u32::try_from(months.unsigned_abs()).ok()?` => `vx_u32(vx_abs(months))?`
%sig
  requires representable(date@)
  ensures ov(r) == (match months { Some(n) => if_fits(months_on(date@, n as int)), None => None })
%body_start
  proof { if months is Some && (months->0 > u32::MAX || months->0 < -(u32::MAX as int)) { lemma_months_too_far(date@, months->0 as int); } }
%fn base_date
%sig
  requires sane(base@)
  ensures r@ == base_day(result.base, base@)
%body_start
  proof { lemma_days(base@, 1); lemma_days(base@, -1); lemma_near(base_day(DateBase::YESTERDAY, base@)); lemma_near(base_day(DateBase::TOMORROW, base@)); }
%fn adjust_date_up_to
%attr #[verifier::loop_isolation(false)]
%sub `fn(&DateTime<Tz>) -> bool` => `impl Fn(&DateTime<Tz>) -> bool, Ghost(p): Ghost<spec_fn(int) -> bool>`
%sig
  requires near(Dtm { days: date@.days - 2000, ns: date@.ns }), near(Dtm { days: date@.days + 2000, ns: date@.ns }), turns_up(p, date@.days), forall|d: &DateTime<Tz>| predicate.requires((d,)), forall|d: &DateTime<Tz>, o: bool| predicate.ensures((d,), o) ==> o == p(d@.days)
  ensures r@ == (Dtm { days: next_day(p, date@.days), ns: date@.ns }), date@.days <= r@.days <= date@.days + 1000
%body_start
  let ghost t0 = date@; let ghost jk = choose|jk: (int, int)| t0.days <= jk.0 <= jk.1 <= t0.days + 1000 && !(#[trigger] p(jk.0)) && #[trigger] p(jk.1);
  proof { let (j, k) = choose|j: int, k: int| t0.days <= j <= k <= t0.days + 1000 && !(#[trigger] p(j)) && #[trigger] p(k); assert(!p((j, k).0) && p((j, k).1)); }
%loop 0
  invariant date@.ns == t0.ns, t0.days <= date@.days <= jk.0, forall|i: int| t0.days <= i < date@.days ==> #[trigger] p(i)
  decreases jk.0 - date@.days
%loop_start 0
  proof { lemma_days(date@, 1); lemma_near(Dtm { days: date@.days + 1, ns: date@.ns }); }
%after_loop 0
  let ghost j0 = date@.days;
%loop 1
  invariant date@.ns == t0.ns, t0.days <= j0 <= date@.days <= jk.1, j0 <= jk.0, !p(j0), forall|i: int| t0.days <= i < j0 ==> #[trigger] p(i), forall|i: int| j0 <= i < date@.days ==> !(#[trigger] p(i))
  decreases jk.1 - date@.days
%loop_start 1
  proof { lemma_days(date@, 1); lemma_near(Dtm { days: date@.days + 1, ns: date@.ns }); }
%tail
  proof { assert(walk_up(p, t0.days, j0, date@.days)); lemma_next_day(p, t0.days, j0, date@.days); }
%fn adjust_date_down_to
%attr #[verifier::loop_isolation(false)]
%sub `fn(&DateTime<Tz>) -> bool` => `impl Fn(&DateTime<Tz>) -> bool, Ghost(p): Ghost<spec_fn(int) -> bool>`
%sig
  requires near(Dtm { days: date@.days - 2000, ns: date@.ns }), near(Dtm { days: date@.days + 2000, ns: date@.ns }), turns_down(p, date@.days), forall|d: &DateTime<Tz>| predicate.requires((d,)), forall|d: &DateTime<Tz>, o: bool| predicate.ensures((d,), o) ==> o == p(d@.days)
  ensures r@ == (Dtm { days: last_day(p, date@.days), ns: date@.ns }), date@.days - 1000 <= r@.days <= date@.days
%body_start
  let ghost t0 = date@; let ghost jk = choose|jk: (int, int)| t0.days >= jk.0 >= jk.1 >= t0.days - 1000 && !(#[trigger] p(jk.0)) && #[trigger] p(jk.1);
  proof { let (j, k) = choose|j: int, k: int| t0.days >= j >= k >= t0.days - 1000 && !(#[trigger] p(j)) && #[trigger] p(k); assert(!p((j, k).0) && p((j, k).1)); }
%loop 0
  invariant date@.ns == t0.ns, t0.days >= date@.days >= jk.0, forall|i: int| t0.days >= i > date@.days ==> #[trigger] p(i)
  decreases date@.days - jk.0
%loop_start 0
  proof { lemma_days(date@, -1); lemma_near(Dtm { days: date@.days - 1, ns: date@.ns }); }
%after_loop 0
  let ghost j0 = date@.days;
%loop 1
  invariant date@.ns == t0.ns, t0.days >= j0 >= date@.days >= jk.1, j0 >= jk.0, !p(j0), forall|i: int| t0.days >= i > j0 ==> #[trigger] p(i), forall|i: int| j0 >= i > date@.days ==> !(#[trigger] p(i))
  decreases date@.days - jk.1
%loop_start 1
  proof { lemma_days(date@, -1); lemma_near(Dtm { days: date@.days - 1, ns: date@.ns }); }
%tail
  proof { assert(walk_down(p, t0.days, j0, date@.days)); lemma_last_day(p, t0.days, j0, date@.days); }
%prelude
verus! {
/// an amount that is no Duration can not be represented either
pub open spec fn dur_fact(v: int, ms: int, t: Dtm) -> bool { (v > i64::MAX || !dur_ok(v, ms)) ==> !representable(shift(t, v * (ms * 1_000_000))) && !representable(shift(t, -(v * (ms * 1_000_000)))) }
pub proof fn lemma_dur(v: int, ms: int, t: Dtm) requires representable(t), 0 <= v <= u64::MAX, ms >= 1 ensures dur_fact(v, ms, t) {
  if v > i64::MAX || !dur_ok(v, ms) {
    assert(!dur_ok(v, ms)) by (nonlinear_arith) requires v > i64::MAX || !dur_ok(v, ms), ms >= 1 { }
    assert(!dur_ok(-v, ms)) by (nonlinear_arith) requires !dur_ok(v, ms), v >= 0, ms >= 1 { }
    assert(v * ms * 1_000_000 == v * (ms * 1_000_000)) by (nonlinear_arith) { }
    assert((-v) * ms * 1_000_000 == -(v * (ms * 1_000_000))) by (nonlinear_arith) { }
    lemma_too_far(t, v, ms); lemma_too_far(t, -v, ms); } }
pub proof fn fact_days(v: int, t: Dtm) requires representable(t), 0 <= v <= u64::MAX
  ensures v > i64::MAX || !dur_ok(v, 86_400_000) ==> !representable(shift(t, v * 86_400_000_000_000)) && !representable(shift(t, -(v * 86_400_000_000_000))),
    v > i64::MAX || !dur_ok(v, 604_800_000) ==> !representable(shift(t, v * 604_800_000_000_000)) && !representable(shift(t, -(v * 604_800_000_000_000))),
{ hide(shift); lemma_dur(v, 86_400_000, t); lemma_dur(v, 604_800_000, t); }
pub proof fn fact_months(v: int, t: Dtm) requires representable(t), 0 <= v <= u64::MAX
  ensures v > 10_000_000 ==> !representable(months_on(t, v)) && !representable(months_on(t, -v)), v * 12 > 10_000_000 ==> !representable(months_on(t, v * 12)) && !representable(months_on(t, -(v * 12)))
{ hide(months_on); if v > 10_000_000 { lemma_months_too_far(t, v); lemma_months_too_far(t, -v); } if v * 12 > 10_000_000 { lemma_months_too_far(t, v * 12); lemma_months_too_far(t, -(v * 12)); } }
pub proof fn fact_times(v: int, t: Dtm) requires representable(t), 0 <= v <= u64::MAX
  ensures v > i64::MAX || !dur_ok(v, 3_600_000) ==> !representable(shift(t, v * 3_600_000_000_000)) && !representable(shift(t, -(v * 3_600_000_000_000))),
    v > i64::MAX || !dur_ok(v, 60_000) ==> !representable(shift(t, v * 60_000_000_000)) && !representable(shift(t, -(v * 60_000_000_000))),
    v > i64::MAX || !dur_ok(v, 1000) ==> !representable(shift(t, v * 1_000_000_000)) && !representable(shift(t, -(v * 1_000_000_000))),
    v > i64::MAX || !dur_ok(v, 1) ==> !representable(shift(t, v * 1_000_000)) && !representable(shift(t, -(v * 1_000_000))),
{ hide(shift); lemma_dur(v, 3_600_000, t); lemma_dur(v, 60_000, t); lemma_dur(v, 1000, t); lemma_dur(v, 1, t); }
/// all times of a day near enough can be represented
pub proof fn fact_hours(t: Dtm) ensures near(t) ==> forall|x: Dtm| x.days == t.days && 0 <= x.ns < day_ns() ==> #[trigger] representable(x)
{ if near(t) { assert forall|x: Dtm| x.days == t.days && 0 <= x.ns < day_ns() implies #[trigger] representable(x) by { lemma_near(x); } } }
pub proof fn fact_start(t: Dtm) requires near(Dtm { days: t.days - 2000, ns: t.ns }), near(Dtm { days: t.days + 2000, ns: t.ns })
  ensures forall|d: int| t.days - 1000 <= d <= t.days ==> representable(Dtm { days: month_start(#[trigger] month_index(d)), ns: t.ns })
{ hide(month_start); hide(month_index); assert forall|d: int| t.days - 1000 <= d <= t.days implies representable(Dtm { days: month_start(#[trigger] month_index(d)), ns: t.ns }) by { lemma_month_index(d); lemma_month_len(month_index(d)); assert(month_start(month_index(d) + 1) - month_start(month_index(d)) <= 31); lemma_near(Dtm { days: month_start(month_index(d)), ns: t.ns }); } }
pub proof fn fact_near(t: Dtm) requires near(Dtm { days: t.days - 2000, ns: t.ns }), near(Dtm { days: t.days + 2000, ns: t.ns })
  ensures forall|x: Dtm| t.days - 2000 <= x.days <= t.days + 2000 && x.ns == t.ns ==> #[trigger] representable(x)
{ assert forall|x: Dtm| t.days - 2000 <= x.days <= t.days + 2000 && x.ns == t.ns implies #[trigger] representable(x) by { lemma_near(x); } }
pub proof fn fact_turns(t: Dtm)
  ensures forall|w: Weekday| turns_up(#[trigger] on_day(w), t.days) && turns_down(on_day(w), t.days), forall|m: int| 1 <= m <= 12 ==> turns_up(#[trigger] in_mon(m), t.days) && turns_down(in_mon(m), t.days)
{ hide(turns_up); hide(turns_down); hide(on_day); hide(in_mon);
  assert forall|w: Weekday| turns_up(#[trigger] on_day(w), t.days) && turns_down(on_day(w), t.days) by { lemma_week(w, t.days); }
  assert forall|m: int| 1 <= m <= 12 implies turns_up(#[trigger] in_mon(m), t.days) && turns_down(in_mon(m), t.days) by { lemma_mon_up(m, t.days); lemma_mon_down(m, t.days); } }
}
%fn forward_date_by
%opt
%sub `i64::try_from(adjustment.value)` => `vx_i64(adjustment.value)`
%closure 5 |d: &DateTime<Tz>| -> (o: bool) ensures o == on_day(Weekday::Mon)(d@.days) ;; ;; , Ghost(on_day(Weekday::Mon))
%closure 6 |d: &DateTime<Tz>| -> (o: bool) ensures o == on_day(Weekday::Tue)(d@.days) ;; ;; , Ghost(on_day(Weekday::Tue))
%closure 7 |d: &DateTime<Tz>| -> (o: bool) ensures o == on_day(Weekday::Wed)(d@.days) ;; ;; , Ghost(on_day(Weekday::Wed))
%closure 8 |d: &DateTime<Tz>| -> (o: bool) ensures o == on_day(Weekday::Thu)(d@.days) ;; ;; , Ghost(on_day(Weekday::Thu))
%closure 9 |d: &DateTime<Tz>| -> (o: bool) ensures o == on_day(Weekday::Fri)(d@.days) ;; ;; , Ghost(on_day(Weekday::Fri))
%closure 10 |d: &DateTime<Tz>| -> (o: bool) ensures o == on_day(Weekday::Sat)(d@.days) ;; ;; , Ghost(on_day(Weekday::Sat))
%closure 11 |d: &DateTime<Tz>| -> (o: bool) ensures o == on_day(Weekday::Sun)(d@.days) ;; ;; , Ghost(on_day(Weekday::Sun))
%closure 12 |d: &DateTime<Tz>| -> (o: bool) ensures o == in_mon(1)(d@.days) ;; ;; , Ghost(in_mon(1))
%closure 13 |d: &DateTime<Tz>| -> (o: bool) ensures o == in_mon(2)(d@.days) ;; ;; , Ghost(in_mon(2))
%closure 14 |d: &DateTime<Tz>| -> (o: bool) ensures o == in_mon(3)(d@.days) ;; ;; , Ghost(in_mon(3))
%closure 15 |d: &DateTime<Tz>| -> (o: bool) ensures o == in_mon(4)(d@.days) ;; ;; , Ghost(in_mon(4))
%closure 16 |d: &DateTime<Tz>| -> (o: bool) ensures o == in_mon(5)(d@.days) ;; ;; , Ghost(in_mon(5))
%closure 17 |d: &DateTime<Tz>| -> (o: bool) ensures o == in_mon(6)(d@.days) ;; ;; , Ghost(in_mon(6))
%closure 18 |d: &DateTime<Tz>| -> (o: bool) ensures o == in_mon(7)(d@.days) ;; ;; , Ghost(in_mon(7))
%closure 19 |d: &DateTime<Tz>| -> (o: bool) ensures o == in_mon(8)(d@.days) ;; ;; , Ghost(in_mon(8))
%closure 20 |d: &DateTime<Tz>| -> (o: bool) ensures o == in_mon(9)(d@.days) ;; ;; , Ghost(in_mon(9))
%closure 21 |d: &DateTime<Tz>| -> (o: bool) ensures o == in_mon(10)(d@.days) ;; ;; , Ghost(in_mon(10))
%closure 22 |d: &DateTime<Tz>| -> (o: bool) ensures o == in_mon(11)(d@.days) ;; ;; , Ghost(in_mon(11))
%closure 23 |d: &DateTime<Tz>| -> (o: bool) ensures o == in_mon(12)(d@.days) ;; ;; , Ghost(in_mon(12))
%sig
  requires representable(date@), unit_like(adjustment.adjustment_type) || (adjustment.value <= i64::MAX && near(Dtm { days: date@.days - 2000, ns: date@.ns }) && near(Dtm { days: date@.days + 2000, ns: date@.ns }))
  ensures r is Ok == d_move(1, adjustment.adjustment_type, adjustment.value as int, date@) is Some, r is Ok ==> Some(r->Ok_0@) == d_move(1, adjustment.adjustment_type, adjustment.value as int, date@) && representable(r->Ok_0@)
%body_start
  hide(shift); hide(months_on); hide(month_start); hide(month_index); hide(turns_up); hide(turns_down); hide(next_day); hide(last_day);
  proof { fact_days(adjustment.value as int, date@); fact_months(adjustment.value as int, date@); fact_turns(date@); if near(Dtm { days: date@.days - 2000, ns: date@.ns }) && near(Dtm { days: date@.days + 2000, ns: date@.ns }) { fact_near(date@); } }
%fn reverse_date_by
%opt
%sub `i64::try_from(adjustment.value)` => `vx_i64(adjustment.value)`
%closure 5 |d: &DateTime<Tz>| -> (o: bool) ensures o == on_day(Weekday::Mon)(d@.days) ;; ;; , Ghost(on_day(Weekday::Mon))
%closure 6 |d: &DateTime<Tz>| -> (o: bool) ensures o == on_day(Weekday::Tue)(d@.days) ;; ;; , Ghost(on_day(Weekday::Tue))
%closure 7 |d: &DateTime<Tz>| -> (o: bool) ensures o == on_day(Weekday::Wed)(d@.days) ;; ;; , Ghost(on_day(Weekday::Wed))
%closure 8 |d: &DateTime<Tz>| -> (o: bool) ensures o == on_day(Weekday::Thu)(d@.days) ;; ;; , Ghost(on_day(Weekday::Thu))
%closure 9 |d: &DateTime<Tz>| -> (o: bool) ensures o == on_day(Weekday::Fri)(d@.days) ;; ;; , Ghost(on_day(Weekday::Fri))
%closure 10 |d: &DateTime<Tz>| -> (o: bool) ensures o == on_day(Weekday::Sat)(d@.days) ;; ;; , Ghost(on_day(Weekday::Sat))
%closure 11 |d: &DateTime<Tz>| -> (o: bool) ensures o == on_day(Weekday::Sun)(d@.days) ;; ;; , Ghost(on_day(Weekday::Sun))
%closure 13 |d: &DateTime<Tz>| -> (o: bool) ensures o == in_mon(1)(d@.days) ;; ;; , Ghost(in_mon(1))
%closure 15 |d: &DateTime<Tz>| -> (o: bool) ensures o == in_mon(2)(d@.days) ;; ;; , Ghost(in_mon(2))
%closure 17 |d: &DateTime<Tz>| -> (o: bool) ensures o == in_mon(3)(d@.days) ;; ;; , Ghost(in_mon(3))
%closure 19 |d: &DateTime<Tz>| -> (o: bool) ensures o == in_mon(4)(d@.days) ;; ;; , Ghost(in_mon(4))
%closure 21 |d: &DateTime<Tz>| -> (o: bool) ensures o == in_mon(5)(d@.days) ;; ;; , Ghost(in_mon(5))
%closure 23 |d: &DateTime<Tz>| -> (o: bool) ensures o == in_mon(6)(d@.days) ;; ;; , Ghost(in_mon(6))
%closure 25 |d: &DateTime<Tz>| -> (o: bool) ensures o == in_mon(7)(d@.days) ;; ;; , Ghost(in_mon(7))
%closure 27 |d: &DateTime<Tz>| -> (o: bool) ensures o == in_mon(8)(d@.days) ;; ;; , Ghost(in_mon(8))
%closure 29 |d: &DateTime<Tz>| -> (o: bool) ensures o == in_mon(9)(d@.days) ;; ;; , Ghost(in_mon(9))
%closure 31 |d: &DateTime<Tz>| -> (o: bool) ensures o == in_mon(10)(d@.days) ;; ;; , Ghost(in_mon(10))
%closure 33 |d: &DateTime<Tz>| -> (o: bool) ensures o == in_mon(11)(d@.days) ;; ;; , Ghost(in_mon(11))
%closure 35 |d: &DateTime<Tz>| -> (o: bool) ensures o == in_mon(12)(d@.days) ;; ;; , Ghost(in_mon(12))
%sig
  requires representable(date@), unit_like(adjustment.adjustment_type) || (adjustment.value <= i64::MAX && near(Dtm { days: date@.days - 2000, ns: date@.ns }) && near(Dtm { days: date@.days + 2000, ns: date@.ns }))
  ensures r is Ok == d_move(-1, adjustment.adjustment_type, adjustment.value as int, date@) is Some, r is Ok ==> Some(r->Ok_0@) == d_move(-1, adjustment.adjustment_type, adjustment.value as int, date@) && representable(r->Ok_0@)
%body_start
  hide(shift); hide(months_on); hide(month_start); hide(month_index); hide(turns_up); hide(turns_down); hide(next_day); hide(last_day);
  proof { fact_days(adjustment.value as int, date@); fact_months(adjustment.value as int, date@); fact_turns(date@); if !unit_like(adjustment.adjustment_type) { fact_start(date@); } if near(Dtm { days: date@.days - 2000, ns: date@.ns }) && near(Dtm { days: date@.days + 2000, ns: date@.ns }) { fact_near(date@); } }
%fn execute_date_expression
%attr #[verifier::loop_isolation(false)]
%sig
  requires sane(dt@)
  ensures r is Ok == date_meaning(dt@, expression@) is Some, r is Ok ==> Some(r->Ok_0@) == date_meaning(dt@, expression@), r is Ok ==> representable(r->Ok_0@)
%body_start
  hide(d_move); hide(date_expr);
  let ghost e = date_expr(d_tokens(expression@)); proof { lemma_units(d_tokens(expression@)); lemma_near(dt@); }
%before_loop 0
  let ghost t0 = date@;
  proof { lemma_near(t0); }
%loop 0 it
  invariant it.seq().len() == (e->0).1.len(), e is Some, forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == (e->0).1[i], near(t0), near(Dtm { days: t0.days - 2000, ns: t0.ns }), near(Dtm { days: t0.days + 2000, ns: t0.ns }), t0 == base_day((e->0).0, dt@), d_fold(t0, (e->0).1.take(it.index@)) == Some(date@), representable(date@), it.index@ == 0 ==> date@ == t0
%loop_start 0
  proof { let k = it.index@; assert((e->0).1.take(k + 1).drop_last() =~= (e->0).1.take(k)); if d_move(sgn(adjustment.operation), adjustment.adjustment_type, adjustment.value as int, date@) is None { assert(d_fold(t0, (e->0).1.take(k + 1)) is None); lemma_d_none(t0, (e->0).1, k + 1); } }
%tail
  proof { assert((e->0).1.take((e->0).1.len() as int) =~= (e->0).1); }
%fn execute_time_expression
%attr #[verifier::loop_isolation(false)]
%opt
%sub `i64::try_from(adjustment.value)` => `vx_i64(adjustment.value)`
%closure 0 |t: DateTime<Tz>| -> (o: Option<DateTime<Tz>>) ensures ov(o) == if_fits(Dtm { days: t@.days, ns: t@.ns / 60_000_000_000 * 60_000_000_000 + t@.ns % 1_000_000_000 })
%closure 1 |t: DateTime<Tz>| -> (o: Option<DateTime<Tz>>) ensures ov(o) == if_fits(Dtm { days: t@.days, ns: t@.ns / 1_000_000_000 * 1_000_000_000 })
%sig
  requires representable(dt@)
  ensures near(dt@) ==> r is Ok == time_meaning(dt@, expression@) is Some, near(dt@) && r is Ok ==> Some(r->Ok_0@) == time_meaning(dt@, expression@)
%body_start
  hide(t_move); hide(time_expr); hide(shift); hide(months_on); hide(month_start); hide(month_index);
  let ghost e = time_expr(t_tokens(expression@)); proof { lemma_hour(t_tokens(expression@)); axiom_range(dt@); lemma_hour_start(dt@.ns); fact_hours(dt@); }
%before_loop 0
  let ghost t0 = date_time@;
  proof { assert(near(dt@) ==> t0 == base_clock((e->0).0, dt@)); }
%loop 0 it
  invariant it.seq().len() == (e->0).1.len(), e is Some, forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == (e->0).1[i], near(dt@) ==> t0 == base_clock((e->0).0, dt@), t_fold(t0, (e->0).1.take(it.index@)) == Some(date_time@), representable(date_time@)
%loop_start 0
  proof { let k = it.index@; assert((e->0).1.take(k + 1).drop_last() =~= (e->0).1.take(k)); fact_times(adjustment.value as int, date_time@); if t_move(sgn(adjustment.operation), adjustment.adjustment_type, adjustment.value as int, date_time@) is None { assert(t_fold(t0, (e->0).1.take(k + 1)) is None); lemma_t_none(t0, (e->0).1, k + 1); } reveal(t_move); }
%tail
  proof { assert((e->0).1.take((e->0).1.len() as int) =~= (e->0).1); }
%fn execute_datetime_expression
%sub `expression.split_once("@")` => `vx_split_char(expression, "@")`
%sig
  requires sane(dt@)
  ensures dt_ok(dt@, expression@) ==> r is Ok == datetime_meaning(dt@, expression@) is Some && (r is Ok ==> Some(r->Ok_0@) == datetime_meaning(dt@, expression@))
%body_start
  hide(time_meaning); proof { lemma_near(dt@); reveal_strlit("@"); assert("@"@ =~= seq!['@']); }
