verus! {
/// the tokens of a text (logos): None is something that is no token
pub uninterp spec fn d_tokens(s: Seq<char>) -> Seq<Option<DTok>>;
pub uninterp spec fn t_tokens(s: Seq<char>) -> Seq<Option<TTok>>;
impl DateExpressionToken { #[verifier::external_body] pub fn lexer(s: &str) -> (r: Lexer<DateExpressionToken>) ensures r@.rest == d_tokens(s@) { unimplemented!() } }
impl TimeExpressionToken { #[verifier::external_body] pub fn lexer(s: &str) -> (r: Lexer<TimeExpressionToken>) ensures r@.rest == t_tokens(s@) { unimplemented!() } }
pub open spec fn sgn(o: Operation) -> int { match o { Operation::PLUS => 1, Operation::MINUS => -1 } }
pub open spec fn unit_ms(u: TimeOffsetType) -> int { match u { TimeOffsetType::HOUR => 3_600_000, TimeOffsetType::MINUTE => 60_000, TimeOffsetType::SECOND => 1000, TimeOffsetType::MILLISECOND => 1 } }
/// the Monday (June) after or before
pub open spec fn the_day(f: int, w: Weekday, t: Dtm) -> Dtm { Dtm { days: if f > 0 { next_day(on_day(w), t.days) } else { last_day(on_day(w), t.days) }, ns: t.ns } }
pub open spec fn the_month(f: int, m: int, t: Dtm) -> Dtm { Dtm { days: if f > 0 { next_day(in_mon(m), t.days) } else { month_start(month_index(last_day(in_mon(m), t.days))) }, ns: t.ns } }
/// the time an adjustment (f: 1 forwards, -1 backwards) leads to; None: it can not be represented
pub open spec fn d_move(f: int, u: DateOffsetType, v: int, t: Dtm) -> Option<Dtm> { match u {
  DateOffsetType::DAY => if_fits(shift(t, f * v * 86_400_000_000_000)), DateOffsetType::WEEK => if_fits(shift(t, f * v * 604_800_000_000_000)),
  DateOffsetType::MONTH => if_fits(months_on(t, f * v)), DateOffsetType::YEAR => if_fits(months_on(t, f * v * 12)),
  DateOffsetType::MONDAY => Some(the_day(f, Weekday::Mon, t)), DateOffsetType::TUESDAY => Some(the_day(f, Weekday::Tue, t)), DateOffsetType::WEDNESDAY => Some(the_day(f, Weekday::Wed, t)), DateOffsetType::THURSDAY => Some(the_day(f, Weekday::Thu, t)), DateOffsetType::FRIDAY => Some(the_day(f, Weekday::Fri, t)), DateOffsetType::SATURDAY => Some(the_day(f, Weekday::Sat, t)), DateOffsetType::SUNDAY => Some(the_day(f, Weekday::Sun, t)),
  DateOffsetType::JAN => Some(the_month(f, 1, t)), DateOffsetType::FEB => Some(the_month(f, 2, t)), DateOffsetType::MAR => Some(the_month(f, 3, t)), DateOffsetType::APR => Some(the_month(f, 4, t)), DateOffsetType::MAY => Some(the_month(f, 5, t)), DateOffsetType::JUNE => Some(the_month(f, 6, t)),
  DateOffsetType::JULY => Some(the_month(f, 7, t)), DateOffsetType::AUG => Some(the_month(f, 8, t)), DateOffsetType::SEP => Some(the_month(f, 9, t)), DateOffsetType::OCT => Some(the_month(f, 10, t)), DateOffsetType::NOV => Some(the_month(f, 11, t)), DateOffsetType::DEC => Some(the_month(f, 12, t)) } }
pub open spec fn unit_like(u: DateOffsetType) -> bool { u is DAY || u is WEEK || u is MONTH || u is YEAR }
pub open spec fn t_move(f: int, u: TimeOffsetType, v: int, t: Dtm) -> Option<Dtm> { if_fits(shift(t, f * v * unit_ms(u) * 1_000_000)) }
pub open spec fn base_day(b: DateBase, t: Dtm) -> Dtm { match b { DateBase::NOW | DateBase::TODAY => t, DateBase::YESTERDAY => Dtm { days: t.days - 1, ns: t.ns }, DateBase::TOMORROW => Dtm { days: t.days + 1, ns: t.ns } } }
pub open spec fn base_clock(b: TimeBase, t: Dtm) -> Dtm { match b { TimeBase::Now => t, TimeBase::Midnight => at_hour(t, 0), TimeBase::Noon => at_hour(t, 12), TimeBase::Am { hour } => at_hour(t, hour as int), TimeBase::Pm { hour } => at_hour(t, 12 + hour as int % 12),
  TimeBase::Next { hour } => at_hour(t, if t.ns < 12 * 3_600_000_000_000 { 12 + hour as int % 12 } else { hour as int }) } }
/// all adjustments in order
pub open spec fn d_fold(t: Dtm, a: Seq<DAdj>) -> Option<Dtm> decreases a.len() { if a.len() == 0 { Some(t) } else { match d_fold(t, a.drop_last()) { Some(x) => d_move(sgn(a.last().operation), a.last().adjustment_type, a.last().value as int, x), None => None } } }
pub open spec fn t_fold(t: Dtm, a: Seq<TAdj>) -> Option<Dtm> decreases a.len() { if a.len() == 0 { Some(t) } else { match t_fold(t, a.drop_last()) { Some(x) => t_move(sgn(a.last().operation), a.last().adjustment_type, a.last().value as int, x), None => None } } }
/// the time a text means for a base time; None: no expression, or a time that can not be represented
pub open spec fn date_meaning(t: Dtm, s: Seq<char>) -> Option<Dtm> { if s.len() == 0 { Some(t) } else { match date_expr(d_tokens(s)) { Some(e) => d_fold(base_day(e.0, t), e.1), None => None } } }
pub open spec fn time_meaning(t: Dtm, s: Seq<char>) -> Option<Dtm> { if s.len() == 0 { Some(t) } else { match time_expr(t_tokens(s)) { Some(e) => t_fold(base_clock(e.0, t), e.1), None => None } } }
pub open spec fn datetime_meaning(t: Dtm, s: Seq<char>) -> Option<Dtm> { if !s.contains('@') { date_meaning(t, s) } else { let i = s.index_of_first('@')->0; match date_meaning(t, s.take(i)) { Some(d) => time_meaning(d, s.skip(i + 1)), None => None } } }
/// the date part leads to a date well inside of what can be represented
pub open spec fn dt_ok(t: Dtm, s: Seq<char>) -> bool { s.contains('@') ==> (match date_meaning(t, s.take(s.index_of_first('@')->0)) { Some(d) => near(d), None => true }) }
/// well inside of what can be represented
pub open spec fn sane(t: Dtm) -> bool { -94_000_000 <= t.days <= 94_000_000 && 0 <= t.ns < day_ns() }
pub open spec fn near(t: Dtm) -> bool { -94_050_000 <= t.days <= 94_050_000 && 0 <= t.ns < day_ns() }
pub proof fn lemma_near(t: Dtm) ensures near(t) ==> representable(t) { axiom_range(t); }
pub proof fn lemma_d_none(t: Dtm, a: Seq<DAdj>, n: int) requires 0 <= n <= a.len(), d_fold(t, a.take(n)) is None ensures d_fold(t, a) is None decreases a.len() { if n == a.len() { assert(a.take(n) =~= a); } else { assert(a.drop_last().take(n) =~= a.take(n)); lemma_d_none(t, a.drop_last(), n); } }
pub proof fn lemma_t_none(t: Dtm, a: Seq<TAdj>, n: int) requires 0 <= n <= a.len(), t_fold(t, a.take(n)) is None ensures t_fold(t, a) is None decreases a.len() { if n == a.len() { assert(a.take(n) =~= a); } else { assert(a.drop_last().take(n) =~= a.take(n)); lemma_t_none(t, a.drop_last(), n); } }
pub proof fn lemma_steps_units(s: Seq<Option<DTok>>) ensures d_steps(s) is Some ==> forall|i: int| 0 <= i < (d_steps(s)->0).len() ==> unit_like((#[trigger] (d_steps(s)->0)[i]).adjustment_type) decreases s.len() { if s.len() >= 3 { lemma_steps_units(s.skip(3)); if d_steps(s) is Some { let r = d_steps(s.skip(3))->0; let all = d_steps(s)->0; assert(all =~= seq![d_step(s)->0] + r); assert forall|i: int| 0 <= i < all.len() implies unit_like((#[trigger] all[i]).adjustment_type) by { if i > 0 { assert(all[i] == r[i - 1]); } } } } }
/// only the first adjustment can be a day of the week or a month, and then the base is now
pub open spec fn first_ok(b: DateBase, a: Seq<DAdj>) -> bool { a.len() > 0 && !unit_like(a[0].adjustment_type) ==> a[0].value == 1 && b == DateBase::NOW }
pub proof fn lemma_units(s: Seq<Option<DTok>>) ensures date_expr(s) is Some ==> first_ok((date_expr(s)->0).0, (date_expr(s)->0).1), date_expr(s) is Some ==> forall|i: int| 1 <= i < (date_expr(s)->0).1.len() ==> unit_like((#[trigger] (date_expr(s)->0).1[i]).adjustment_type) {
  lemma_steps_units(s); lemma_steps_units(s.skip(1)); lemma_steps_units(s.skip(2)); if date_expr(s) is Some { let a = (date_expr(s)->0).1; let r = d_steps(s.skip(2))->0; assert forall|i: int| 1 <= i < a.len() implies unit_like((#[trigger] a[i]).adjustment_type) by { if d_at(s, 0)->0 is Next || d_at(s, 0)->0 is Last { assert(a[i] == r[i - 1]); } } } }
pub assume_specification<T> [ Option::<Option<T>>::flatten ](o: Option<Option<T>>) -> (r: Option<T>) ensures r == (match o { Some(x) => x, None => None });
/// the base of a time expression is at a full hour of the same day, or now
pub open spec fn hour_ok(b: TimeBase) -> bool { match b { TimeBase::Am { hour } => 1 <= hour <= 12, TimeBase::Pm { hour } => 1 <= hour <= 12, TimeBase::Next { hour } => 1 <= hour <= 12, _ => true } }
pub proof fn lemma_hour(s: Seq<Option<TTok>>) ensures time_expr(s) is Some ==> hour_ok((time_expr(s)->0).0) { }
/// the full hour before a time of the day
pub proof fn lemma_hour_start(n: int) requires 0 <= n < day_ns() ensures ({ let a = n / 3_600_000_000_000 * 3_600_000_000_000 + n % 60_000_000_000; let b = a / 60_000_000_000 * 60_000_000_000 + a % 1_000_000_000; let c = b / 1_000_000_000 * 1_000_000_000; 0 <= a < day_ns() && 0 <= b < day_ns() && 0 <= c < day_ns() && c % 3_600_000_000_000 == 0 }) {
  let h = n / 3_600_000_000_000; let m = n % 60_000_000_000; let a = h * 3_600_000_000_000 + m; assert(a / 60_000_000_000 == h * 60); let x = m % 1_000_000_000; assert(a % 1_000_000_000 == x); let b = h * 3_600_000_000_000 + x; assert(b / 1_000_000_000 == h * 3600); }
#[verifier::external_body] pub fn vx_split_char<'a>(s: &'a str, c: &str) -> (r: Option<(&'a str, &'a str)>) requires c@ == seq!['@']
  ensures r is None == !s@.contains('@'), r is Some ==> (r->0).0@ == s@.take(s@.index_of_first('@')->0) && (r->0).1@ == s@.skip(s@.index_of_first('@')->0 + 1) { unimplemented!() }
#[verifier::external_body] pub fn vx_i64(n: u64) -> (r: Result<i64, VxError>) ensures r is Ok == (n <= i64::MAX), r is Ok ==> r->Ok_0 == n { unimplemented!() }
#[verifier::external_body] pub fn vx_u32(n: u64) -> (r: Option<u32>) ensures r is Some == (n <= u32::MAX), r is Some ==> r->0 == n { unimplemented!() }
#[verifier::external_body] pub fn vx_abs(n: i64) -> (r: u64) ensures r == (if n < 0 { -(n as int) } else { n as int }) { unimplemented!() }
}
