// ---- the calendar and chrono's local times ----
verus! {
/// a local time: days since 1970-01-01 and nanoseconds of the day
pub ghost struct Dtm { pub days: int, pub ns: int }
pub open spec fn day_ns() -> int { 86_400_000_000_000 }
/// the first day of a month of the Gregorian calendar, months counted from January of year 0
pub open spec fn month_start(k: int) -> int { let y = (k - 2) / 12; let m = (k - 2) % 12; 365 * y + leaps(y) + march_days(m) - 719468 }
#[verifier::opaque] pub open spec fn leaps(y: int) -> int { y / 4 - y / 100 + y / 400 }
#[verifier::opaque] pub open spec fn march_days(m: int) -> int { (153 * m + 2) / 5 }
pub proof fn lemma_leap(y: int) ensures 0 <= leaps(y + 1) - leaps(y) <= 1 { reveal(leaps); let (a, b, c) = ((y + 1) / 4 - y / 4, (y + 1) / 100 - y / 100, (y + 1) / 400 - y / 400); assert(0 <= a <= 1 && 0 <= b <= 1 && 0 <= c <= 1); assert(b == 1 ==> a == 1); assert(c == 1 ==> b == 1); }
pub proof fn lemma_march(m: int) requires 0 <= m < 11 ensures 30 <= march_days(m + 1) - march_days(m) <= 31 { reveal(march_days); }
pub proof fn lemma_year_month(k: int) ensures ({ let y = (k - 2) / 12; let m = (k - 2) % 12; 0 <= m < 12 && (m < 11 ==> (k - 1) / 12 == y && (k - 1) % 12 == m + 1) && (m == 11 ==> (k - 1) / 12 == y + 1 && (k - 1) % 12 == 0) }) { }
pub proof fn lemma_month_len(k: int) ensures 28 <= #[trigger] month_start(k + 1) - month_start(k) <= 31 {
  let y = (k - 2) / 12; let m = (k - 2) % 12; lemma_year_month(k); assert(month_start(k) == 365 * y + leaps(y) + march_days(m) - 719468);
  if m < 11 { assert(month_start(k + 1) == 365 * y + leaps(y) + march_days(m + 1) - 719468); lemma_march(m); }
  else { assert(month_start(k + 1) == 365 * (y + 1) + leaps(y + 1) + march_days(0) - 719468); lemma_leap(y); assert(march_days(0) == 0 && march_days(11) == 337) by { reveal(march_days); } }
}
pub proof fn lemma_months_apart(j: int, k: int) requires j <= k ensures 28 * (k - j) <= month_start(k) - month_start(j) <= 31 * (k - j) decreases k - j { if j < k { lemma_months_apart(j, k - 1); lemma_month_len(k - 1); assert(month_start(k - 1 + 1) - month_start(k - 1) >= 28); } }
pub open spec fn in_month(d: int, k: int) -> bool { month_start(k) <= d < month_start(k + 1) }
pub proof fn lemma_in_month(d: int, j: int, k: int) requires in_month(d, j), in_month(d, k) ensures j == k { if j < k { lemma_months_apart(j + 1, k); } if k < j { lemma_months_apart(k + 1, j); } }
pub proof fn lemma_some_month(d: int) ensures exists|k: int| in_month(d, k) {
  let z = month_start(0); if d >= z { lemma_months_apart(0, d - z + 1); assert(month_start(d - z + 1) >= z + 28 * (d - z + 1)); lemma_down(d, d - z + 1, 0); } else { lemma_months_apart(d - z, 0); assert(month_start(d - z) <= z + 28 * (d - z)); lemma_down(d, 0, d - z); } }
pub proof fn lemma_down(d: int, k: int, low: int) requires d < month_start(k), month_start(low) <= d, low <= k ensures exists|k: int| in_month(d, k) decreases k - low { if low < k { if month_start(k - 1) <= d { assert(in_month(d, k - 1)); } else { lemma_down(d, k - 1, low); } } }
pub open spec fn month_index(d: int) -> int { choose|k: int| in_month(d, k) }
pub proof fn lemma_month_index(d: int) ensures in_month(d, month_index(d)) { lemma_some_month(d); }
/// 1 to 12
pub open spec fn month_of(d: int) -> int { month_index(d) % 12 + 1 }
/// the same day of the month, n months later; the last day of the month when it has no such day
pub open spec fn months_on(t: Dtm, n: int) -> Dtm { let k = month_index(t.days) + n; let at = month_start(k) + (t.days - month_start(month_index(t.days))); Dtm { days: if at < month_start(k + 1) { at } else { month_start(k + 1) - 1 }, ns: t.ns } }
/// n nanoseconds later
pub open spec fn shift(t: Dtm, n: int) -> Dtm { let all = t.days * day_ns() + t.ns + n; Dtm { days: all / day_ns(), ns: all % day_ns() } }
/// 0 is Monday
pub open spec fn week_day(d: int) -> int { (d + 3) % 7 }
/// at a full hour of the same day
pub open spec fn at_hour(t: Dtm, h: int) -> Dtm { Dtm { days: t.days, ns: h * 3_600_000_000_000 } }

// ---- chrono: times that can be represented ----
pub uninterp spec fn representable(t: Dtm) -> bool;
/// chrono's years go from -262143 to 262142
pub axiom fn axiom_range(t: Dtm) ensures representable(t) ==> -97_000_000 <= t.days <= 97_000_000 && 0 <= t.ns < day_ns(), -94_100_000 <= t.days <= 94_100_000 && 0 <= t.ns < day_ns() ==> representable(t);
pub trait TimeZone {}
/// a time in a zone without changes of its offset
#[verifier::external_body] #[verifier::reject_recursive_types(Tz)] pub struct DateTime<Tz: TimeZone> { _p: std::marker::PhantomData<Tz> }
#[derive(PartialEq, Eq, Structural)] pub enum Weekday { Mon, Tue, Wed, Thu, Fri, Sat, Sun }
pub open spec fn nth_day(w: Weekday) -> int { match w { Weekday::Mon => 0, Weekday::Tue => 1, Weekday::Wed => 2, Weekday::Thu => 3, Weekday::Fri => 4, Weekday::Sat => 5, Weekday::Sun => 6 } }
#[verifier::external_body] pub struct Duration { _p: () }
impl Clone for Duration { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for Duration {}
pub open spec fn dur_ok(n: int, ms: int) -> bool { -(i64::MAX as int) <= n * ms <= i64::MAX }
impl Duration {
  pub uninterp spec fn ns(&self) -> int;
  #[verifier::external_body] pub fn try_weeks(n: i64) -> (r: Option<Duration>) ensures r is Some == dur_ok(n as int, 604_800_000), r is Some ==> r->0.ns() == n * 604_800_000_000_000 { unimplemented!() }
  #[verifier::external_body] pub fn try_days(n: i64) -> (r: Option<Duration>) ensures r is Some == dur_ok(n as int, 86_400_000), r is Some ==> r->0.ns() == n * 86_400_000_000_000 { unimplemented!() }
  #[verifier::external_body] pub fn try_hours(n: i64) -> (r: Option<Duration>) ensures r is Some == dur_ok(n as int, 3_600_000), r is Some ==> r->0.ns() == n * 3_600_000_000_000 { unimplemented!() }
  #[verifier::external_body] pub fn try_minutes(n: i64) -> (r: Option<Duration>) ensures r is Some == dur_ok(n as int, 60_000), r is Some ==> r->0.ns() == n * 60_000_000_000 { unimplemented!() }
  #[verifier::external_body] pub fn try_seconds(n: i64) -> (r: Option<Duration>) ensures r is Some == dur_ok(n as int, 1000), r is Some ==> r->0.ns() == n * 1_000_000_000 { unimplemented!() }
  #[verifier::external_body] pub fn try_milliseconds(n: i64) -> (r: Option<Duration>) ensures r is Some == dur_ok(n as int, 1), r is Some ==> r->0.ns() == n * 1_000_000 { unimplemented!() }
}
#[verifier::external_body] pub struct Months { _p: () }
impl Months { pub uninterp spec fn n(&self) -> u32; #[verifier::external_body] pub fn new(n: u32) -> (r: Months) ensures r.n() == n { unimplemented!() } }
pub open spec fn if_fits(t: Dtm) -> Option<Dtm> { if representable(t) { Some(t) } else { None } }
pub open spec fn ov<Tz: TimeZone>(r: Option<DateTime<Tz>>) -> Option<Dtm> { match r { Some(x) => Some(x@), None => None } }
impl<Tz: TimeZone> Clone for DateTime<Tz> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<Tz: TimeZone> DateTime<Tz> {
  pub uninterp spec fn view(&self) -> Dtm;
  #[verifier::external_body] pub fn with_hour(&self, h: u32) -> (r: Option<DateTime<Tz>>) ensures ov(r) == (if h < 24 { if_fits(Dtm { days: self@.days, ns: self@.ns % 3_600_000_000_000 + h * 3_600_000_000_000 }) } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn with_minute(&self, m: u32) -> (r: Option<DateTime<Tz>>) ensures ov(r) == (if m < 60 { if_fits(Dtm { days: self@.days, ns: self@.ns / 3_600_000_000_000 * 3_600_000_000_000 + m * 60_000_000_000 + self@.ns % 60_000_000_000 }) } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn with_second(&self, s: u32) -> (r: Option<DateTime<Tz>>) ensures ov(r) == (if s < 60 { if_fits(Dtm { days: self@.days, ns: self@.ns / 60_000_000_000 * 60_000_000_000 + s * 1_000_000_000 + self@.ns % 1_000_000_000 }) } else { None }) { unimplemented!() }
  #[verifier::external_body] pub fn with_nanosecond(&self, n: u32) -> (r: Option<DateTime<Tz>>) ensures n < 1_000_000_000 ==> ov(r) == if_fits(Dtm { days: self@.days, ns: self@.ns / 1_000_000_000 * 1_000_000_000 + n }) { unimplemented!() }
  #[verifier::external_body] pub fn with_day(&self, d: u32) -> (r: Option<DateTime<Tz>>) ensures 1 <= d <= 28 ==> ov(r) == if_fits(Dtm { days: month_start(month_index(self@.days)) + d - 1, ns: self@.ns }) { unimplemented!() }
  #[verifier::external_body] pub fn hour(&self) -> (r: u32) ensures r == self@.ns / 3_600_000_000_000 { unimplemented!() }
  #[verifier::external_body] pub fn month(&self) -> (r: u32) ensures r == month_of(self@.days) { unimplemented!() }
  #[verifier::external_body] pub fn weekday(&self) -> (r: Weekday) ensures nth_day(r) == week_day(self@.days) { unimplemented!() }
  /// panics when the result can not be represented
  #[verifier::external_body] pub fn add(self, d: Duration) -> (r: DateTime<Tz>) requires representable(shift(self@, d.ns())) ensures r@ == shift(self@, d.ns()) { unimplemented!() }
  #[verifier::external_body] pub fn sub(self, d: Duration) -> (r: DateTime<Tz>) requires representable(shift(self@, -d.ns())) ensures r@ == shift(self@, -d.ns()) { unimplemented!() }
  #[verifier::external_body] pub fn checked_add_signed(self, d: Duration) -> (r: Option<DateTime<Tz>>) ensures ov(r) == if_fits(shift(self@, d.ns())) { unimplemented!() }
  #[verifier::external_body] pub fn checked_sub_signed(self, d: Duration) -> (r: Option<DateTime<Tz>>) ensures ov(r) == if_fits(shift(self@, -d.ns())) { unimplemented!() }
  #[verifier::external_body] pub fn checked_add_months(self, m: Months) -> (r: Option<DateTime<Tz>>) ensures ov(r) == if_fits(months_on(self@, m.n() as int)) { unimplemented!() }
  #[verifier::external_body] pub fn checked_sub_months(self, m: Months) -> (r: Option<DateTime<Tz>>) ensures ov(r) == if_fits(months_on(self@, -(m.n() as int))) { unimplemented!() }
}
/// n times a unit can not be represented when it is no Duration
pub proof fn lemma_too_far(t: Dtm, n: int, ms: int) requires representable(t), ms > 0, !dur_ok(n, ms) ensures !representable(shift(t, n * ms * 1_000_000)) {
  axiom_range(t); axiom_range(shift(t, n * ms * 1_000_000)); }
pub proof fn lemma_months_too_far(t: Dtm, n: int) requires representable(t), n > 10_000_000 || n < -10_000_000 ensures !representable(months_on(t, n)) {
  let d = t.days; let k = month_index(d); lemma_month_index(d); axiom_range(t); axiom_range(months_on(t, n)); lemma_month_len(k + n); lemma_month_len(k); assert(month_start(k + n + 1) - month_start(k + n) >= 28);  assert(month_start(k + 1) - month_start(k) <= 31);
  if n > 0 { lemma_months_apart(k, k + n); } else { lemma_months_apart(k + n, k); } }
pub proof fn lemma_days(t: Dtm, n: int) requires 0 <= t.ns < day_ns() ensures shift(t, n * 86_400_000_000_000) == (Dtm { days: t.days + n, ns: t.ns }) { assert((t.days + n) * day_ns() == t.days * day_ns() + n * 86_400_000_000_000); }

// ---- the next or last day with a property ----
/// walking up from d: past the days that have the property, then to the first one that has it
pub open spec fn walk_up(p: spec_fn(int) -> bool, d: int, j: int, r: int) -> bool { d <= j <= r && (forall|i: int| d <= i < j ==> #[trigger] p(i)) && (forall|i: int| j <= i < r ==> !(#[trigger] p(i))) && p(r) && !p(j) }
pub open spec fn walk_down(p: spec_fn(int) -> bool, d: int, j: int, r: int) -> bool { d >= j >= r && (forall|i: int| d >= i > j ==> #[trigger] p(i)) && (forall|i: int| j >= i > r ==> !(#[trigger] p(i))) && p(r) && !p(j) }
pub open spec fn is_next(p: spec_fn(int) -> bool, d: int, r: int) -> bool { exists|j: int| walk_up(p, d, j, r) }
pub open spec fn next_day(p: spec_fn(int) -> bool, d: int) -> int { choose|r: int| is_next(p, d, r) }
pub open spec fn is_last(p: spec_fn(int) -> bool, d: int, r: int) -> bool { exists|j: int| walk_down(p, d, j, r) }
pub open spec fn last_day(p: spec_fn(int) -> bool, d: int) -> int { choose|r: int| is_last(p, d, r) }
pub proof fn lemma_next_day(p: spec_fn(int) -> bool, d: int, j: int, r: int) requires walk_up(p, d, j, r) ensures next_day(p, d) == r { let n = next_day(p, d); assert(is_next(p, d, r)); assert(is_next(p, d, n)); let k = choose|k: int| walk_up(p, d, k, n); assert(j == k) by { if j < k { assert(p(j)); } if k < j { assert(p(k)); } } if n < r { assert(!p(n)); } if r < n { assert(!p(r)); } }
pub proof fn lemma_last_day(p: spec_fn(int) -> bool, d: int, j: int, r: int) requires walk_down(p, d, j, r) ensures last_day(p, d) == r { let n = last_day(p, d); assert(is_last(p, d, r)); assert(is_last(p, d, n)); let k = choose|k: int| walk_down(p, d, k, n); assert(j == k) by { if j > k { assert(p(j)); } if k > j { assert(p(k)); } } if n > r { assert(!p(n)); } if r > n { assert(!p(r)); } }
pub open spec fn on_day(w: Weekday) -> spec_fn(int) -> bool { |d: int| week_day(d) == nth_day(w) }
pub open spec fn in_mon(m: int) -> spec_fn(int) -> bool { |d: int| month_of(d) == m }
/// within 1000 days the property stops and comes back
pub open spec fn turns_up(p: spec_fn(int) -> bool, d: int) -> bool { exists|j: int, k: int| d <= j <= k <= d + 1000 && !(#[trigger] p(j)) && #[trigger] p(k) }
pub open spec fn turns_down(p: spec_fn(int) -> bool, d: int) -> bool { exists|j: int, k: int| d >= j >= k >= d - 1000 && !(#[trigger] p(j)) && #[trigger] p(k) }
pub proof fn lemma_week(w: Weekday, d: int) ensures turns_up(on_day(w), d), turns_down(on_day(w), d) {
  let p = on_day(w); let n = nth_day(w); let j = if week_day(d) == n { d + 1 } else { d }; let k = j + (n - week_day(j)) % 7; assert(!p(j) && p(k)); let j = if week_day(d) == n { d - 1 } else { d }; let k = j - (week_day(j) - n) % 7; assert(!p(j) && p(k)); }
pub proof fn lemma_mon_up(m: int, d: int) requires 1 <= m <= 12 ensures turns_up(in_mon(m), d) {
  let p = in_mon(m); let k = month_index(d); lemma_month_index(d); lemma_month_len(k); lemma_first(k + 1);
  let (j, a) = if k % 12 + 1 == m { (month_start(k + 1), k + 1) } else { (d, k) };
  assert(!p(j)) by { if k % 12 + 1 == m { assert((k + 1) % 12 != k % 12); } }
  let e = to_month(a, m); lemma_to_month(a, m); lemma_first(e); assert(p(month_start(e))); assert(month_index(j) == a); assert(a != e) by { assert(!p(j)); } lemma_months_apart(a + 1, e); lemma_months_apart(k, e); lemma_month_index(j);
  assert(month_start(k + 1) - month_start(k) <= 31); }
pub proof fn lemma_mon_down(m: int, d: int) requires 1 <= m <= 12 ensures turns_down(in_mon(m), d) {
  let p = in_mon(m); let k = month_index(d); lemma_month_index(d); lemma_month_len(k); lemma_first(k - 1); lemma_months_apart(k - 1, k);
  let (j, a) = if k % 12 + 1 == m { (month_start(k - 1), k - 1) } else { (d, k) };
  assert(!p(j)) by { if k % 12 + 1 == m { assert((k - 1) % 12 != k % 12); } }
  let e = to_month(a, m) - 12; lemma_to_month(a, m); lemma_first(e); assert(p(month_start(e))); assert(month_index(j) == a); lemma_months_apart(e + 1, a); lemma_months_apart(e, k + 1); lemma_month_index(j); lemma_months_apart(e, e + 1); }
pub open spec fn to_month(a: int, m: int) -> int { a + (m - 1 - a) % 12 }
pub proof fn lemma_to_month(a: int, m: int) requires 1 <= m <= 12 ensures a <= to_month(a, m) < a + 12, to_month(a, m) % 12 + 1 == m, (to_month(a, m) - 12) % 12 + 1 == m { }
pub proof fn lemma_first(k: int) ensures month_index(month_start(k)) == k { lemma_month_len(k); assert(month_start(k + 1) - month_start(k) >= 28); lemma_month_index(month_start(k)); lemma_in_month(month_start(k), k, month_index(month_start(k))); }
}
