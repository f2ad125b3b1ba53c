verus! {
pub assume_specification<T, E, U, F: std::ops::FnOnce(T) -> std::result::Result<U, E>> [std::result::Result::<T, E>::and_then](x: std::result::Result<T, E>, f: F) -> (r: std::result::Result<U, E>)
  requires x is Ok ==> f.requires((x->Ok_0,))
  ensures x is Err ==> r is Err && r->Err_0 == x->Err_0, x is Ok ==> f.ensures((x->Ok_0,), r);
}
verus! {
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == is_dig(*c);
pub assume_specification [char::is_ascii_uppercase] (c: &char) -> (r: bool) ensures r == is_up(*c);
pub assume_specification [char::is_ascii_alphanumeric] (c: &char) -> (r: bool) ensures r == (is_dig(*c) || is_up(*c) || ('a' <= *c && *c <= 'z'));
pub open spec fn is_up(c: char) -> bool { 'A' <= c && c <= 'Z' }
#[verifier::external_body] pub fn vx_blen(s: &str) -> (r: usize) ensures r == blen(s@) { s.len() }
#[verifier::external_body] pub fn vx_startsc(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { unimplemented!() }
#[verifier::external_body] pub fn value<I, A, O, E, F: Fn(I) -> IResult<I, A, E>>(v: O, f: F) -> (p: impl Fn(I) -> IResult<I, O, E>)
  requires total(f) ensures forall|s: I| #[trigger] p.requires((s,)), forall|s: I, r: IResult<I, O, E>| #[trigger] p.ensures((s,), r) ==> exists|q: IResult<I, A, E>| #[trigger] f.ensures((s,), q) && match q { Ok(x) => r matches Ok(y) && y.0 == x.0 && y.1 == v, Err(e) => r == Err::<(I, O), NomErr<E>>(e) }
{ |s: I| -> IResult<I, O, E> { unimplemented!() } }
// ---- the fields of a pattern ----
/// the most letters a run of this letter may have; None: no field has it
pub open spec fn most(c: char) -> Option<nat> {
  match c { 'G' | 'E' | 'e' | 'M' | 'L' | 'Q' | 'x' | 'X' | 'Z' => Some(5), 'O' | 'z' => Some(4), 'a' | 'c' => Some(1), 'w' | 'W' | 'F' | 'd' | 'q' | 'h' | 'H' | 'k' | 'K' | 'm' | 's' | 'V' => Some(2), _ => None } }
/// the field a run of n letters c stands for
pub open spec fn tok_is(t: DateTimePatternToken, c: char, n: nat) -> bool {
  match c { 'G' => t matches DateTimePatternToken::Era(k) && k == n, 'y' => t matches DateTimePatternToken::Year(k) && k == n, 'Y' => t matches DateTimePatternToken::Year(k) && k == n, 'u' => t matches DateTimePatternToken::Year(k) && k == n, 'M' => t matches DateTimePatternToken::Month(k) && k == n, 'L' => t matches DateTimePatternToken::MonthNum(k) && k == n, 'E' => t matches DateTimePatternToken::DayName(k) && k == n, 'e' => t matches DateTimePatternToken::DayOfWeek(k) && k == n, 'c' => t matches DateTimePatternToken::DayOfWeek(k) && k == n, 'S' => t matches DateTimePatternToken::Millisecond(k) && k == n, 'n' => t matches DateTimePatternToken::Nanosecond(k) && k == n, 'Z' => t matches DateTimePatternToken::TimezoneOffset(k) && k == n, 'x' => t matches DateTimePatternToken::TimezoneOffsetX(k) && k == n, 'X' => t matches DateTimePatternToken::TimezoneOffsetXZZero(k) && k == n, 'O' => t matches DateTimePatternToken::TimezoneOffsetGmt(k) && k == n, 'z' => t matches DateTimePatternToken::TimezoneName(k) && k == n, 'V' => t matches DateTimePatternToken::TimezoneId(k) && k == n, 'Q' => t matches DateTimePatternToken::QuarterOfYear(k) && k == n, 'q' => t matches DateTimePatternToken::QuarterOfYearNum(k) && k == n,
    'w' => t is WeekInYear, 'D' => t is DayInYear, 'd' => t is DayInMonth, 'a' => t is AmPm, 'k' => t is Hour24, 'H' => t is Hour24ZeroBased, 'h' => t is Hour12, 'K' => t is Hour12ZeroBased, 'm' => t is Minute, 's' => t is Second, 'A' => t is MillisecondOfDay, 'N' => t is NanosecondOfDay,
    'W' => t == DateTimePatternToken::WeekInMonth(true), 'F' => t == DateTimePatternToken::WeekInMonth(false), _ => false } }
pub open spec fn same_run(t: Seq<char>) -> bool { t.len() > 0 && (t[0] as u32) < 128 && forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == t[0] }
pub open spec fn pat_out<'a>(rest: Seq<char>, t: Seq<char>, o: IResult<&'a str, DateTimePatternToken, DateTimePatternError<&'a str>>) -> bool {
  match most(t[0]) { Some(m) if t.len() > m => o matches Err(e) && e is Failure, _ => o matches Ok(p) && p.0@ == rest && tok_is(p.1, t[0], t.len()) } }
pub open spec fn pat_ok(rest: Seq<char>, t: Seq<char>, o: (&str, DateTimePatternToken)) -> bool { o.0@ == rest && tok_is(o.1, t[0], t.len()) }
/// a run of one of the letters l: its field, or a failure when it is too long
pub open spec fn lp<'a>(s: Seq<char>, b: bool, r: IResult<&'a str, DateTimePatternToken, DateTimePatternError<&'a str>>) -> bool {
  if s.len() == 0 || !b { nx(r) } else { let n = run(s, seq![s[0]]); pat_out(s.skip(n as int), s.take(n as int), r) } }
pub proof fn lemma_run(s: Seq<char>, l: Seq<char>) ensures run(s, l) <= s.len(), forall|i: int| 0 <= i < run(s, l) ==> l.contains(#[trigger] s[i]), run(s, l) == 0 <==> (s.len() == 0 || !l.contains(s[0])) decreases s.len() {
  if s.len() > 0 && l.contains(s[0]) { lemma_run(s.skip(1), l); assert forall|i: int| 0 <= i < run(s, l) implies l.contains(#[trigger] s[i]) by { if i > 0 { assert(s[i] == s.skip(1)[i - 1]); } } } }
/// a run of one of the letters l
pub open spec fn a_run(t: Seq<char>, l: Seq<char>) -> bool { same_run(t) && l.contains(t[0]) }
pub proof fn lemma_letter(s: Seq<char>, c: char) requires (c as u32) < 128 ensures run(s, seq![c]) <= s.len(), run(s, seq![c]) > 0 <==> (s.len() > 0 && s[0] == c), run(s, seq![c]) > 0 ==> same_run(s.take(run(s, seq![c]) as int)) && s.take(run(s, seq![c]) as int)[0] == c {
  lemma_run(s, seq![c]); let l = seq![c]; assert(l[0] == c); }
pub proof fn lemma_bytes(t: &str) requires same_run(t@) ensures blen(t@) == t@.len() { assert forall|i: int| 0 <= i < t@.len() implies (#[trigger] t@[i] as u32) < 128 by { assert(t@[i] == t@[0]); } lemma_ascii_blen(t@); }
}
verus! {
// ---- what a field takes of the text (None: the text does not start with such a field) ----
pub open spec fn val(t: Seq<char>) -> nat decreases t.len() { if t.len() == 0 { 0 } else { val(t.drop_last()) * 10 + (t.last() as nat - '0' as nat) as nat } }
pub open spec fn numb(s: Seq<char>, most: nat, lo: nat, hi: nat) -> Option<nat> { let d = digs(s, most); if d > 0 && lo <= val(s.take(d as int)) <= hi { Some(d) } else { None } }
pub open spec fn all_digs(t: Seq<char>) -> bool { t.len() > 0 && forall|i: int| 0 <= i < t.len() ==> is_dig(#[trigger] t[i]) }
pub open spec fn gave<'a>(s: Seq<char>, n: Option<nat>, r: IResult<&'a str, String, DateTimeError<&'a str>>) -> bool { match n { Some(k) => r is Ok && takes(s, k, (r->Ok_0).0@, (r->Ok_0).1@), None => nx(r) } }
/// the same when the text that was taken does not matter
pub open spec fn left<'a, O>(s: Seq<char>, n: Option<nat>, r: IResult<&'a str, O, DateTimeError<&'a str>>) -> bool { match n { Some(k) => r is Ok && k <= s.len() && (r->Ok_0).0@ == s.skip(k as int), None => nx(r) } }
pub open spec fn gave1<'a>(p: (&str, &str), ok: bool, r: IResult<&'a str, String, DateTimeError<&'a str>>) -> bool { if ok { r is Ok && (r->Ok_0).0@ == p.0@ && (r->Ok_0).1@ == p.1@ } else { nx(r) } }
pub open spec fn same_pair(p: (&str, &str), o: (&str, String)) -> bool { o.0@ == p.0@ && o.1@ == p.1@ }
pub proof fn lemma_digs(s: Seq<char>, most: nat, k: nat) requires k <= s.len(), k <= most, forall|i: int| 0 <= i < k ==> is_dig(#[trigger] s[i]), k < s.len() && k < most ==> !is_dig(s[k as int]) ensures k == digs(s, most) decreases k {
  if k > 0 { assert(is_dig(s[0])); assert forall|i: int| 0 <= i < k - 1 implies is_dig(#[trigger] s.skip(1)[i]) by { assert(is_dig(s[i + 1])); } lemma_digs(s.skip(1), (most - 1) as nat, (k - 1) as nat); } }
pub proof fn lemma_digs_run(s: Seq<char>, most: nat) ensures digs(s, most) <= s.len(), digs(s, most) <= most, forall|i: int| 0 <= i < digs(s, most) ==> is_dig(#[trigger] s[i]) decreases most {
  if most > 0 && s.len() > 0 && is_dig(s[0]) { lemma_digs_run(s.skip(1), (most - 1) as nat); assert forall|i: int| 0 <= i < digs(s, most) implies is_dig(#[trigger] s[i]) by { if i > 0 { assert(s[i] == s.skip(1)[i - 1]); } } } }
pub proof fn lemma_take(s: Seq<char>, most: nat) ensures digs(s, most) <= s.len(), digs(s, most) <= most, digs(s, most) > 0 ==> all_digs(s.take(digs(s, most) as int)), forall|k: nat| #[trigger] prefix_of(is_digit, s, most, k) ==> k == digs(s, most) {
  lemma_digs_run(s, most); assert forall|k: nat| #[trigger] prefix_of(is_digit, s, most, k) implies k == digs(s, most) by { assert forall|i: int| 0 <= i < k implies is_dig(#[trigger] s[i]) by { assert(is_digit.ensures((s[i],), true)); } lemma_digs(s, most, k); } }
#[verifier::external_body] pub fn vx_string(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body] pub struct PErr { _p: () }
/// str::parse::<usize> of a few digits
#[verifier::external_body] pub fn vx_usize(s: &str) -> (r: Result<usize, PErr>) requires all_digs(s@) ensures s@.len() < 19 ==> r is Ok, r is Ok ==> r->Ok_0 == val(s@) { unimplemented!() }
}
verus! {
pub open spec fn some_digs(s: Seq<char>, most: nat) -> Option<nat> { let d = digs(s, most); if d > 0 { Some(d) } else { None } }
pub open spec fn digits_of(p: (&str, &str), most: nat) -> bool { all_digs(p.1@) && p.1@.len() <= most }
}
verus! {
pub open spec fn nc(s: Seq<char>, t: &str, rest: Option<nat>) -> Option<nat> { if begins_nc(s, t@) { Some(t@.len()) } else { rest } }
pub open spec fn era_len(s: Seq<char>) -> Option<nat> { nc(s, "ad", nc(s, "bc", None)) }
pub open spec fn ampm_len(s: Seq<char>) -> Option<nat> { nc(s, "am", nc(s, "pm", None)) }
pub open spec fn mon3_len(s: Seq<char>) -> Option<nat> { nc(s, "jan", nc(s, "feb", nc(s, "mar", nc(s, "apr", nc(s, "may", nc(s, "jun", nc(s, "jul", nc(s, "aug", nc(s, "sep", nc(s, "oct", nc(s, "nov", nc(s, "dec", None)))))))))))) }
pub open spec fn mon_len(s: Seq<char>) -> Option<nat> { nc(s, "january", nc(s, "february", nc(s, "march", nc(s, "april", nc(s, "may", nc(s, "june", nc(s, "july", nc(s, "august", nc(s, "september", nc(s, "october", nc(s, "november", nc(s, "december", None)))))))))))) }
pub open spec fn month_len(s: Seq<char>, n: nat) -> Option<nat> { if n <= 2 { numb(s, 2, 1, 12) } else if n == 3 { mon3_len(s) } else { mon_len(s) } }
pub open spec fn dow_len(s: Seq<char>, n: nat) -> Option<nat> {
  if n <= 3 { nc(s, "mon", nc(s, "tue", nc(s, "wed", nc(s, "thu", nc(s, "fri", nc(s, "sat", nc(s, "sun", None))))))) }
  else { nc(s, "monday", nc(s, "tuesday", nc(s, "wednesday", nc(s, "thursday", nc(s, "friday", nc(s, "saturday", nc(s, "sunday", None))))))) } }
pub open spec fn day_len(s: Seq<char>, n: nat) -> Option<nat> { if n > 2 { dow_len(s, n) } else { numb(s, 1, 1, 7) } }
/// the text left after a part, then after the next
pub open spec fn rest(s: Seq<char>, a: Option<nat>) -> Option<Seq<char>> { match a { Some(k) => Some(s.skip(k as int)), None => None } }
pub open spec fn then_(a: Option<Seq<char>>, f: spec_fn(Seq<char>) -> Option<Seq<char>>) -> Option<Seq<char>> { match a { Some(t) => f(t), None => None } }
pub open spec fn or_none(s: Seq<char>, a: Option<Seq<char>>) -> Option<Seq<char>> { match a { Some(t) => Some(t), None => Some(s) } }
pub open spec fn lit(s: Seq<char>, t: &str) -> Option<Seq<char>> { if begins(s, t@) { Some(s.skip(t@.len() as int)) } else { None } }
pub open spec fn rem<'a, O>(n: Option<Seq<char>>, r: IResult<&'a str, O, DateTimeError<&'a str>>) -> bool { match n { Some(t) => r is Ok && (r->Ok_0).0@ == t, None => nx(r) } }
pub open spec fn quarter_len(s: Seq<char>, n: nat) -> Option<Seq<char>> { if n < 3 { rest(s, numb(s, 2, 1, 4)) } else if n == 3 { rest(s, nc(s, "Q1", nc(s, "Q2", nc(s, "Q3", nc(s, "Q4", None))))) } else { match rest(s, nc(s, "1st", nc(s, "2nd", nc(s, "3rd", nc(s, "4th", None))))) { Some(t) => rest(t, nc(t, " quarter", None)), None => None } } }
// ---- offsets from UTC ----
pub open spec fn sgn(s: Seq<char>) -> Option<Seq<char>> { if s.len() > 0 && (s[0] == '+' || s[0] == '-') { Some(s.skip(1)) } else { None } }
pub open spec fn oh(s: Seq<char>) -> Option<Seq<char>> { rest(s, numb(s, 2, 0, 18)) }
pub open spec fn mi(s: Seq<char>) -> Option<Seq<char>> { rest(s, numb(s, 2, 0, 59)) }
pub open spec fn se(s: Seq<char>) -> Option<Seq<char>> { rest(s, numb(s, 2, 0, 60)) }
/// sign and hours
pub open spec fn soh(s: Seq<char>) -> Option<Seq<char>> { match sgn(s) { Some(t) => oh(t), None => None } }
pub open spec fn c_mi(s: Seq<char>) -> Option<Seq<char>> { match lit(s, ":") { Some(t) => mi(t), None => None } }
pub open spec fn c_se(s: Seq<char>) -> Option<Seq<char>> { match lit(s, ":") { Some(t) => se(t), None => None } }
pub open spec fn hm_colon(s: Seq<char>) -> Option<Seq<char>> { match soh(s) { Some(t) => c_mi(t), None => None } }
pub open spec fn off_len(s: Seq<char>, d: nat) -> Option<Seq<char>> { match soh(s) { None => None, Some(u) =>
    if d == 1 { or_none(u, mi(u)) } else if d == 2 { mi(u) } else if d == 3 { c_mi(u) } else if d == 4 { match mi(u) { Some(w) => or_none(w, se(w)), None => None } } else { match c_mi(u) { Some(w) => or_none(w, c_se(w)), None => None } } } }
pub open spec fn offz_len(s: Seq<char>, d: nat) -> Option<Seq<char>> { match lit(s, "Z") { Some(t) => Some(t), None => off_len(s, d) } }
pub open spec fn gmt(s: Seq<char>) -> Option<Seq<char>> { match lit(s, "GMT") { Some(t) => Some(t), None => lit(s, "UTC") } }
pub open spec fn zoff_len(s: Seq<char>, d: nat) -> Option<Seq<char>> {
  if 1 <= d <= 3 { match soh(s) { Some(u) => mi(u), None => None } }
  else if d == 4 { match gmt(s) { Some(t) => or_none(t, hm_colon(t)), None => None } } else { hm_colon(s) } }
pub open spec fn goff_len(s: Seq<char>, d: nat) -> Option<Seq<char>> { match gmt(s) { None => None, Some(q) => if 1 <= d <= 3 { match soh(q) { Some(u) => or_none(u, c_mi(u)), None => None } } else { hm_colon(q) } } }
/// the first characters, at most `most`, that satisfy f
pub open spec fn pre(s: Seq<char>, most: nat, f: spec_fn(char) -> bool) -> nat decreases most { if most > 0 && s.len() > 0 && f(s[0]) { 1 + pre(s.skip(1), (most - 1) as nat, f) } else { 0 } }
pub proof fn lemma_pre(s: Seq<char>, most: nat, f: spec_fn(char) -> bool, k: nat) requires k <= s.len(), k <= most, forall|i: int| 0 <= i < k ==> f(#[trigger] s[i]), k < s.len() && k < most ==> !f(s[k as int]) ensures k == pre(s, most, f) decreases k {
  if k > 0 { assert(f(s[0])); assert forall|i: int| 0 <= i < k - 1 implies f(#[trigger] s.skip(1)[i]) by { assert(f(s[i + 1])); } lemma_pre(s.skip(1), (most - 1) as nat, f, (k - 1) as nat); } }
/// the names of zones and their abbreviations in the time zone data
pub uninterp spec fn abbr(t: Seq<char>) -> bool;
pub uninterp spec fn zone(t: Seq<char>) -> bool;
#[verifier::external_body] pub fn vx_abbr(t: &str) -> (r: bool) ensures r == abbr(t@) { unimplemented!() }
#[verifier::external_body] pub fn vx_zone(t: &str) -> (r: bool) ensures r == zone(t@) { unimplemented!() }
#[verifier::external_body] pub fn vx_has_char(t: &str, c: char) -> (r: bool) ensures r == t@.contains(c) { unimplemented!() }
pub open spec fn tz_len(s: Seq<char>, d: nat) -> Option<Seq<char>> { if d < 4 { let k = pre(s, 4, |c: char| is_up(c)); if k >= 3 && abbr(s.take(k as int)) { Some(s.skip(k as int)) } else { None } } else { None } }
pub open spec fn is_zc(c: char) -> bool { is_dig(c) || is_up(c) || ('a' <= c && c <= 'z') || c == '/' || c == '_' || c == '+' || c == '-' }
/// the longest name of a zone, at most k characters
pub open spec fn zone_len(s: Seq<char>, k: nat) -> Option<nat> decreases k { if k == 0 { None } else if zone(s.take(k as int)) { Some(k) } else { zone_len(s, (k - 1) as nat) } }
pub open spec fn zid_len(s: Seq<char>) -> Option<Seq<char>> { rest(s, zone_len(s, pre(s, s.len(), |c: char| is_zc(c)))) }
pub open spec fn kept<A>(p: (&str, A), o: (&str, &str)) -> bool { o.0@ == p.0@ }
pub open spec fn kepts<A>(p: (&str, A), o: (&str, String)) -> bool { o.0@ == p.0@ }
pub broadcast proof fn lemma_skip(s: Seq<char>, a: int, b: int) requires 0 <= a <= s.len(), 0 <= b, a + b <= s.len() ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b) { assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
pub broadcast proof fn lemma_skip0(s: Seq<char>) ensures #[trigger] s.skip(0) == s { assert(s.skip(0) =~= s); }
/// String + &str (the text is not part of any contract)
#[verifier::external_body] pub fn vx_add(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
}
verus! {
pub proof fn lemma_pre_of<F: Fn(char) -> bool>(g: F, s: Seq<char>, most: nat, f: spec_fn(char) -> bool) requires forall|c: char, b: bool| #[trigger] g.ensures((c,), b) ==> b == f(c) ensures forall|k: nat| #[trigger] prefix_of(g, s, most, k) ==> k == pre(s, most, f) {
  assert forall|k: nat| #[trigger] prefix_of(g, s, most, k) implies k == pre(s, most, f) by { assert forall|i: int| 0 <= i < k implies f(#[trigger] s[i]) by { assert(g.ensures((s[i],), true)); } lemma_pre(s, most, f, k); } }
}
verus! {
pub open spec fn ix(j: usize) -> bool { true }
/// `(lo..=hi).rev().find(f)`
#[verifier::external_body] pub fn vx_rfind<F: Fn(&usize) -> bool>(lo: usize, hi: usize, f: F) -> (r: Option<usize>)
  requires forall|k: usize| lo <= k <= hi ==> #[trigger] f.requires((&k,))
  ensures match r { Some(k) => lo <= k <= hi && f.ensures((&k,), true) && (forall|j: usize| #[trigger] ix(j) && k < j <= hi ==> f.ensures((&j,), false)), None => forall|j: usize| #[trigger] ix(j) && lo <= j <= hi ==> f.ensures((&j,), false) } { unimplemented!() }
pub open spec fn ascii(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i] as u32) < 128 }
pub proof fn lemma_at(t: Seq<char>) requires ascii(t) ensures blen(t) == t.len(), forall|i: int| 0 <= i <= t.len() ==> #[trigger] at_char(t, i, i) {
  lemma_ascii_blen(t); assert forall|i: int| 0 <= i <= t.len() implies #[trigger] at_char(t, i, i) by { lemma_ascii_blen(t.take(i)); } }
pub proof fn lemma_zone(s: Seq<char>, k: nat, n: nat) requires k <= n, forall|j: nat| k < j <= n ==> !zone(#[trigger] s.take(j as int)) ensures zone_len(s, n) == zone_len(s, k) decreases n { if k < n { assert(!zone(s.take(n as int))); lemma_zone(s, k, (n - 1) as nat); } }
pub open spec fn no_zone(s: Seq<char>, k: nat, n: nat) -> bool { forall|j: nat| k < j <= n ==> !zone(#[trigger] s.take(j as int)) }
pub proof fn lemma_prefix(s: Seq<char>, t: Seq<char>, n: nat) requires n <= s.len(), t == s.take(n as int), ascii(t) ensures forall|i: int| 0 <= i <= n ==> #[trigger] at_char(s, i, i) && t.take(i) == s.take(i) && t.subrange(0, i) == s.take(i), forall|i: int| 0 <= i <= n ==> #[trigger] at_char(t, i, i), blen(t) == n {
  lemma_at(t); assert forall|i: int| 0 <= i <= n implies #[trigger] at_char(s, i, i) && t.take(i) == s.take(i) && t.subrange(0, i) == s.take(i) by { assert(t.take(i) =~= s.take(i)); assert(t.subrange(0, i) =~= s.take(i)); assert(at_char(t, i, i)); } }
pub open spec fn zone_pair(s: Seq<char>, p: (&str, &str)) -> bool { exists|n: nat| #[trigger] takes(s, n, p.0@, p.1@) && ascii(p.1@) && n > 0 }
pub open spec fn zone_out<'a>(s: Seq<char>, n: nat, r: IResult<&'a str, String, DateTimeError<&'a str>>) -> bool { rem(rest(s, zone_len(s, n)), r) }
}
verus! {
// ---- patterns ----
pub enum Fd { Run(char, nat), Text(Seq<char>) }
pub open spec fn fd_is(t: DateTimePatternToken, f: Fd) -> bool { match f { Fd::Run(c, n) => tok_is(t, c, n), Fd::Text(x) => t matches DateTimePatternToken::Text(y) && y@ == x } }
pub open spec fn known(c: char) -> bool { most(c) is Some || c == 'D' || c == 'y' || c == 'Y' || c == 'u' || c == 'S' || c == 'n' || c == 'A' || c == 'N' }
/// a text up to its closing quote: two quotes stand for one
pub open spec fn q_run(s: Seq<char>) -> (Seq<char>, Seq<char>) decreases s.len() via q_dec {
  if begins(s, "''"@) { let r = q_run(s.skip("''"@.len() as int)); (seq!['\''] + r.0, r.1) } else { let k = upto(s, "'"@); if k > 0 { let r = q_run(s.skip(k as int)); (s.take(k as int) + r.0, r.1) } else { (seq![], s) } } }
#[via_fn] proof fn q_dec(s: Seq<char>) { reveal_strlit("''"); lemma_upto(s, "'"@); }
pub open spec fn quoted(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> { if s.len() > 0 && s[0] == '\'' { let (t, r) = q_run(s.skip(1)); if t.len() > 0 && r.len() > 0 && r[0] == '\'' { Some((t, r.skip(1))) } else { None } } else { None } }
pub open spec fn stop_at() -> Seq<char> { "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'{}[]"@ }
/// the first field of a pattern and what is left of it
pub open spec fn step(s: Seq<char>) -> Option<(Fd, Seq<char>)> {
  if s.len() == 0 { None }
  else if known(s[0]) { let n = run(s, seq![s[0]]); match most(s[0]) { Some(m) if n > m => None, _ => Some((Fd::Run(s[0], n), s.skip(n as int))) } }
  else { match quoted(s) { Some((t, r)) => Some((Fd::Text(t), r)), None => if begins(s, "''"@) { Some((Fd::Text(seq!['\'']), s.skip("''"@.len() as int))) } else { let k = upto(s, stop_at()); if k > 0 { Some((Fd::Text(s.take(k as int)), s.skip(k as int))) } else { None } } } } }
pub open spec fn fields(s: Seq<char>) -> Option<Seq<Fd>> decreases s.len() { if s.len() == 0 { Some(seq![]) } else { match step(s) { Some((f, t)) if t.len() < s.len() => match fields(t) { Some(l) => Some(seq![f] + l), None => None }, _ => None } } }
pub open spec fn all_fd(v: Seq<DateTimePatternToken>, l: Seq<Fd>) -> bool { v.len() == l.len() && forall|i: int| 0 <= i < v.len() ==> fd_is(#[trigger] v[i], l[i]) }
pub type PR<'a> = IResult<&'a str, DateTimePatternToken, DateTimePatternError<&'a str>>;
pub open spec fn pstep<'a>(s: Seq<char>, r: PR<'a>) -> bool { match step(s) { Some(x) => r is Ok && (r->Ok_0).0@ == x.1 && fd_is((r->Ok_0).1, x.0), None => if s.len() == 0 { nx(r) } else { r is Err } } }
/// one kind of text
pub open spec fn tp<'a>(n: Option<(Seq<char>, Seq<char>)>, r: PR<'a>) -> bool { match n { Some(x) => r is Ok && (r->Ok_0).0@ == x.1 && fd_is((r->Ok_0).1, Fd::Text(x.0)), None => nx(r) } }
pub proof fn lemma_upto(s: Seq<char>, l: Seq<char>) ensures upto(s, l) <= s.len(), forall|i: int| 0 <= i < upto(s, l) ==> !l.contains(#[trigger] s[i]) decreases s.len() {
  if s.len() > 0 && !l.contains(s[0]) { lemma_upto(s.skip(1), l); assert forall|i: int| 0 <= i < upto(s, l) implies !l.contains(#[trigger] s[i]) by { if i > 0 { assert(s[i] == s.skip(1)[i - 1]); } } } }
pub proof fn lemma_step(s: Seq<char>) ensures step(s) matches Some(x) ==> x.1.len() < s.len() {
  if s.len() > 0 { let c = s[0]; lemma_run(s, seq![c]); assert(seq![c][0] == c); lemma_upto(s, stop_at()); reveal_strlit("''"); lemma_q_len(s.skip(1)); } }
pub proof fn lemma_q_len(s: Seq<char>) ensures q_run(s).1.len() <= s.len() decreases s.len() { reveal_strlit("''"); lemma_upto(s, "'"@); if begins(s, "''"@) { lemma_q_len(s.skip("''"@.len() as int)); } else if upto(s, "'"@) > 0 { lemma_q_len(s.skip(upto(s, "'"@) as int)); } }
pub open spec fn unq(t: Seq<char>) -> Seq<char> { if t == "''"@ { seq!['\''] } else { t } }
pub open spec fn flat(v: Seq<&str>) -> Seq<char> decreases v.len() { if v.len() == 0 { seq![] } else { unq(v[0]@) + flat(v.skip(1)) } }
/// what the parser inside the quotes does
pub open spec fn qstep<'a>(s: Seq<char>, r: IResult<&'a str, &'a str, DateTimePatternError<&'a str>>) -> bool {
  if begins(s, "''"@) { r is Ok && takes(s, "''"@.len(), (r->Ok_0).0@, (r->Ok_0).1@) } else { let k = upto(s, "'"@); if k > 0 { r is Ok && takes(s, k, (r->Ok_0).0@, (r->Ok_0).1@) } else { nx(r) } } }
pub proof fn lemma_q1<'a, F: Fn(&'a str) -> IResult<&'a str, &'a str, DateTimePatternError<&'a str>>>(f: F, s: &'a str, rs: Seq<&'a str>, v: Seq<&'a str>) requires forall|i: &'a str, r: IResult<&'a str, &'a str, DateTimePatternError<&'a str>>| #[trigger] f.ensures((i,), r) ==> qstep(i@, r), steps_of(f, s, rs, v), fails(f, rs.last()) ensures q_run(s@) == (flat(v), rs.last()@), v.len() > 0 ==> flat(v).len() > 0 decreases v.len() {
  reveal_strlit("''"); reveal_strlit("'"); lemma_upto(s@, "'"@);
  if v.len() == 0 { assert(rs.last() == s); }
  else { let o = step_ok::<&'a str, &'a str, DateTimePatternError<&'a str>>(rs, v, 0); assert(f.ensures((rs[0],), o)); let t = rs.skip(1); let w = v.skip(1);
    assert forall|k: int| 0 <= k < w.len() implies f.ensures((t[k],), #[trigger] step_ok::<&'a str, &'a str, DateTimePatternError<&'a str>>(t, w, k)) by { assert(f.ensures((rs[k + 1],), step_ok::<&'a str, &'a str, DateTimePatternError<&'a str>>(rs, v, k + 1))); }
    assert(t.last() == rs.last()); lemma_q1(f, rs[1], t, w);
    if !begins(s@, "''"@) { let k = upto(s@, "'"@); assert(v[0]@ == s@.take(k as int)); assert("'"@[0] == '\''); assert("''"@[0] == '\''); assert(v[0]@[0] == s@[0]); assert("'"@.contains('\'')); assert(unq(v[0]@) == v[0]@); } } }
pub proof fn lemma_q<'a, F: Fn(&'a str) -> IResult<&'a str, &'a str, DateTimePatternError<&'a str>>>(f: F) requires forall|i: &'a str, r: IResult<&'a str, &'a str, DateTimePatternError<&'a str>>| #[trigger] f.ensures((i,), r) ==> qstep(i@, r)
  ensures forall|s: &'a str, rs: Seq<&'a str>, v: Seq<&'a str>, rest: &'a str| #[trigger] many_ok(f, s, rs, v, rest) ==> q_run(s@) == (flat(v), rest@) && flat(v).len() > 0, forall|s: &'a str| #[trigger] fails(f, s) ==> q_run(s@).0.len() == 0,
    forall|i: &'a str, r: IResult<&'a str, &'a str, DateTimePatternError<&'a str>>| #[trigger] f.ensures((i,), r) && r is Ok ==> (r->Ok_0).0@.len() < i@.len(), forall|s: &'a str, rs: Seq<&'a str>, v: Seq<&'a str>, e: DateTimePatternError<&'a str>| !#[trigger] many_fail(f, s, rs, v, e) {
  reveal_strlit("''");
  assert forall|s: &'a str, rs: Seq<&'a str>, v: Seq<&'a str>, rest: &'a str| #[trigger] many_ok(f, s, rs, v, rest) implies q_run(s@) == (flat(v), rest@) && flat(v).len() > 0 by { lemma_q1(f, s, rs, v); }
  assert forall|s: &'a str| #[trigger] fails(f, s) implies q_run(s@).0.len() == 0 by { lemma_upto(s@, "'"@); }
  assert forall|i: &'a str, r: IResult<&'a str, &'a str, DateTimePatternError<&'a str>>| #[trigger] f.ensures((i,), r) && r is Ok implies (r->Ok_0).0@.len() < i@.len() by { lemma_upto(i@, "'"@); } }
/// `v.iter().map(f).collect::<String>()`
#[verifier::external_body] pub fn vx_map_str<'a, F: Fn(&&'a str) -> &'a str>(v: &Vec<&'a str>, f: F) -> (r: String) requires forall|s: &&'a str| #[trigger] f.requires((s,))
  ensures exists|o: Seq<&'a str>| #[trigger] mapped(f, v@, o) && r@ == cat(o) { unimplemented!() }
pub open spec fn mapped<'a, F: Fn(&&'a str) -> &'a str>(f: F, v: Seq<&'a str>, o: Seq<&'a str>) -> bool { o.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> f.ensures((&v[i],), #[trigger] o[i]) }
pub open spec fn cat(v: Seq<&str>) -> Seq<char> decreases v.len() { if v.len() == 0 { seq![] } else { v[0]@ + cat(v.skip(1)) } }
pub proof fn lemma_cat(v: Seq<&str>, o: Seq<&str>) requires o.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] o[i])@ == unq(v[i]@) ensures cat(o) == flat(v) decreases v.len() { if v.len() > 0 { lemma_cat(v.skip(1), o.skip(1)); } }
pub open spec fn q_out(p: (&str, Vec<&str>), o: (&str, DateTimePatternToken)) -> bool { o.0@ == p.0@ && fd_is(o.1, Fd::Text(flat(p.1@))) }
#[verifier::external_body] pub fn delimited<I, A, B, C, E, F: Fn(I) -> IResult<I, A, E>, G: Fn(I) -> IResult<I, B, E>, H: Fn(I) -> IResult<I, C, E>>(f: F, g: G, h: H) -> (p: impl Fn(I) -> IResult<I, B, E>)
  requires total(f), total(g), total(h) ensures forall|s: I| #[trigger] p.requires((s,)), forall|s: I, r: IResult<I, B, E>| #[trigger] p.ensures((s,), r) ==> between(f, g, h, s, r)
{ |s: I| -> IResult<I, B, E> { unimplemented!() } }
pub open spec fn between<I, A, B, C, E, F: Fn(I) -> IResult<I, A, E>, G: Fn(I) -> IResult<I, B, E>, H: Fn(I) -> IResult<I, C, E>>(f: F, g: G, h: H, s: I, r: IResult<I, B, E>) -> bool {
  exists|p: IResult<I, A, E>| #[trigger] f.ensures((s,), p) && (if p is Err { r == Err::<(I, B), NomErr<E>>(p->Err_0) } else { exists|q: IResult<I, B, E>| #[trigger] g.ensures(((p->Ok_0).0,), q) && (if q is Err { r == Err::<(I, B), NomErr<E>>(q->Err_0) } else { exists|x: IResult<I, C, E>| #[trigger] h.ensures(((q->Ok_0).0,), x) && (if x is Err { r == Err::<(I, B), NomErr<E>>(x->Err_0) } else { r == Ok::<(I, B), NomErr<E>>(((x->Ok_0).0, (q->Ok_0).1)) }) }) }) }
pub open spec fn t_out(p: (&str, &str), o: (&str, DateTimePatternToken)) -> bool { o.0@ == p.0@ && fd_is(o.1, Fd::Text(p.1@)) }
pub open spec fn txt(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> { let k = upto(s, stop_at()); if k > 0 { Some((s.take(k as int), s.skip(k as int))) } else { None } }
pub open spec fn qq(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> { if begins(s, "''"@) { Some((seq!['\''], s.skip("''"@.len() as int))) } else { None } }
}
verus! {
pub proof fn lemma_all<'a, F: Fn(&'a str) -> PR<'a>>(f: F, s: &'a str, rs: Seq<&'a str>, v: Seq<DateTimePatternToken>) requires forall|i: &'a str, r: PR<'a>| #[trigger] f.ensures((i,), r) ==> pstep(i@, r), steps_of(f, s, rs, v)
  ensures fields(s@) is Some == fields(rs.last()@) is Some, fields(s@) is Some && rs.last()@.len() == 0 ==> all_fd(v, fields(s@)->0) decreases v.len() {
  if v.len() == 0 { assert(rs.last() == s); }
  else { let o = step_ok::<&'a str, DateTimePatternToken, DateTimePatternError<&'a str>>(rs, v, 0); assert(f.ensures((rs[0],), o)); let t = rs.skip(1); let w = v.skip(1); lemma_step(s@);
    assert forall|k: int| 0 <= k < w.len() implies f.ensures((t[k],), #[trigger] step_ok::<&'a str, DateTimePatternToken, DateTimePatternError<&'a str>>(t, w, k)) by { assert(f.ensures((rs[k + 1],), step_ok::<&'a str, DateTimePatternToken, DateTimePatternError<&'a str>>(rs, v, k + 1))); }
    assert(t.last() == rs.last()); lemma_all(f, rs[1], t, w);
    if fields(s@) is Some && rs.last()@.len() == 0 { let l = fields(s@)->0; let m = fields(rs[1]@)->0; assert(l =~= seq![(step(s@)->0).0] + m); assert forall|i: int| 0 <= i < v.len() implies fd_is(#[trigger] v[i], l[i]) by { if i > 0 { assert(v[i] == w[i - 1]); assert(l[i] == m[i - 1]); } } } } }
pub proof fn lemma_p<'a, F: Fn(&'a str) -> PR<'a>>(f: F) requires forall|i: &'a str, r: PR<'a>| #[trigger] f.ensures((i,), r) ==> pstep(i@, r)
  ensures forall|s: &'a str, rs: Seq<&'a str>, v: Seq<DateTimePatternToken>, rest: &'a str| #[trigger] many_ok(f, s, rs, v, rest) ==> s@.len() > 0 && (fields(s@) is Some == (rest@.len() == 0)) && (rest@.len() == 0 ==> all_fd(v, fields(s@)->0)),
    forall|s: &'a str| #[trigger] fails(f, s) ==> s@.len() == 0 || fields(s@) is None,
    forall|s: &'a str, rs: Seq<&'a str>, v: Seq<DateTimePatternToken>, e: DateTimePatternError<&'a str>| #[trigger] many_fail(f, s, rs, v, e) ==> s@.len() == 0 || fields(s@) is None,
    forall|i: &'a str, r: PR<'a>| #[trigger] f.ensures((i,), r) && r is Ok ==> (r->Ok_0).0@.len() < i@.len() {
  assert forall|i: &'a str, r: PR<'a>| #[trigger] f.ensures((i,), r) && r is Ok implies (r->Ok_0).0@.len() < i@.len() by { lemma_step(i@); }
  assert forall|s: &'a str| #[trigger] fails(f, s) implies s@.len() == 0 || fields(s@) is None by { assert(step(s@) is None); }
  assert forall|s: &'a str, rs: Seq<&'a str>, v: Seq<DateTimePatternToken>, e: DateTimePatternError<&'a str>| #[trigger] many_fail(f, s, rs, v, e) implies s@.len() == 0 || fields(s@) is None by { lemma_all(f, s, rs, v); assert(step(rs.last()@) is None); }
  assert forall|s: &'a str, rs: Seq<&'a str>, v: Seq<DateTimePatternToken>, rest: &'a str| #[trigger] many_ok(f, s, rs, v, rest) implies s@.len() > 0 && (fields(s@) is Some == (rest@.len() == 0)) && (rest@.len() == 0 ==> all_fd(v, fields(s@)->0)) by { lemma_all(f, s, rs, v); assert(step(rest@) is None);
    let o = step_ok::<&'a str, DateTimePatternToken, DateTimePatternError<&'a str>>(rs, v, 0); assert(f.ensures((rs[0],), o)); lemma_step(s@); } }
}
verus! {
pub proof fn lemma_blen0() ensures forall|s: Seq<char>| #[trigger] blen(s) == 0 <==> s.len() == 0 { assert forall|s: Seq<char>| #[trigger] blen(s) == 0 <==> s.len() == 0 by { lemma_blen_ge(s); if s.len() == 0 { lemma_ascii_blen(s); } } }
}
verus! {
// ---- a text against the fields of a pattern ----
pub open spec fn num_(s: Seq<char>, most: nat, lo: nat, hi: nat) -> Option<Seq<char>> { rest(s, numb(s, most, lo, hi)) }
pub open spec fn nd(s: Seq<char>) -> Option<Seq<char>> { rest(s, some_digs(s, s.len())) }
/// what is left of the text after this field (None: the text does not start with it)
pub open spec fn eat(t: DateTimePatternToken, s: Seq<char>) -> Option<Seq<char>> {
  match t {
    DateTimePatternToken::Era(_) => rest(s, era_len(s)), DateTimePatternToken::Year(n) => rest(s, some_digs(s, n as nat)), DateTimePatternToken::Month(n) => rest(s, month_len(s, n as nat)), DateTimePatternToken::MonthNum(_) => num_(s, 2, 1, 12),
    DateTimePatternToken::Text(x) => if begins(s, x@) { Some(s.skip(x@.len() as int)) } else { None }, DateTimePatternToken::WeekInYear => num_(s, 2, 1, 56), DateTimePatternToken::WeekInMonth(one) => if one { num_(s, 2, 1, 5) } else { num_(s, 2, 0, 4) },
    DateTimePatternToken::DayInYear => num_(s, 3, 1, 356), DateTimePatternToken::DayInMonth => num_(s, 2, 1, 31), DateTimePatternToken::DayName(n) => rest(s, dow_len(s, n as nat)), DateTimePatternToken::DayOfWeek(n) => rest(s, day_len(s, n as nat)), DateTimePatternToken::AmPm => rest(s, ampm_len(s)),
    DateTimePatternToken::Hour24 => num_(s, 2, 1, 24), DateTimePatternToken::Hour24ZeroBased => num_(s, 2, 0, 23), DateTimePatternToken::Hour12 => num_(s, 2, 1, 12), DateTimePatternToken::Hour12ZeroBased => num_(s, 2, 0, 11), DateTimePatternToken::Minute => num_(s, 2, 0, 59), DateTimePatternToken::Second => num_(s, 2, 0, 60),
    DateTimePatternToken::Millisecond(n) => rest(s, some_digs(s, n as nat)), DateTimePatternToken::Nanosecond(_) => nd(s), DateTimePatternToken::MillisecondOfDay => nd(s), DateTimePatternToken::NanosecondOfDay => nd(s),
    DateTimePatternToken::TimezoneOffset(n) => zoff_len(s, n as nat), DateTimePatternToken::TimezoneOffsetX(n) => off_len(s, n as nat), DateTimePatternToken::TimezoneOffsetXZZero(n) => offz_len(s, n as nat), DateTimePatternToken::TimezoneOffsetGmt(n) => goff_len(s, n as nat), DateTimePatternToken::TimezoneName(n) => tz_len(s, n as nat), DateTimePatternToken::TimezoneId(_) => zid_len(s),
    DateTimePatternToken::QuarterOfYear(n) => quarter_len(s, n as nat), DateTimePatternToken::QuarterOfYearNum(_) => num_(s, 2, 1, 4) } }
/// what is left after the first i fields
pub open spec fn after(ts: Seq<DateTimePatternToken>, i: nat, s: Seq<char>) -> Option<Seq<char>> decreases i { if i == 0 { Some(s) } else { match after(ts, (i - 1) as nat, s) { Some(u) => eat(ts[i - 1], u), None => None } } }
/// the text of field i
pub open spec fn piece(ts: Seq<DateTimePatternToken>, i: nat, s: Seq<char>) -> Seq<char> { let u = after(ts, i, s)->0; let v = after(ts, i + 1, s)->0; u.take(u.len() - v.len()) }
pub proof fn lemma_after(ts: Seq<DateTimePatternToken>, i: nat, j: nat, s: Seq<char>) requires i <= j, after(ts, i, s) is None ensures after(ts, j, s) is None decreases j { if i < j { lemma_after(ts, i, (j - 1) as nat, s); } }
pub open spec fn is_day(t: DateTimePatternToken) -> bool { t is DayInMonth }
pub open spec fn is_mon(t: DateTimePatternToken) -> bool { t is Month || t is MonthNum }
pub open spec fn is_yr(t: DateTimePatternToken) -> bool { t is Year }
pub open spec fn same_kind(a: DateTimePatternToken, b: DateTimePatternToken) -> bool { (a is DayInMonth == b is DayInMonth) && (a is Year == b is Year) && (a is Month == b is Month) && (a is MonthNum == b is MonthNum) }
#[verifier::external_body] pub fn vx_tok_clone(t: &DateTimePatternToken) -> (r: DateTimePatternToken) ensures same_kind(r, *t) { unimplemented!() }
/// the runs of S and of the letters of years have at least one letter
pub open spec fn counted(ts: Seq<DateTimePatternToken>) -> bool { forall|i: int| 0 <= i < ts.len() ==> match #[trigger] ts[i] { DateTimePatternToken::Year(n) => n >= 1, DateTimePatternToken::Millisecond(n) => n >= 1, _ => true } }
pub open spec fn gives_rest<'a>(t: DateTimePatternToken, s: Seq<char>, r: IResult<&'a str, String, DateTimeError<&'a str>>) -> bool {
  match eat(t, s) { Some(u) => r is Ok && (r->Ok_0).0@ == u && (is_day(t) || is_mon(t) || is_yr(t) ==> u.len() <= s.len() && (r->Ok_0).1@ == s.take(s.len() - u.len())), None => r is Err } }
pub open spec fn same_ok<'a>(a: IResult<&'a str, String, DateTimeError<&'a str>>, b: Result<(&'a str, String), String>) -> bool { match a { Ok(x) => b == Ok::<(&'a str, String), String>(x), Err(_) => b is Err } }
pub open spec fn matched_ok(m: Seq<(DateTimePatternToken, String)>, ts: Seq<DateTimePatternToken>, s: Seq<char>) -> bool { m.len() <= ts.len() && forall|j: int| 0 <= j < m.len() ==> same_kind((#[trigger] m[j]).0, ts[j]) && (is_day(ts[j]) || is_mon(ts[j]) || is_yr(ts[j]) ==> m[j].1@ == piece(ts, j as nat, s)) }
}
pub mod gregorian { pub use crate::Month; }
verus! {
// ---- the calendar (gregorian: trusted contracts) ----
#[derive(Clone, Copy)] pub enum Month { January, February, March, April, May, June, July, August, September, October, November, December }
pub open spec fn mnum(m: Month) -> nat { match m { Month::January => 1, Month::February => 2, Month::March => 3, Month::April => 4, Month::May => 5, Month::June => 6, Month::July => 7, Month::August => 8, Month::September => 9, Month::October => 10, Month::November => 11, Month::December => 12 } }
pub open spec fn leap(y: int) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub open spec fn mdays(m: nat, leap: bool) -> nat { if m == 2 { if leap { 29 } else { 28 } } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 } }
pub struct YearMonth { pub year: i16, pub month: Month }
impl Month {
  #[verifier::external_body] pub fn new(n: u8) -> (r: Result<Month, VxError>) ensures r is Ok == (1 <= n <= 12), r is Ok ==> mnum(r->Ok_0) == n { unimplemented!() }
  pub fn with_year(self, y: i16) -> (r: YearMonth) ensures r.year == y, r.month == self { YearMonth { year: y, month: self } }
}
impl YearMonth { #[verifier::external_body] pub fn total_days(self) -> (r: u8) ensures r == mdays(mnum(self.month), leap(self.year as int)) { unimplemented!() } }
#[verifier::external] impl std::fmt::Debug for PErr { fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
#[verifier::external_body] pub fn vx_err_text() -> (r: String) { unimplemented!() }
/// str::parse::<u8>
pub uninterp spec fn u8_of(t: Seq<char>) -> Option<nat>;
pub broadcast axiom fn axiom_u8(t: Seq<char>) requires all_digs(t), t.len() <= 2 ensures #[trigger] u8_of(t) == Some(val(t));
#[verifier::external_body] pub fn vx_u8(s: &str) -> (r: Result<u8, PErr>) ensures r is Ok == u8_of(s@) is Some, r is Ok ==> Some(r->Ok_0 as nat) == u8_of(s@) { unimplemented!() }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_lower(s: &str) -> (r: String) ensures r@ == lower(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_lit<'a>(s: &'a str) -> (r: &'a str) ensures r@ == s@, forall|b: &str| (#[trigger] b@) == s@ ==> b == r { unimplemented!() }
pub open spec fn is_low(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> 'a' <= #[trigger] t[i] && t[i] <= 'z' }
/// what agrees with lower case letters whatever the case has these as its lower case
pub axiom fn axiom_nc(s: Seq<char>, t: Seq<char>) requires begins_nc(s, t), is_low(t) ensures lower(s.take(t.len() as int)) == t;
/// the month a text stands for
pub open spec fn month_no(x: Seq<char>) -> Option<nat> { let l = lower(x);
  if l == "january"@ || l == "jan"@ { Some(1) } else if l == "february"@ || l == "feb"@ { Some(2) } else if l == "march"@ || l == "mar"@ { Some(3) } else if l == "april"@ || l == "apr"@ { Some(4) } else if l == "may"@ { Some(5) } else if l == "june"@ || l == "jun"@ { Some(6) }
  else if l == "july"@ || l == "jul"@ { Some(7) } else if l == "august"@ || l == "aug"@ { Some(8) } else if l == "september"@ || l == "sep"@ { Some(9) } else if l == "october"@ || l == "oct"@ { Some(10) } else if l == "november"@ || l == "nov"@ { Some(11) } else if l == "december"@ || l == "dec"@ { Some(12) }
  else { match u8_of(x) { Some(n) if 1 <= n <= 12 => Some(n), _ => None } } }
pub open spec fn isk(t: DateTimePatternToken, k: int) -> bool { if k == 0 { is_day(t) } else if k == 1 { is_mon(t) } else { is_yr(t) } }
/// the first field of a kind (0 day of the month, 1 month, 2 year), from i on
pub open spec fn fst(ks: Seq<DateTimePatternToken>, k: int, i: nat) -> Option<nat> decreases ks.len() - i { if i >= ks.len() { None } else if isk(ks[i as int], k) { Some(i) } else { fst(ks, k, i + 1) } }
/// the day is one of the month (of the year, when there is one)
pub open spec fn good(ks: Seq<DateTimePatternToken>, xs: Seq<Seq<char>>) -> bool {
  match (fst(ks, 0, 0), fst(ks, 1, 0)) { (Some(d), Some(m)) => val(xs[d as int]) <= mdays(month_no(xs[m as int])->0, leap(match fst(ks, 2, 0) { Some(y) => val(xs[y as int]) as int, None => 2001 })), _ => true } }
pub type Pair = (DateTimePatternToken, String);
pub open spec fn kinds(m: Seq<Pair>) -> Seq<DateTimePatternToken> { m.map_values(|p: Pair| p.0) }
pub open spec fn txts(m: Seq<Pair>) -> Seq<Seq<char>> { m.map_values(|p: Pair| p.1@) }
pub open spec fn text_ok(t: DateTimePatternToken, x: Seq<char>) -> bool { (is_day(t) ==> all_digs(x) && x.len() <= 2) && (is_mon(t) ==> month_no(x) is Some) && (is_yr(t) ==> all_digs(x)) }
pub open spec fn texts_ok(m: Seq<Pair>) -> bool { forall|j: int| 0 <= j < m.len() ==> text_ok((#[trigger] m[j]).0, m[j].1@) }
#[verifier::external_body] pub fn vx_find<'a, T, F: Fn(&&'a T) -> bool>(v: &'a Vec<T>, f: F) -> (r: Option<&'a T>) requires forall|x: &&T| #[trigger] f.requires((x,))
  ensures match r { Some(x) => exists|i: int| #[trigger] found(f, v@, i) && *x == v@[i], None => forall|j: int| 0 <= j < v@.len() ==> f.ensures((&&#[trigger] v@[j],), false) } { unimplemented!() }
pub open spec fn found<'a, T, F: Fn(&&'a T) -> bool>(f: F, v: Seq<T>, i: int) -> bool { 0 <= i < v.len() && f.ensures((&&v[i],), true) && forall|j: int| 0 <= j < i ==> f.ensures((&&#[trigger] v[j],), false) }
pub proof fn lemma_fst(ks: Seq<DateTimePatternToken>, k: int, i: nat, n: nat) requires i <= n <= ks.len(), forall|j: int| i <= j < n ==> !isk(#[trigger] ks[j], k), n < ks.len() ==> isk(ks[n as int], k) ensures fst(ks, k, i) == (if n < ks.len() { Some(n) } else { None }) decreases n - i { if i < n { assert(!isk(ks[i as int], k)); lemma_fst(ks, k, i + 1, n); } }
/// the first pair of a kind
pub fn vx_find_k<'a, F: Fn(&&'a Pair) -> bool>(v: &'a Vec<Pair>, Ghost(k): Ghost<int>, f: F) -> (r: Option<&'a Pair>)
  requires forall|x: &&Pair| #[trigger] f.requires((x,)), forall|x: &&Pair, o: bool| #[trigger] f.ensures((x,), o) ==> o == isk((*x).0, k)
  ensures match fst(kinds(v@), k, 0) { Some(i) => i < v@.len() && r == Some(&v@[i as int]) && isk(v@[i as int].0, k), None => r is None } {
  let r = vx_find(v, f);
  proof { let ks = kinds(v@); match r {
    Some(x) => { let i = choose|i: int| #[trigger] found(f, v@, i) && *x == v@[i]; assert(isk(ks[i], k)); assert forall|j: int| 0 <= j < i implies !isk(#[trigger] ks[j], k) by { assert(f.ensures((&&v@[j],), false)); } lemma_fst(ks, k, 0, i as nat); }
    None => { assert forall|j: int| 0 <= j < ks.len() implies !isk(#[trigger] ks[j], k) by { assert(f.ensures((&&v@[j],), false)); } lemma_fst(ks, k, 0, ks.len()); } } }
  r }
#[verifier::external_body] pub fn vx_digit(c: char) -> (r: u32) ensures r <= 9, is_dig(c) ==> r == c as int - '0' as int { unimplemented!() }
pub proof fn lemma_year(s: Seq<char>, i: int) requires 0 <= i < s.len(), is_dig(s[i]) ensures val(s.take(i + 1)) as int % 400 == ((val(s.take(i)) as int % 400) * 10 + (s[i] as int - '0' as int)) % 400 {
  let t = s.take(i + 1); assert(t.drop_last() =~= s.take(i)); let x = val(s.take(i)) as int; let d = s[i] as int - '0' as int; assert(val(t) == x * 10 + d); let q = x / 400; let r = x % 400; assert(x == 400 * q + r);
  assert(x * 10 + d == 400 * (10 * q) + (r * 10 + d)); vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(10 * q, r * 10 + d, 400); }
pub proof fn lemma_leap(y: int) requires y >= 0 ensures leap(y % 400) == leap(y) { assert((y % 400) % 4 == y % 4); assert((y % 400) % 100 == y % 100); assert((y % 400) % 400 == y % 400); }
}
verus! {
#[verifier::rlimit(60)] pub proof fn lemma_names(u: Seq<char>) ensures mon3_len(u) matches Some(k) ==> k <= u.len() && month_no(u.take(k as int)) is Some, mon_len(u) matches Some(k) ==> k <= u.len() && month_no(u.take(k as int)) is Some { reveal_strlit("jan"); reveal_strlit("feb"); reveal_strlit("mar"); reveal_strlit("apr"); reveal_strlit("may"); reveal_strlit("jun"); reveal_strlit("jul"); reveal_strlit("aug"); reveal_strlit("sep"); reveal_strlit("oct"); reveal_strlit("nov"); reveal_strlit("dec"); reveal_strlit("january"); reveal_strlit("february"); reveal_strlit("march"); reveal_strlit("april"); reveal_strlit("june"); reveal_strlit("july"); reveal_strlit("august"); reveal_strlit("september"); reveal_strlit("october"); reveal_strlit("november"); reveal_strlit("december"); if begins_nc(u, "jan"@) { assert(is_low("jan"@)); axiom_nc(u, "jan"@); } if begins_nc(u, "feb"@) { assert(is_low("feb"@)); axiom_nc(u, "feb"@); } if begins_nc(u, "mar"@) { assert(is_low("mar"@)); axiom_nc(u, "mar"@); } if begins_nc(u, "apr"@) { assert(is_low("apr"@)); axiom_nc(u, "apr"@); } if begins_nc(u, "may"@) { assert(is_low("may"@)); axiom_nc(u, "may"@); } if begins_nc(u, "jun"@) { assert(is_low("jun"@)); axiom_nc(u, "jun"@); } if begins_nc(u, "jul"@) { assert(is_low("jul"@)); axiom_nc(u, "jul"@); } if begins_nc(u, "aug"@) { assert(is_low("aug"@)); axiom_nc(u, "aug"@); } if begins_nc(u, "sep"@) { assert(is_low("sep"@)); axiom_nc(u, "sep"@); } if begins_nc(u, "oct"@) { assert(is_low("oct"@)); axiom_nc(u, "oct"@); } if begins_nc(u, "nov"@) { assert(is_low("nov"@)); axiom_nc(u, "nov"@); } if begins_nc(u, "dec"@) { assert(is_low("dec"@)); axiom_nc(u, "dec"@); } if begins_nc(u, "january"@) { assert(is_low("january"@)); axiom_nc(u, "january"@); } if begins_nc(u, "february"@) { assert(is_low("february"@)); axiom_nc(u, "february"@); } if begins_nc(u, "march"@) { assert(is_low("march"@)); axiom_nc(u, "march"@); } if begins_nc(u, "april"@) { assert(is_low("april"@)); axiom_nc(u, "april"@); } if begins_nc(u, "june"@) { assert(is_low("june"@)); axiom_nc(u, "june"@); } if begins_nc(u, "july"@) { assert(is_low("july"@)); axiom_nc(u, "july"@); } if begins_nc(u, "august"@) { assert(is_low("august"@)); axiom_nc(u, "august"@); } if begins_nc(u, "september"@) { assert(is_low("september"@)); axiom_nc(u, "september"@); } if begins_nc(u, "october"@) { assert(is_low("october"@)); axiom_nc(u, "october"@); } if begins_nc(u, "november"@) { assert(is_low("november"@)); axiom_nc(u, "november"@); } if begins_nc(u, "december"@) { assert(is_low("december"@)); axiom_nc(u, "december"@); } }
pub proof fn lemma_text(t: DateTimePatternToken, u: Seq<char>) requires eat(t, u) is Some, is_day(t) || is_mon(t) || is_yr(t) ensures (eat(t, u)->0).len() <= u.len(), text_ok(t, u.take(u.len() - (eat(t, u)->0).len())) {
  broadcast use axiom_u8; lemma_take(u, 2); lemma_names(u); match t { DateTimePatternToken::Year(n) => { lemma_take(u, n as nat); } _ => {} } }
pub proof fn lemma_fst_eq(a: Seq<DateTimePatternToken>, b: Seq<DateTimePatternToken>, k: int, i: nat) requires a.len() == b.len(), forall|j: int| 0 <= j < a.len() ==> isk(#[trigger] a[j], k) == isk(b[j], k) ensures fst(a, k, i) == fst(b, k, i), fst(a, k, i) matches Some(j) ==> i <= j < a.len() && isk(a[j as int], k) decreases a.len() - i { if i < a.len() { assert(isk(a[i as int], k) == isk(b[i as int], k)); lemma_fst_eq(a, b, k, i + 1); } }
pub open spec fn pieces(ts: Seq<DateTimePatternToken>, s: Seq<char>) -> Seq<Seq<char>> { Seq::new(ts.len(), |j: int| piece(ts, j as nat, s)) }
pub proof fn lemma_good(m: Seq<Pair>, ts: Seq<DateTimePatternToken>, s: Seq<char>) requires matched_ok(m, ts, s), m.len() == ts.len(), after(ts, ts.len(), s) is Some ensures texts_ok(m), good(kinds(m), txts(m)) == good(ts, pieces(ts, s)) {
  assert forall|j: int| 0 <= j < m.len() implies text_ok((#[trigger] m[j]).0, m[j].1@) by { if after(ts, (j + 1) as nat, s) is None { lemma_after(ts, (j + 1) as nat, ts.len(), s); } if after(ts, j as nat, s) is None { lemma_after(ts, j as nat, ts.len(), s); } if is_day(ts[j]) || is_mon(ts[j]) || is_yr(ts[j]) { lemma_text(ts[j], after(ts, j as nat, s)->0); } }
  let ks = kinds(m); let xs = txts(m); let ys = pieces(ts, s);
  assert forall|k: int, j: int| 0 <= j < ks.len() implies isk(#[trigger] ks[j], k) == #[trigger] isk(ts[j], k) by { assert(ks[j] == m[j].0); }
  assert forall|j: int| 0 <= j < ks.len() && (is_day(ts[j]) || is_mon(ts[j]) || is_yr(ts[j])) implies #[trigger] xs[j] == ys[j] by { assert(ks[j] == m[j].0); }
  lemma_fst_eq(ks, ts, 0, 0); lemma_fst_eq(ks, ts, 1, 0); lemma_fst_eq(ks, ts, 2, 0);
  match fst(ts, 0, 0) { Some(d) => { assert(xs[d as int] == ys[d as int]); } None => {} } match fst(ts, 1, 0) { Some(d) => { assert(xs[d as int] == ys[d as int]); } None => {} } match fst(ts, 2, 0) { Some(d) => { assert(xs[d as int] == ys[d as int]); } None => {} } }
/// the text is exactly these fields, and its day is a day of its month
pub open spec fn accepts(ts: Seq<DateTimePatternToken>, s: Seq<char>) -> bool { (match after(ts, ts.len(), s) { Some(u) => u.len() == 0, None => false }) && good(ts, pieces(ts, s)) }
}
verus! {
pub proof fn lemma_counts(s: Seq<char>, ts: Seq<DateTimePatternToken>) requires fields(s) is Some, all_fd(ts, fields(s)->0) ensures counted(ts) decreases s.len() {
  if s.len() > 0 { let x = step(s)->0; lemma_step(s); let l = fields(s)->0; let m = fields(x.1)->0; assert(l =~= seq![x.0] + m); let w = ts.skip(1); assert forall|i: int| 0 <= i < w.len() implies fd_is(#[trigger] w[i], m[i]) by { assert(fd_is(ts[i + 1], l[i + 1])); } lemma_counts(x.1, w);
    lemma_run(s, seq![s[0]]); assert(seq![s[0]][0] == s[0]); assert(fd_is(ts[0], l[0]));
    assert forall|i: int| 0 <= i < ts.len() implies match #[trigger] ts[i] { DateTimePatternToken::Year(n) => n >= 1, DateTimePatternToken::Millisecond(n) => n >= 1, _ => true } by { if i > 0 { assert(ts[i] == w[i - 1]); } } } }
pub proof fn lemma_same_tok(a: DateTimePatternToken, b: DateTimePatternToken, f: Fd, s: Seq<char>) requires fd_is(a, f), fd_is(b, f) ensures eat(a, s) == eat(b, s), is_day(a) == is_day(b), is_mon(a) == is_mon(b), is_yr(a) == is_yr(b) {}
pub proof fn lemma_same_after(a: Seq<DateTimePatternToken>, b: Seq<DateTimePatternToken>, l: Seq<Fd>, i: nat, s: Seq<char>) requires all_fd(a, l), all_fd(b, l), i <= l.len() ensures after(a, i, s) == after(b, i, s) decreases i { if i > 0 { lemma_same_after(a, b, l, (i - 1) as nat, s); assert(fd_is(a[i - 1], l[i - 1]) && fd_is(b[i - 1], l[i - 1])); match after(a, (i - 1) as nat, s) { Some(u) => { lemma_same_tok(a[i - 1], b[i - 1], l[i - 1], u); } None => {} } } }
/// the fields say what is accepted
pub proof fn lemma_same(a: Seq<DateTimePatternToken>, b: Seq<DateTimePatternToken>, l: Seq<Fd>, s: Seq<char>) requires all_fd(a, l), all_fd(b, l) ensures accepts(a, s) == accepts(b, s) {
  assert forall|i: nat| i <= l.len() implies #[trigger] after(a, i, s) == after(b, i, s) by { lemma_same_after(a, b, l, i, s); }
  assert(pieces(a, s) =~= pieces(b, s)) by { assert forall|j: int| 0 <= j < l.len() implies pieces(a, s)[j] == pieces(b, s)[j] by { lemma_same_after(a, b, l, j as nat, s); lemma_same_after(a, b, l, (j + 1) as nat, s); } }
  assert forall|k: int, j: int| 0 <= j < a.len() implies isk(#[trigger] a[j], k) == #[trigger] isk(b[j], k) by { assert(fd_is(a[j], l[j]) && fd_is(b[j], l[j])); lemma_same_tok(a[j], b[j], l[j], s); }
  lemma_fst_eq(a, b, 0, 0); lemma_fst_eq(a, b, 1, 0); lemma_fst_eq(a, b, 2, 0); lemma_same_after(a, b, l, l.len(), s); }
/// a text is one of the values of a pattern
pub open spec fn value_of(f: Seq<char>, s: Seq<char>) -> bool { f.len() > 0 && fields(f) is Some && exists|ts: Seq<DateTimePatternToken>| #[trigger] all_fd(ts, fields(f)->0) && accepts(ts, s) }
}
verus! {
// ---- what chrono is asked to print ----
/// every % doubled
pub open spec fn pct(x: Seq<char>) -> Seq<char> decreases x.len() { if x.len() == 0 { seq![] } else { pct(x.drop_last()) + (if x.last() == '%' { seq!['%', '%'] } else { seq![x.last()] }) } }
#[verifier::external_body] pub fn vx_pct(x: &String) -> (r: String) ensures r@ == pct(x@) { str::replace(x, "%", "%%") }
#[verifier::external_body] pub fn vx_push(s: &mut String, l: &str) ensures final(s)@ == old(s)@ + l@ { s.push_str(l) }
pub open spec fn ct(t: DateTimePatternToken) -> Seq<char> {
  match t {
    DateTimePatternToken::Era(_) => "AD"@, DateTimePatternToken::Year(n) => if n == 2 { "%y"@ } else { "%Y"@ }, DateTimePatternToken::Month(n) => if n <= 2 { "%m"@ } else if n == 3 { "%b"@ } else { "%B"@ }, DateTimePatternToken::MonthNum(_) => "%m"@, DateTimePatternToken::Text(x) => pct(x@),
    DateTimePatternToken::WeekInYear => "%U"@, DateTimePatternToken::DayInYear => "%j"@, DateTimePatternToken::DayInMonth => "%d"@, DateTimePatternToken::DayName(n) => if n > 3 { "%A"@ } else { "%a"@ }, DateTimePatternToken::DayOfWeek(_) => "%u"@, DateTimePatternToken::AmPm => "%p"@,
    DateTimePatternToken::Hour24 => "%H"@, DateTimePatternToken::Hour24ZeroBased => "%H"@, DateTimePatternToken::Hour12 => "%I"@, DateTimePatternToken::Hour12ZeroBased => "%I"@, DateTimePatternToken::Minute => "%M"@, DateTimePatternToken::Second => "%S"@,
    DateTimePatternToken::Millisecond(n) => if n < 3 { "%3f"@ } else { (seq!['%'] + dec(n as nat)).push('f') }, DateTimePatternToken::Nanosecond(_) => "%f"@, DateTimePatternToken::TimezoneName(_) => "%Z"@, DateTimePatternToken::TimezoneId(_) => "%Z"@,
    DateTimePatternToken::TimezoneOffset(_) => "%z"@, DateTimePatternToken::TimezoneOffsetX(_) => "%:z"@, DateTimePatternToken::TimezoneOffsetXZZero(_) => "%:z"@, _ => seq![] } }
pub open spec fn cts(ts: Seq<DateTimePatternToken>, n: nat) -> Seq<char> decreases n { if n == 0 { seq![] } else { cts(ts, (n - 1) as nat) + ct(ts[n - 1]) } }
}
