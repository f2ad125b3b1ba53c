// ---- what each generator produces ----
verus! {
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn is_hex(c: char) -> bool { is_digit(c) || ('A' <= c && c <= 'F') }
pub open spec fn is_lhex(c: char) -> bool { is_digit(c) || ('a' <= c && c <= 'f') }
pub open spec fn is_alnum(c: char) -> bool { is_digit(c) || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
/// the digits that DIGIT_CHARSET and HEX_CHARSET hold
pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
pub open spec fn all_hex(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_hex(#[trigger] s[i]) }
pub open spec fn all_alnum(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_alnum(#[trigger] s[i]) }
/// n digits with a point at p, and no needless zero before them
pub open spec fn point_at(s: Seq<char>, n: int, p: int) -> bool { 1 <= p < n && s.len() == n + 1 && s[p] == '.' && (forall|i: int| 0 <= i <= n && i != p ==> is_digit(#[trigger] s[i])) && (s[0] == '0' ==> p == 1) }
pub open spec fn decimal_ok(s: Seq<char>, n: int) -> bool { if n == 0 { s.len() == 0 } else if n == 1 { s.len() == 1 && is_digit(s[0]) } else { exists|p: int| #[trigger] point_at(s, n, p) } }
/// the text of an integer (Display of i32)
pub uninterp spec fn itext(i: int) -> Seq<char>;
pub open spec fn int_in(s: Seq<char>, a: i32, b: i32) -> bool { exists|n: int| a <= n <= b && #[trigger] itext(n) == s }
pub open spec fn jint_in(v: JV, a: i32, b: i32) -> bool { exists|n: int| a <= n <= b && #[trigger] jint(n) == v }
/// 8-4-4-4-12 hexadecimal digits
pub open spec fn hyphen(i: int) -> bool { i == 8 || i == 13 || i == 18 || i == 23 }
pub open spec fn hyphenated(s: Seq<char>, upper: bool) -> bool { s.len() == 36 && forall|i: int| 0 <= i < 36 ==> if hyphen(i) { #[trigger] s[i] == '-' } else if upper { is_hex(s[i]) } else { is_lhex(s[i]) } }
pub open spec fn uuid_ok(f: UuidFormat, s: Seq<char>) -> bool { match f {
  UuidFormat::Simple => s.len() == 32 && forall|i: int| 0 <= i < 32 ==> is_lhex(#[trigger] s[i]),
  UuidFormat::LowerCaseHyphenated => hyphenated(s, false), UuidFormat::UpperCaseHyphenated => hyphenated(s, true),
  UuidFormat::Urn => s.len() == 45 && s.take(9) == seq!['u', 'r', 'n', ':', 'u', 'u', 'i', 'd', ':'] && hyphenated(s.skip(9), false) } }
pub open spec fn uf(f: Option<UuidFormat>) -> UuidFormat { match f { Some(f) => f, None => UuidFormat::LowerCaseHyphenated } }
/// a regular expression without the anchors at its ends (an escaped dollar is not one)
pub open spec fn slashes(s: Seq<char>) -> nat decreases s.len() { if s.len() > 0 && s.last() == '\\' { 1 + slashes(s.drop_last()) } else { 0 } }
pub open spec fn no_start(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s[0] == '^' { s.skip(1) } else { s } }
pub open spec fn no_end(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '$' && slashes(s.drop_last()) % 2 == 0 { s.drop_last() } else { s } }
pub open spec fn stripped(s: Seq<char>) -> Seq<char> { no_end(no_start(s)) }
/// a text is generated for the expression, and the text matches all of it (regex_syntax and rand_regex)
pub uninterp spec fn generable(re: Seq<char>) -> bool;
pub uninterp spec fn matches_re(re: Seq<char>, s: Seq<char>) -> bool;
/// the first match of an expression in a text: where it starts and ends, and the text of its first group
pub ghost struct Found { pub a: int, pub b: int, pub g: Option<Seq<char>> }
pub uninterp spec fn re_ok(re: Seq<char>) -> bool;
pub uninterp spec fn first_match(re: Seq<char>, s: Seq<char>) -> Option<Found>;
pub open spec fn or_empty(o: Option<Seq<char>>) -> Seq<char> { match o { Some(s) => s, None => seq![] } }
/// the example with the first match replaced by the URL and the first group of the match
pub open spec fn at_url(ex: Seq<char>, url: Seq<char>, re: Seq<char>) -> Seq<char> { match first_match(re, ex) { None => ex, Some(m) => ex.take(m.a) + (url + or_empty(m.g)) + ex.skip(m.b) } }
// ---- the context ----
pub type Cx = Map<Seq<char>, (Seq<char>, JV)>;
pub open spec fn obj_fn(m: Map<Seq<char>, JV>) -> spec_fn(Seq<char>) -> Option<JV> { |name: Seq<char>| if m.dom().contains(name) { Some(m[name]) } else { None } }
pub open spec fn cx(c: HashMap<&str, Value>, k: Seq<char>) -> Option<JV> { if c@.dom().contains(k) { Some(jv(c@[k].1)) } else { None } }
pub open spec fn look_value(e: Seq<char>, look: spec_fn(Seq<char>) -> Option<JV>) -> Option<JV> { if has_expr(e) { expanded(e, look) } else { look(e) } }
/// provider state values come from the "providerState" object, when there is one, and otherwise from the context itself
pub open spec fn states(c: HashMap<&str, Value>) -> spec_fn(Seq<char>) -> Option<JV> { match cx(c, "providerState"@) { Some(JV::Obj(m)) => obj_fn(m), _ => ctx_fn(c@) } }
pub open spec fn dt_or_raw(t: Option<DataType>) -> DataType { match t { Some(t) => t, None => DataType::RAW } }
/// the URL of the mock server
pub open spec fn server_url(c: HashMap<&str, Value>) -> Option<Seq<char>> { match cx(c, "mockServer"@) { Some(JV::Obj(m)) => if m.dom().contains("url"@) { Some(jtext(m["url"@])) } else if m.dom().contains("href"@) { Some(jtext(m["href"@])) } else { None }, _ => None } }
pub open spec fn url_text(ex: Seq<char>, re: Seq<char>, c: HashMap<&str, Value>) -> Option<Seq<char>> { match server_url(c) { Some(u) => if re_ok(re) { Some(at_url(ex, u, re)) } else { None }, None => None } }
// ---- dates and times (chrono, and the functions of datetime_expressions.rs and time_utils.rs) ----
#[verifier::external_body] pub struct VxDt { _p: () }
pub ghost enum When { Date, Time, DateTime }
pub uninterp spec fn now() -> VxDt;
pub uninterp spec fn dt_of_text(s: Seq<char>) -> Option<VxDt>;
/// a date, time or date-time expression applied to a moment
pub uninterp spec fn moved(w: When, d: VxDt, e: Seq<char>) -> Option<VxDt>;
pub uninterp spec fn pattern_of(p: Seq<char>) -> Option<Seq<VxTok>>;
pub uninterp spec fn chrono_of(t: Seq<VxTok>) -> Seq<char>;
/// a moment printed by a chrono pattern; a Date value has no time of day
pub uninterp spec fn printed(d: VxDt, date_only: bool, p: Seq<char>) -> Option<Seq<char>>;
/// the form without a pattern
pub uninterp spec fn plain_date(d: VxDt) -> Seq<char>;
pub uninterp spec fn plain_time(d: VxDt, p: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub struct VxTok { _p: () }
pub open spec fn base_key(w: When) -> Seq<char> { match w { When::Date => "baseDate"@, When::Time => "baseTime"@, When::DateTime => "baseDateTime"@ } }
pub open spec fn base_of(w: When, c: HashMap<&str, Value>) -> Option<VxDt> { match cx(c, base_key(w)) { None => Some(now()), Some(v) => dt_of_text(jtext(v)) } }
pub open spec fn plain(w: When, d: VxDt) -> Option<Seq<char>> { match w { When::Date => Some(plain_date(d)), When::Time => Some(plain_time(d, "%H:%M:%S"@)), When::DateTime => printed(d, false, "%Y-%m-%dT%H:%M:%S.%3f%z"@) } }
pub open spec fn when_text(w: When, f: Option<String>, e: Option<String>, c: HashMap<&str, Value>) -> Option<Seq<char>> {
  match base_of(w, c) { None => None, Some(b) => match moved(w, b, (match e { Some(e) => e@, None => seq![] })) { None => None, Some(d) =>
    match f { None => plain(w, d), Some(p) => match pattern_of(p@) { None => None, Some(t) => printed(d, w is Date, chrono_of(t)) } } } } }
// ---- lists with variants ----
#[verifier::external_body] pub struct VxGens { _p: () }
#[verifier::external_body] pub struct VxMatcher { _p: () }
#[verifier::external_body] pub struct MatchingRuleCategory { _p: () }
#[verifier::external_body] pub struct DocPath { _p: () }
pub uninterp spec fn rooted(k: DocPath) -> bool;
}
