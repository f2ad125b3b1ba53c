verus! {
/// the generators of the variant that an item matches
pub uninterp spec fn variant_of(m: VxMatcher, v: JV, vs: Seq<(usize, MatchingRuleCategory, VxGens)>) -> Option<VxGens>;
/// the generators of a map, in some order (HashMap::into_iter)
pub uninterp spec fn entries(g: VxGens, es: Seq<(DocPath, Generator)>) -> bool;
pub open spec fn all_rooted(g: VxGens) -> bool { forall|es: Seq<(DocPath, Generator)>, i: int| #[trigger] entries(g, es) && 0 <= i < es.len() ==> rooted((#[trigger] es[i]).0) }
/// a generator applied to the values its path selects (proved in the unit apply)
pub uninterp spec fn applied(g: Generator, c: HashMap<&str, Value>, m: VxMatcher, k: DocPath, v: JV, w: JV) -> bool;
pub open spec fn ran(es: Seq<(DocPath, Generator)>, n: int, c: HashMap<&str, Value>, m: VxMatcher, vs: Seq<JV>) -> bool { vs.len() == n + 1 && forall|k: int| 0 <= k < n ==> applied(#[trigger] es[k].1, c, m, es[k].0, vs[k], vs[k + 1]) }
pub open spec fn run_by(g: VxGens, c: HashMap<&str, Value>, m: VxMatcher, v: JV, w: JV, es: Seq<(DocPath, Generator)>, vs: Seq<JV>) -> bool { entries(g, es) && ran(es, es.len() as int, c, m, vs) && vs[0] == v && vs.last() == w }
pub open spec fn run_all(g: VxGens, c: HashMap<&str, Value>, m: VxMatcher, v: JV, w: JV) -> bool { exists|es: Seq<(DocPath, Generator)>, vs: Seq<JV>| #[trigger] run_by(g, c, m, v, w, es, vs) }
/// an item that matches no variant stays, another is changed by the generators of its variant
pub open spec fn item_ok(vs: Seq<(usize, MatchingRuleCategory, VxGens)>, c: HashMap<&str, Value>, m: VxMatcher, v: JV, w: JV) -> bool { match variant_of(m, v, vs) { None => w == v, Some(g) => run_all(g, c, m, v, w) } }
pub open spec fn items_ok(vs: Seq<(usize, MatchingRuleCategory, VxGens)>, c: HashMap<&str, Value>, m: VxMatcher, a: Seq<JV>, b: Seq<JV>, n: int) -> bool { a.len() == b.len() && (forall|i: int| 0 <= i < n ==> item_ok(vs, c, m, a[i], #[trigger] b[i])) && (forall|i: int| n <= i < a.len() ==> a[i] == #[trigger] b[i]) }
pub open spec fn variants_rooted(g: Generator, m: VxMatcher) -> bool { match g { Generator::ArrayContains(vs) => forall|v: JV| #[trigger] variant_of(m, v, vs@) is Some ==> all_rooted(variant_of(m, v, vs@)->0), _ => true } }
// ---- the contracts ----
/// the text a generator produces, or that it produces none
pub open spec fn gen_text(g: Generator, c: HashMap<&str, Value>, r: Option<Seq<char>>) -> bool { match g {
  Generator::RandomInt(a, b) => if a <= b { r is Some && int_in(r->0, a, b) } else { r is None },
  Generator::Uuid(f) => r is Some && uuid_ok(uf(f), r->0),
  Generator::RandomDecimal(n) => r is Some && decimal_ok(r->0, n as int),
  Generator::RandomHexadecimal(n) => r is Some && r->0.len() == n && all_hex(r->0),
  Generator::RandomString(n) => r is Some && r->0.len() == n && all_alnum(r->0),
  Generator::Regex(s) => r is Some == generable(stripped(s@)) && (r is Some ==> matches_re(stripped(s@), r->0)),
  Generator::Date(f, e) => r == when_text(When::Date, f, e, c), Generator::Time(f, e) => r == when_text(When::Time, f, e, c), Generator::DateTime(f, e) => r == when_text(When::DateTime, f, e, c),
  Generator::RandomBoolean => r == Some(bprint(true)) || r == Some(bprint(false)),
  Generator::ProviderStateGenerator(e, t) => r == (match look_value(e@, states(c)) { Some(v) => to_text(v, dt_or_raw(t)), None => None }),
  Generator::MockServerURL(ex, re) => r == url_text(ex@, re@, c),
  Generator::ArrayContains(_) => r is None } }
/// the JSON value it produces for a value
pub open spec fn gen_json(g: Generator, v: JV, c: HashMap<&str, Value>, m: VxMatcher, r: Option<JV>) -> bool { match g {
  Generator::RandomInt(a, b) => if a <= b { r is Some && match v { JV::Str(_) => r->0 is Str && int_in(r->0->Str_0, a, b), _ => jint_in(r->0, a, b) } } else { r is None },
  Generator::RandomDecimal(n) => match v { JV::Num(_) => (r is Some == (n > 0)) && (r is Some ==> number_ok(r->0, n as int)), _ => r is Some && r->0 is Str && decimal_ok(r->0->Str_0, n as int) },
  Generator::RandomBoolean => r is Some && r->0 is Bool,
  Generator::ProviderStateGenerator(e, t) => r == (match look_value(e@, states(c)) { Some(v) => to_json(v, dt_or_raw(t)), None => None }),
  Generator::ArrayContains(vs) => match v { JV::Arr(a) => r is Some && r->0 is Arr && items_ok(vs@, c, m, a, r->0->Arr_0, a.len() as int), _ => r is None },
  g => (r is Some ==> r->0 is Str) && gen_text(g, c, match r { Some(JV::Str(s)) => Some(s), _ => None }) } }
/// the number that a decimal stands for
pub open spec fn number_ok(v: JV, n: int) -> bool { exists|t: Seq<char>| #[trigger] decimal_ok(t, n) && float_of_text(t) is Some && v == jfloat(float_of_text(t)->0) }
pub open spec fn gen_u16(g: Generator, c: HashMap<&str, Value>, r: Option<u16>) -> bool { match g {
  Generator::RandomInt(a, b) => (r is Some == (a <= b && 0 <= b && a <= u16::MAX)) && (r is Some ==> a <= r->0 && r->0 <= b),
  Generator::ProviderStateGenerator(e, t) => match look_value(e@, states(c)) { Some(v) => r is Some == to_int(v, dt_or_raw(t), false, 0, u16::MAX as int) is Some && (r is Some ==> Some(r->0 as int) == to_int(v, dt_or_raw(t), false, 0, u16::MAX as int)), None => r is None },
  _ => r is None } }
pub open spec fn ok_text(r: Result<String, VxError>) -> Option<Seq<char>> { match r { Ok(s) => Some(s@), Err(_) => None } }
pub open spec fn ok_json(r: Result<Value, VxError>) -> Option<JV> { match r { Ok(s) => Some(jv(s)), Err(_) => None } }
pub open spec fn ok_u16(r: Result<u16, VxError>) -> Option<u16> { match r { Ok(s) => Some(s), Err(_) => None } }
// ---- stand-ins for rand, uuid, regex, regex_syntax, rand_regex and chrono ----
#[verifier::external_body] pub struct VxRng { _p: () }
#[verifier::external_body] pub fn vx_rng() -> (r: VxRng) { unimplemented!() }
#[verifier::external_body] pub fn vx_choose<'a>(v: &'a Vec<char>) -> (r: Option<&'a char>) ensures r is Some == (v@.len() > 0), r is Some ==> v@.contains(*r->0) { unimplemented!() }
#[verifier::external_body] pub fn vx_first(v: &Vec<String>) -> (r: String) ensures r@ == (if v@.len() > 0 { v@[0]@ } else { seq![] }) { unimplemented!() }
/// a, a point, and b
#[verifier::external_body] pub fn vx_pointed(a: &str, b: &str) -> (r: String) ensures r@ == a@ + seq!['.'] + b@ { unimplemented!() }
impl VxDisp for i32 { open spec fn disp(&self) -> Seq<char> { itext(*self as int) } #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body] pub fn vx_clone_vals(v: &Vec<Value>) -> (r: Vec<Value>) ensures jvs(r@) == jvs(v@) { unimplemented!() }
pub fn vx_set_at(v: &mut Vec<Value>, i: usize, x: Value) requires i < old(v)@.len() ensures final(v)@ == old(v)@.update(i as int, x) { v.set(i, x); }
pub open spec fn pair_at<'a>(i: int, x: (usize, &'a Value), v: Seq<Value>) -> bool { x.0 == i && *x.1 == v[i] }
/// iter().enumerate()
#[verifier::external_body] pub fn vx_enumerate<'a>(v: &'a Vec<Value>) -> (r: Vec<(usize, &'a Value)>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> pair_at(i, #[trigger] r@[i], v@) { unimplemented!() }
/// gen_range: panics when the range is empty
#[verifier::external_body] pub fn vx_range(a: usize, b: usize) -> (r: usize) requires a < b ensures a <= r < b { unimplemented!() }
#[verifier::external_body] pub fn vx_range_i32(a: i32, b: i32) -> (r: i32) requires a <= b ensures a <= r <= b { unimplemented!() }
#[verifier::external_body] pub fn vx_bool() -> (r: bool) { unimplemented!() }
/// n samples of Alphanumeric
#[verifier::external_body] pub fn vx_alnum(n: usize) -> (r: String) ensures r@.len() == n, all_alnum(r@) { unimplemented!() }
#[verifier::external_body] pub fn vx_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_char_text(c: &char) -> (r: String) ensures r@ == seq![*c] { unimplemented!() }
#[verifier::external_body] pub fn vx_pushc(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
#[verifier::external_body] pub fn vx_insert0(s: &mut String, c: &char) ensures final(s)@ == seq![*c] + old(s)@ { unimplemented!() }
#[verifier::external_body] pub fn vx_starts(s: &String, p: &str) -> (r: bool) ensures r == (p@.len() <= s@.len() && s@.take(p@.len() as int) == p@) { unimplemented!() }
#[verifier::external_body] pub fn vx_startsc(s: &String, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { unimplemented!() }
#[verifier::external_body] pub fn vx_itext(n: i32) -> (r: String) ensures r@ == itext(n as int) { unimplemented!() }
pub fn vx_imax(a: i32, b: i32) -> (r: i32) ensures r == (if a > b { a } else { b }) { if a > b { a } else { b } }
pub fn vx_imin(a: i32, b: i32) -> (r: i32) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
#[verifier::external_body] pub fn vx_prefix<'a>(s: &'a str, c: char) -> (r: Option<&'a str>) ensures r is Some == (s@.len() > 0 && s@[0] == c), r is Some ==> r->0@ == s@.skip(1) { unimplemented!() }
#[verifier::external_body] pub fn vx_suffix<'a>(s: &'a str, c: char) -> (r: Option<&'a str>) ensures r is Some == (s@.len() > 0 && s@.last() == c), r is Some ==> r->0@ == s@.drop_last() { unimplemented!() }
/// how many of the character (of one byte) a text ends with: s.len() - s.trim_end_matches(c).len()
#[verifier::external_body] pub fn vx_trailing(s: &str) -> (r: usize) ensures r == slashes(s@) { unimplemented!() }
#[verifier::external_body] pub struct Uuid { _p: () }
#[verifier::external_body] pub struct VxSimple { _p: () }
#[verifier::external_body] pub struct VxHyphenated { _p: () }
#[verifier::external_body] pub struct VxUrn { _p: () }
impl Uuid { #[verifier::external_body] pub fn new_v4() -> (r: Uuid) { unimplemented!() } #[verifier::external_body] pub fn as_simple(&self) -> (r: VxSimple) { unimplemented!() } #[verifier::external_body] pub fn as_hyphenated(&self) -> (r: VxHyphenated) { unimplemented!() } #[verifier::external_body] pub fn as_urn(&self) -> (r: VxUrn) { unimplemented!() } }
impl VxSimple { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures uuid_ok(UuidFormat::Simple, r@) { unimplemented!() } }
impl VxHyphenated { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures uuid_ok(UuidFormat::LowerCaseHyphenated, r@) { unimplemented!() } }
impl VxUrn { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures uuid_ok(UuidFormat::Urn, r@) { unimplemented!() } }
/// str::to_uppercase of ASCII text
#[verifier::external_body] pub fn vx_upcase(s: &String) -> (r: String) requires forall|i: int| 0 <= i < s@.len() ==> (#[trigger] s@[i] as u32) < 128 ensures r@ == up(s@) { unimplemented!() }
pub fn vx_upper_uuid(s: &String) -> (r: String) requires hyphenated(s@, false) ensures hyphenated(r@, true) {
  let r = vx_upcase(s); proof { assert forall|i: int| 0 <= i < 36 implies if hyphen(i) { #[trigger] r@[i] == '-' } else { is_hex(r@[i]) } by { assert(r@[i] == upc(s@[i])); } } r }
#[verifier::external_body] pub struct VxHir { _p: () }
#[verifier::external_body] pub struct VxSampler { _p: () }
pub uninterp spec fn hir_of(h: VxHir) -> Seq<char>;
pub uninterp spec fn sampler_of(h: VxSampler) -> Seq<char>;
pub uninterp spec fn parses(s: Seq<char>) -> bool;
/// ParserBuilder::new().unicode(false).build().parse, then Regex::with_hir(hir, 20), then a sample
#[verifier::external_body] pub fn vx_hir(s: &str) -> (r: Result<VxHir, VxError>) ensures r is Ok ==> hir_of(r->Ok_0) == s@, r is Err ==> !generable(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_sampler(h: VxHir) -> (r: Result<VxSampler, VxError>) ensures r is Ok == generable(hir_of(h)), r is Ok ==> sampler_of(r->Ok_0) == hir_of(h) { unimplemented!() }
#[verifier::external_body] pub fn vx_sample(s: VxSampler) -> (r: String) ensures matches_re(sampler_of(s), r@) { unimplemented!() }
#[verifier::external_body] pub struct Regex { _p: () }
pub uninterp spec fn re_text(r: Regex) -> Seq<char>;
impl Regex { #[verifier::external_body] pub fn new(s: &str) -> (r: Result<Regex, VxError>) ensures r is Ok == re_ok(s@), r is Ok ==> re_text(r->Ok_0) == s@ { unimplemented!() } }
#[verifier::external_body] pub struct Captures { _p: () }
#[verifier::external_body] pub struct VxGroup { _p: () }
pub uninterp spec fn cap(c: Captures) -> Found;
pub uninterp spec fn grp(c: VxGroup) -> Seq<char>;
impl Captures { #[verifier::external_body] pub fn get(&self, i: usize) -> (r: Option<VxGroup>) ensures i == 1 ==> r is Some == cap(*self).g is Some && (r is Some ==> grp(r->0) == cap(*self).g->0) { unimplemented!() } }
/// group.map(|m| m.as_str()).unwrap_or_default()
#[verifier::external_body] pub fn vx_group_text(g: Option<VxGroup>) -> (r: String) ensures r@ == (match g { Some(g) => grp(g), None => seq![] }) { unimplemented!() }
impl VxGroup { #[verifier::external_body] pub fn as_str(&self) -> (r: &str) ensures r@ == grp(*self) { unimplemented!() } }
pub open spec fn replaced<F: Fn(&Captures) -> String>(f: F, m: Found, o: Seq<char>) -> bool { exists|c: Captures, t: String| #[trigger] cap(c) == m && #[trigger] call_ensures(f, (&c,), t) && t@ == o }
/// Regex::replace with a function: the first match, if there is one
#[verifier::external_body] pub fn vx_re_replace<F: Fn(&Captures) -> String>(re: &Regex, s: &String, f: F) -> (r: String)
  requires forall|c: Captures| #[trigger] call_requires(f, (&c,))
  ensures match first_match(re_text(*re), s@) { None => r@ == s@, Some(m) => exists|o: Seq<char>| #[trigger] replaced(f, m, o) && r@ == s@.take(m.a) + o + s@.skip(m.b) } { unimplemented!() }
#[verifier::external_body] pub fn vx_now() -> (r: VxDt) ensures r == now() { unimplemented!() }
#[verifier::external_body] pub fn vx_parse_dt(s: String) -> (r: Result<VxDt, VxError>) ensures r is Ok == dt_of_text(s@) is Some, r is Ok ==> Some(r->Ok_0) == dt_of_text(s@) { unimplemented!() }
pub open spec fn is_moved(w: When, d: VxDt, e: Seq<char>, r: Result<VxDt, VxError>) -> bool { r is Ok == moved(w, d, e) is Some && (r is Ok ==> Some(r->Ok_0) == moved(w, d, e)) }
#[verifier::external_body] pub fn execute_date_expression(d: &VxDt, e: &str) -> (r: Result<VxDt, VxError>) ensures is_moved(When::Date, *d, e@, r) { unimplemented!() }
#[verifier::external_body] pub fn execute_time_expression(d: &VxDt, e: &str) -> (r: Result<VxDt, VxError>) ensures is_moved(When::Time, *d, e@, r) { unimplemented!() }
#[verifier::external_body] pub fn execute_datetime_expression(d: &VxDt, e: &str) -> (r: Result<VxDt, VxError>) ensures is_moved(When::DateTime, *d, e@, r) { unimplemented!() }
#[verifier::external_body] pub fn vx_text_or_empty(o: &Option<String>) -> (r: &str) ensures r@ == (match *o { Some(s) => s@, None => seq![] }) { unimplemented!() }
#[verifier::external_body] pub fn parse_pattern(s: &str) -> (r: Result<Vec<VxTok>, VxError>) ensures r is Ok == pattern_of(s@) is Some, r is Ok ==> Some(r->Ok_0@) == pattern_of(s@) { unimplemented!() }
#[verifier::external_body] pub fn to_chrono_pattern(t: &Vec<VxTok>) -> (r: String) ensures r@ == chrono_of(t@) { unimplemented!() }
/// DelayedFormat: what Display prints, if it can print it
#[verifier::external_body] pub struct VxFmt { _p: () }
pub uninterp spec fn fmt_text(f: VxFmt) -> Option<Seq<char>>;
#[verifier::external_body] pub struct VxDate { _p: () }
pub uninterp spec fn date_dt(d: VxDate) -> VxDt;
impl VxDt { #[verifier::external_body] pub fn date(&self) -> (r: VxDate) ensures date_dt(r) == *self { unimplemented!() } #[verifier::external_body] pub fn format(&self, p: &String) -> (r: VxFmt) ensures fmt_text(r) == printed(*self, false, p@) { unimplemented!() } }
impl VxDate { #[verifier::external_body] pub fn format(&self, p: &String) -> (r: VxFmt) ensures fmt_text(r) == printed(date_dt(*self), true, p@) { unimplemented!() } }
/// date.naive_local().date().to_string(), time.time().format(p).to_string() and date_time.format(p).to_string() with a fixed pattern
#[verifier::external_body] pub fn vx_plain_date(d: &VxDt) -> (r: String) ensures r@ == plain_date(*d) { unimplemented!() }
#[verifier::external_body] pub fn vx_plain_time(d: &VxDt, p: &str) -> (r: String) ensures r@ == plain_time(*d, p@) { unimplemented!() }
#[verifier::external_body] pub fn vx_plain_dt(d: &VxDt, p: &str) -> (r: String) ensures Some(r@) == printed(*d, false, p@) { unimplemented!() }
/// write!(text, "{}", value)
#[verifier::external_body] pub fn vx_write_fmt(t: &mut String, f: VxFmt) -> (r: Result<(), VxError>) ensures r is Ok == fmt_text(f) is Some, r is Ok ==> final(t)@ == old(t)@ + fmt_text(f)->0 { unimplemented!() }
/// the same for a DataValue (proved in the unit data_value)
#[verifier::external_body] pub fn vx_write_value(t: &mut String, f: &DataValue) -> (r: Result<(), VxError>) ensures r is Ok == to_text(jv(f.wrapped), f.data_type) is Some, r is Ok ==> final(t)@ == old(t)@ + to_text(jv(f.wrapped), f.data_type)->0 { unimplemented!() }
impl DataValue { #[verifier::external_body] pub fn as_json(&self) -> (r: Result<Value, VxError>) ensures r is Ok == to_json(jv(self.wrapped), self.data_type) is Some, r is Ok ==> Some(jv(r->Ok_0)) == to_json(jv(self.wrapped), self.data_type) { unimplemented!() } }
#[verifier::external_body] pub fn vx_u16_of(v: DataValue) -> (r: Result<u16, VxError>) ensures r is Ok == to_int(jv(v.wrapped), v.data_type, false, 0, u16::MAX as int) is Some, r is Ok ==> Some(r->Ok_0 as int) == to_int(jv(v.wrapped), v.data_type, false, 0, u16::MAX as int) { unimplemented!() }
/// m.iter().map(|(k, v)| (k.as_str(), v.clone())).collect()
#[verifier::external_body] pub fn vx_object_entries<'a>(m: &'a JMap) -> (r: HashMap<&'a str, Value>) ensures r@.dom() =~= jm(*m).dom(), forall|k: Seq<char>| #[trigger] r@.dom().contains(k) ==> jv(r@[k].1) == jm(*m)[k] { unimplemented!() }
pub fn vx_object_context<'a>(m: &'a JMap) -> (r: HashMap<&'a str, Value>) ensures ctx_fn(r@) == obj_fn(jm(*m)) { let r = vx_object_entries(m); proof { assert(ctx_fn(r@) =~= obj_fn(jm(*m))); } r }

impl Value { pub fn as_object(&self) -> (r: Option<&JMap>) ensures r is Some == (self is Object), r is Some ==> *r->0 == self->Object_0 { match self { Value::Object(m) => Some(m), _ => None } } }
impl VxMatcher { #[verifier::external_body] pub fn find_matching_variant(&self, v: &Value, vs: &Vec<(usize, MatchingRuleCategory, VxGens)>) -> (r: Option<(usize, VxGens)>) ensures r is Some == variant_of(*self, jv(*v), vs@) is Some, r is Some ==> Some((r->0).1) == variant_of(*self, jv(*v), vs@) { unimplemented!() } }
#[verifier::external_body] pub fn vx_gen_entries(g: VxGens) -> (r: Vec<(DocPath, Generator)>) ensures entries(g, r@) { unimplemented!() }
/// a text of digits with one point among them, or of one digit, is a number
pub axiom fn axiom_decimal(s: Seq<char>, n: int) requires decimal_ok(s, n) ensures float_of_text(s) is Some == (n > 0);
/// text.parse::<f64>()
pub fn vx_parse_digits(s: String, n: u16) -> (r: Result<f64, VxError>) requires decimal_ok(s@, n as int) ensures r is Ok == (n > 0), r is Ok ==> number_ok(jfloat(r->Ok_0), n as int) { proof { axiom_decimal(s@, n as int); } vx_parse::<f64>(s.as_str()) }
/// the first match lies inside the text
pub broadcast axiom fn axiom_match(re: Seq<char>, s: Seq<char>) ensures (#[trigger] first_match(re, s)) matches Some(m) ==> 0 <= m.a <= m.b <= s.len();
}
