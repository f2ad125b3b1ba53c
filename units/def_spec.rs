verus! {
pub type Tok = MatcherDefinitionToken;
/// a token of the text: what it is (None: no token starts here), its characters, and whether a point follows it directly
pub ghost struct Pc { pub tok: Option<Tok>, pub text: Seq<char>, pub dot: bool }
/// logos::Lexer: the tokens still to come, and the one read last
pub ghost struct Lx { pub rest: Seq<Pc>, pub text: Seq<char>, pub dot: bool }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Lexer<T> { _p: std::marker::PhantomData<T> }
impl<T> Lexer<T> {
  pub uninterp spec fn view(&self) -> Lx;
}
impl Lexer<Tok> {
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Result<Tok, ()>>)
    ensures r is None == (old(self)@.rest.len() == 0), final(self)@ == lx_next(old(self)@),
      r is Some ==> r->0 is Ok == old(self)@.rest[0].tok is Some, r is Some && r->0 is Ok ==> (r->0)->Ok_0 == old(self)@.rest[0].tok->0 { unimplemented!() }
  #[verifier::external_body] pub fn span(&self) -> (r: Span) { unimplemented!() }
  #[verifier::external_body] pub fn slice<'a>(&self) -> (r: &'a str) ensures r@ == self@.text { unimplemented!() }
  #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
pub open spec fn lx_next(l: Lx) -> Lx { if l.rest.len() == 0 { Lx { rest: l.rest, text: seq![], dot: false } } else { Lx { rest: l.rest.skip(1), text: l.rest[0].text, dot: l.rest[0].dot } } }
/// the tokens of a text
pub uninterp spec fn tokens(v: Seq<char>) -> Seq<Pc>;
#[verifier::external_body] pub fn vx_lexer(v: &str) -> (r: Lexer<Tok>) ensures r@ == (Lx { rest: tokens(v@), text: seq![], dot: false }) { unimplemented!() }
/// `lex.remainder().starts_with('.')`
#[verifier::external_body] pub fn vx_dot(l: &Lexer<Tok>) -> (r: bool) ensures r == l@.dot { unimplemented!() }
/// `lex.remainder()` when all of the text has been read
#[verifier::external_body] pub fn vx_remainder<'a>(l: &Lexer<Tok>) -> (r: &'a str) ensures l@.rest.len() == 0 ==> r@.len() == 0 { unimplemented!() }
/// `&s[1..s.len() - 1]` of a string token, which has a quote at both ends
#[verifier::external_body] pub fn vx_inner<'a>(s: &'a str) -> (r: &'a str) ensures r@ == inner(s@) { unimplemented!() }
pub open spec fn inner(s: Seq<char>) -> Seq<char> { s.subrange(1, s.len() - 1) }
#[verifier::external_body] pub struct Span { _p: () }
impl Clone for Span { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
// the reports of errors are not modelled
#[verifier::external_body] pub fn end_of_expression(v: &str, expected: &str) -> (r: VxError) { unimplemented!() }
#[verifier::external_body] pub struct Version { _p: () }
/// semver::Version::parse
pub uninterp spec fn is_semver(s: Seq<char>) -> bool;
impl Version { #[verifier::external_body] pub fn parse(s: &str) -> (r: Result<Version, VxError>) ensures r is Ok == is_semver(s@) { unimplemented!() } }
pub assume_specification [String::with_capacity] (n: usize) -> (r: String) ensures r@.len() == 0;
/// str::chars
#[verifier::external_body] pub struct VxChars<'a> { _p: &'a str }
impl<'a> View for VxChars<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body] pub fn vx_chars<'a>(s: &'a str) -> (r: VxChars<'a>) ensures r@ == s@ { unimplemented!() }
impl<'a> VxChars<'a> {
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<char>) ensures r is None == (old(self)@.len() == 0), r is Some ==> r->0 == old(self)@[0] && final(self)@ == old(self)@.skip(1), r is None ==> final(self)@ == old(self)@ { unimplemented!() }
}
// ---- the contents of a string ----
/// a hexadecimal numeral: u32::from_str_radix(_, 16)
pub uninterp spec fn hex(s: Seq<char>) -> Option<u32>;
#[verifier::external_body] pub fn vx_hex(s: &str) -> (r: Result<u32, VxError>) ensures r is Ok == hex(s@) is Some, r is Ok ==> r->Ok_0 == hex(s@)->0 { unimplemented!() }
/// the character with this code, or the replacement character
pub uninterp spec fn chr(n: u32) -> char;
#[verifier::external_body] pub fn vx_chr(n: u32) -> (r: char) ensures r == chr(n), (n <= 0xD7FF || 0xE000 <= n <= 0x10FFFF) ==> r as u32 == n, !(n <= 0xD7FF || 0xE000 <= n <= 0x10FFFF) ==> r as u32 == 0xFFFD { unimplemented!() }
pub open spec fn pre(p: Seq<char>, o: Option<Seq<char>>) -> Option<Seq<char>> { match o { Some(x) => Some(p + x), None => None } }
/// the text in front of the closing brace, and the text behind it
pub open spec fn brace(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> decreases s.len() { if s.len() == 0 { None } else if s[0] == '}' { Some((seq![], s.skip(1))) } else { match brace(s.skip(1)) { Some(x) => Some((seq![s[0]] + x.0, x.1)), None => None } } }
/// what a unicode escape stands for (the text after the u), and the text behind it
pub open spec fn uni(s: Seq<char>) -> Option<(char, Seq<char>)> {
  if s.len() == 0 { None }
  else if s[0] == '{' { match brace(s.skip(1)) { Some(x) => match hex(x.0) { Some(n) => Some((chr(n), x.1)), None => None }, None => None } }
  else if s.len() < 4 { None } else { match hex(seq![s[0], s[1], s[2], s[3]]) { Some(n) => Some((chr(n), s.skip(4))), None => None } } }
pub open spec fn esc(c: char) -> Option<char> { if c == '\\' { Some('\\') } else if c == 'b' { Some('\x08') } else if c == 'f' { Some('\x0C') } else if c == 'n' { Some('\n') } else if c == 'r' { Some('\r') } else if c == 't' { Some('\t') } else { None } }
/// the text that the inside of a string literal stands for (None: a malformed escape); a backslash in front of any other character stands for itself
pub open spec fn unesc(s: Seq<char>) -> Option<Seq<char>> decreases s.len() {
  if s.len() == 0 { Some(seq![]) }
  else if s[0] != '\\' || s.len() == 1 { pre(seq![s[0]], unesc(s.skip(1))) }
  else if s[1] == 'u' { match uni(s.skip(2)) { Some(x) => if x.1.len() < s.len() { pre(seq![x.0], unesc(x.1)) } else { None }, None => None } }
  else { match esc(s[1]) { Some(c) => pre(seq![c], unesc(s.skip(2))), None => pre(seq![s[0], s[1]], unesc(s.skip(2))) } } }
pub proof fn lemma_brace(s: Seq<char>) ensures brace(s) matches Some(x) ==> x.1.len() < s.len() decreases s.len() { if s.len() > 0 && s[0] != '}' { lemma_brace(s.skip(1)); } }
pub proof fn lemma_uni(s: Seq<char>) ensures uni(s) matches Some(x) ==> x.1.len() < s.len() { if s.len() > 0 { lemma_brace(s.skip(1)); } }
pub proof fn lemma_pre(a: Seq<char>, b: Seq<char>, o: Option<Seq<char>>) ensures pre(a, pre(b, o)) == pre(a + b, o) { if o is Some { assert(a + (b + o->0) =~= (a + b) + o->0); } }
pub proof fn lemma_head(c: char, r: Seq<char>) ensures forall|h: Seq<char>| h.len() > 0 && h[0] == c && #[trigger] h.skip(1) == r ==> h == seq![c] + r { assert forall|h: Seq<char>| h.len() > 0 && h[0] == c && #[trigger] h.skip(1) == r implies h == seq![c] + r by { assert(h =~= seq![c] + r); } }
/// a text without a backslash stands for itself
pub proof fn theorem_plain(s: Seq<char>) requires !s.contains('\\') ensures unesc(s) == Some(s) decreases s.len() {
  if s.len() > 0 { assert(s[0] == s.index(0) && s.contains(s[0])); assert(forall|c: char| s.skip(1).contains(c) ==> s.contains(c)) by { assert forall|c: char| s.skip(1).contains(c) implies s.contains(c) by { let i = choose|i: int| 0 <= i < s.skip(1).len() && s.skip(1)[i] == c; assert(s[i + 1] == c); } } theorem_plain(s.skip(1)); assert(seq![s[0]] + s.skip(1) =~= s); } else { assert(s =~= seq![]); } }
// ---- the definitions ----
pub ghost enum GQ { State(Seq<char>, Option<DataType>), Date(Option<Seq<char>>, Option<Seq<char>>), Time(Option<Seq<char>>, Option<Seq<char>>), DateTime(Option<Seq<char>>, Option<Seq<char>>), Other(Generator) }
pub open spec fn ot(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn gq(g: Generator) -> GQ { match g { Generator::ProviderStateGenerator(s, d) => GQ::State(s@, d), Generator::Date(a, b) => GQ::Date(ot(a), ot(b)), Generator::Time(a, b) => GQ::Time(ot(a), ot(b)), Generator::DateTime(a, b) => GQ::DateTime(ot(a), ot(b)), g => GQ::Other(g) } }
pub open spec fn og(g: Option<Generator>) -> Option<GQ> { match g { Some(g) => Some(gq(g)), None => None } }
pub ghost enum RQ { Equality, Regex(Seq<char>), Type, Min(usize), Max(usize), Timestamp(Seq<char>), Time(Seq<char>), Date(Seq<char>), Include(Seq<char>), Number, Integer, Decimal, ContentType(Seq<char>), Boolean, NotEmpty, Semver, EachKey(DQ), EachValue(DQ), Other(MatchingRule) }
/// a rule or the name of another attribute
pub ghost enum EQ { Rule(RQ), Ref(Seq<char>) }
pub ghost struct DQ { pub value: Seq<char>, pub vt: ValueType, pub rules: Seq<EQ>, pub gen: Option<GQ>, pub text: Seq<char> }
/// a definition inside a rule (the recursion of the types is cut here)
#[verifier::external_body] pub struct DefPart { _p: () }
pub uninterp spec fn part(d: DefPart) -> DQ;
#[verifier::external_body] pub fn vx_part(d: MatchingRuleDefinition) -> (r: DefPart) ensures part(r) == dq(d) { unimplemented!() }
pub open spec fn rq(r: MatchingRule) -> RQ { match r { MatchingRule::Equality => RQ::Equality, MatchingRule::Regex(s) => RQ::Regex(s@), MatchingRule::Type => RQ::Type, MatchingRule::MinType(n) => RQ::Min(n), MatchingRule::MaxType(n) => RQ::Max(n),
  MatchingRule::Timestamp(s) => RQ::Timestamp(s@), MatchingRule::Time(s) => RQ::Time(s@), MatchingRule::Date(s) => RQ::Date(s@), MatchingRule::Include(s) => RQ::Include(s@), MatchingRule::Number => RQ::Number, MatchingRule::Integer => RQ::Integer, MatchingRule::Decimal => RQ::Decimal,
  MatchingRule::ContentType(s) => RQ::ContentType(s@), MatchingRule::Boolean => RQ::Boolean, MatchingRule::NotEmpty => RQ::NotEmpty, MatchingRule::Semver => RQ::Semver, MatchingRule::EachKey(d) => RQ::EachKey(part(d)), MatchingRule::EachValue(d) => RQ::EachValue(part(d)), r => RQ::Other(r) } }
pub open spec fn eq(e: Either<MatchingRule, MatchingReference>) -> EQ { match e { Either::Left(r) => EQ::Rule(rq(r)), Either::Right(n) => EQ::Ref(n.name@) } }
pub open spec fn eqs(s: Seq<Either<MatchingRule, MatchingReference>>) -> Seq<EQ> { s.map_values(|e: Either<MatchingRule, MatchingReference>| eq(e)) }
pub open spec fn dq(d: MatchingRuleDefinition) -> DQ { DQ { value: d.value@, vt: d.value_type, rules: eqs(d.rules@), gen: og(d.generator), text: d.expression@ } }
// ---- the grammar: each function gives what was read and the tokens behind it ----
pub open spec fn at(s: Seq<Pc>, i: int) -> Option<Tok> { if 0 <= i < s.len() { s[i].tok } else { None } }
pub open spec fn g_tok(s: Seq<Pc>, t: Tok) -> Option<Seq<Pc>> { if at(s, 0) == Some(t) { Some(s.skip(1)) } else { None } }
pub open spec fn g_str(s: Seq<Pc>) -> Option<(Seq<char>, Seq<Pc>)> { if at(s, 0) == Some(Tok::String) { match unesc(inner(s[0].text)) { Some(x) => Some((x, s.skip(1))), None => None } } else { None } }
/// a comma and a string
pub open spec fn g_cstr(s: Seq<Pc>) -> Option<(Seq<char>, Seq<Pc>)> { match g_tok(s, Tok::Comma) { Some(r) => g_str(r), None => None } }
pub open spec fn is_int(t: Option<Tok>) -> bool { t is Some && (t->0 is Int || t->0 is Num) }
/// a number, whether it has a point, and the tokens behind it: the lexer splits 100.5 into 100 and .5
pub open spec fn g_num(s: Seq<Pc>) -> Option<(Seq<char>, bool, Seq<Pc>)> {
  if at(s, 0) == Some(Tok::Decimal) { Some((s[0].text, true, s.skip(1))) }
  else if is_int(at(s, 0)) { if s[0].dot { if at(s, 1) == Some(Tok::DecimalPart) { Some((s[0].text + s[1].text, true, s.skip(2))) } else { None } } else { Some((s[0].text, false, s.skip(1))) } }
  else { None } }
pub type Prim = (Seq<char>, ValueType, Option<GQ>);
pub open spec fn id(s: Seq<Pc>, t: Seq<char>) -> bool { at(s, 0) == Some(Tok::Id) && s[0].text == t }
/// a string, null, a number or a boolean
pub open spec fn g_plain(s: Seq<Pc>) -> Option<(Prim, Seq<Pc>)> {
  match at(s, 0) { Some(Tok::String) => match g_str(s) { Some(x) => Some(((x.0, ValueType::String, None), x.1)), None => None },
    Some(Tok::Null) => Some(((seq![], ValueType::String, None), s.skip(1))),
    Some(Tok::Boolean) => Some(((s[0].text, ValueType::Boolean, None), s.skip(1))),
    _ => match g_num(s) { Some(x) => Some(((x.0, if x.1 { ValueType::Decimal } else { ValueType::Integer }, None), x.2)), None => None } } }
pub open spec fn as_data(t: ValueType) -> DataType { match t { ValueType::Unknown => DataType::RAW, ValueType::String => DataType::STRING, ValueType::Number => DataType::DECIMAL, ValueType::Integer => DataType::INTEGER, ValueType::Decimal => DataType::DECIMAL, ValueType::Boolean => DataType::BOOLEAN } }
/// the arguments of fromProviderState: an expression, and the value without a provider state
pub open spec fn g_state(s: Seq<Pc>) -> Option<(Prim, Seq<Pc>)> {
  match g_tok(s, Tok::LeftBracket) { None => None, Some(a) => match g_str(a) { None => None, Some(e) => match g_tok(e.1, Tok::Comma) { None => None, Some(b) => match g_plain(b) { None => None, Some(p) => match g_tok(p.1, Tok::RightBracket) { None => None,
    Some(c) => Some(((p.0.0, p.0.1, Some(GQ::State(e.0, Some(as_data(p.0.1))))), c)) } } } } } }
pub open spec fn state_word() -> Seq<char> { "fromProviderState"@ }
pub open spec fn g_prim(s: Seq<Pc>) -> Option<(Prim, Seq<Pc>)> { if id(s, state_word()) { g_state(s.skip(1)) } else { g_plain(s) } }
/// value, type, rule (None: a reference), generator
pub type MQ = (Seq<char>, ValueType, EQ, Option<GQ>);
pub open spec fn mr(v: Seq<char>, t: ValueType, r: RQ, g: Option<GQ>) -> MQ { (v, t, EQ::Rule(r), g) }
/// a comma and a value
pub open spec fn g_value(s: Seq<Pc>, r: RQ) -> Option<(MQ, Seq<Pc>)> { match g_tok(s, Tok::Comma) { None => None, Some(a) => match g_prim(a) { None => None, Some(p) => Some((mr(p.0.0, p.0.1, r, p.0.2), p.1)) } } }
pub open spec fn g_text(s: Seq<Pc>, r: spec_fn(Seq<char>) -> RQ) -> Option<(MQ, Seq<Pc>)> { match g_cstr(s) { None => None, Some(x) => Some((mr(x.0, ValueType::String, r(x.0), None), x.1)) } }
/// a format and an example
pub open spec fn g_when(s: Seq<Pc>, r: spec_fn(Seq<char>) -> RQ, g: spec_fn(Option<Seq<char>>, Option<Seq<char>>) -> GQ) -> Option<(MQ, Seq<Pc>)> {
  match g_cstr(s) { None => None, Some(f) => match g_tok(f.1, Tok::Comma) { None => None, Some(a) => if id(a, state_word()) { match g_state(a.skip(1)) { None => None, Some(p) => Some((mr(p.0.0, p.0.1, r(f.0), p.0.2), p.1)) } }
    else { match g_str(a) { None => None, Some(x) => Some((mr(x.0, ValueType::String, r(f.0), Some(g(Some(f.0), None))), x.1)) } } } } }
pub open spec fn g_two(s: Seq<Pc>, t: ValueType, r: spec_fn(Seq<char>) -> RQ) -> Option<(MQ, Seq<Pc>)> { match g_cstr(s) { None => None, Some(f) => match g_cstr(f.1) { None => None, Some(x) => Some((mr(x.0, t, r(f.0), None), x.1)) } } }
/// a comma and a number, or a value from the provider state
pub open spec fn g_number(s: Seq<Pc>, t: ValueType, r: RQ, point: bool) -> Option<(MQ, Seq<Pc>)> {
  match g_tok(s, Tok::Comma) { None => None, Some(a) => if id(a, state_word()) { match g_state(a.skip(1)) { None => None, Some(p) => Some((mr(p.0.0, p.0.1, r, p.0.2), p.1)) } }
    else if point { match g_num(a) { None => None, Some(x) => Some((mr(x.0, t, r, None), x.2)) } }
    else if is_int(at(a, 0)) { Some((mr(a[0].text, t, r, None), a.skip(1))) } else { None } } }
pub open spec fn g_rule(s: Seq<Pc>) -> Option<(MQ, Seq<Pc>)> {
  if at(s, 0) == Some(Tok::Dollar) { match g_str(s.skip(1)) { None => None, Some(x) => Some(((x.0, ValueType::Unknown, EQ::Ref(x.0), None), x.1)) } }
  else if at(s, 0) != Some(Tok::Id) { None } else { let t = s[0].text; let a = s.skip(1);
    if t == "equalTo"@ { g_value(a, RQ::Equality) } else if t == "regex"@ { g_two(a, ValueType::String, |f: Seq<char>| RQ::Regex(f)) } else if t == "type"@ { g_value(a, RQ::Type) }
    else if t == "datetime"@ { g_when(a, |f: Seq<char>| RQ::Timestamp(f), |x: Option<Seq<char>>, y: Option<Seq<char>>| GQ::DateTime(x, y)) } else if t == "date"@ { g_when(a, |f: Seq<char>| RQ::Date(f), |x: Option<Seq<char>>, y: Option<Seq<char>>| GQ::Date(x, y)) } else if t == "time"@ { g_when(a, |f: Seq<char>| RQ::Time(f), |x: Option<Seq<char>>, y: Option<Seq<char>>| GQ::Time(x, y)) }
    else if t == "include"@ { g_text(a, |f: Seq<char>| RQ::Include(f)) } else if t == "number"@ { g_number(a, ValueType::Number, RQ::Number, true) } else if t == "integer"@ { g_number(a, ValueType::Integer, RQ::Integer, false) } else if t == "decimal"@ { g_number(a, ValueType::Decimal, RQ::Decimal, true) }
    else if t == "boolean"@ { match g_tok(a, Tok::Comma) { None => None, Some(b) => if at(b, 0) == Some(Tok::Boolean) { Some((mr(b[0].text, ValueType::Boolean, RQ::Boolean, None), b.skip(1))) } else { None } } }
    else if t == "contentType"@ { g_two(a, ValueType::Unknown, |f: Seq<char>| RQ::ContentType(f)) }
    else if t == "semver"@ { match g_cstr(a) { None => None, Some(x) => if is_semver(x.0) { Some((mr(x.0, ValueType::String, RQ::Semver, None), x.1)) } else { None } } }
    else { None } } }
/// in brackets
pub open spec fn g_close<A>(o: Option<(A, Seq<Pc>)>) -> Option<(A, Seq<Pc>)> { match o { None => None, Some(x) => match g_tok(x.1, Tok::RightBracket) { None => None, Some(r) => Some((x.0, r)) } } }
pub open spec fn g_matching(s: Seq<Pc>) -> Option<(MQ, Seq<Pc>)> { match g_tok(s, Tok::LeftBracket) { None => None, Some(a) => g_close(g_rule(a)) } }
pub open spec fn g_not_empty(s: Seq<Pc>) -> Option<(Prim, Seq<Pc>)> { match g_tok(s, Tok::LeftBracket) { None => None, Some(a) => g_close(g_prim(a)) } }
pub open spec fn g_size(s: Seq<Pc>) -> Option<(usize, Seq<Pc>)> { match g_tok(s, Tok::LeftBracket) { None => None, Some(a) => match at(a, 0) { Some(Tok::Num(n)) => g_close(Some((n, a.skip(1)))), _ => None } } }
pub open spec fn one(v: Seq<char>, t: ValueType, e: EQ, g: Option<GQ>, text: Seq<char>) -> DQ { DQ { value: v, vt: t, rules: seq![e], gen: g, text } }
/// a rule without an example
pub open spec fn bare(r: RQ, text: Seq<char>) -> DQ { one(seq![], ValueType::Unknown, EQ::Rule(r), None, text) }
pub open spec fn g_each(s: Seq<Pc>, x: Option<(DQ, Seq<Pc>)>, key: bool, v: Seq<char>) -> Option<(DQ, Seq<Pc>)> { if g_tok(s, Tok::LeftBracket) is None { None } else { match g_close(x) { None => None, Some(y) => Some((bare(if key { RQ::EachKey(y.0) } else { RQ::EachValue(y.0) }, v), y.1)) } } }
/// one expression; v is the whole text
pub open spec fn g_exp(s: Seq<Pc>, v: Seq<char>) -> Option<(DQ, Seq<Pc>)> decreases s.len() {
  if s.len() < 2 { None } else { let a = s.skip(1); match s[0].tok {
    Some(Tok::Matching) => match g_matching(a) { None => None, Some(m) => Some((one(m.0.0, m.0.1, m.0.2, m.0.3, v), m.1)) },
    Some(Tok::NotEmpty) => match g_not_empty(a) { None => None, Some(p) => Some((one(p.0.0, p.0.1, EQ::Rule(RQ::NotEmpty), p.0.2, v), p.1)) },
    Some(Tok::EachKey) => g_each(a, g_exp(s.skip(2), v), true, v),
    Some(Tok::EachValue) => g_each(a, g_exp(s.skip(2), v), false, v),
    Some(Tok::AtLeast) => match g_size(a) { None => None, Some(n) => Some((bare(RQ::Min(n.0), v), n.1)) },
    Some(Tok::AtMost) => match g_size(a) { None => None, Some(n) => Some((bare(RQ::Max(n.0), v), n.1)) },
    _ => None } } }
pub open spec fn rank(t: ValueType) -> int { match t { ValueType::Unknown => 0, ValueType::Boolean => 1, ValueType::Number => 2, ValueType::Integer => 3, ValueType::Decimal => 4, ValueType::String => 5 } }
/// the more specific type
pub open spec fn vt_merge(a: ValueType, b: ValueType) -> ValueType { if rank(a) >= rank(b) { a } else { b } }
pub open spec fn join_text(a: Seq<char>, b: Seq<char>) -> Seq<char> { if a.len() == 0 { b } else if b.len() == 0 || a == b { a } else { a + ", "@ + b } }
/// all the rules in order; the first value and the first generator win
pub open spec fn d_merge(a: DQ, b: DQ) -> DQ { DQ { value: if a.value.len() == 0 { b.value } else { a.value }, vt: vt_merge(a.vt, b.vt), rules: a.rules + b.rules, gen: if a.gen is Some { a.gen } else { b.gen }, text: join_text(a.text, b.text) } }
/// the expressions that follow, each behind a comma, up to the end
pub open spec fn g_more(d: DQ, s: Seq<Pc>, v: Seq<char>) -> Option<DQ> decreases s.len() {
  if s.len() == 0 { Some(d) } else if at(s, 0) != Some(Tok::Comma) { None } else { match g_exp(s.skip(1), v) { None => None, Some(x) => if x.1.len() < s.len() { g_more(d_merge(d, x.0), x.1, v) } else { None } } } }
pub open spec fn g_all(s: Seq<Pc>, v: Seq<char>) -> Option<DQ> { match g_exp(s, v) { None => None, Some(x) => g_more(x.0, x.1, v) } }
pub broadcast proof fn lemma_skip(s: Seq<Pc>) requires s.len() >= 2 ensures #[trigger] s.skip(1).skip(1) == s.skip(2) { assert(s.skip(1).skip(1) =~= s.skip(2)); }
/// merging types is associative and commutative, and Unknown is neutral
pub proof fn theorem_types(a: ValueType, b: ValueType, c: ValueType) ensures vt_merge(a, vt_merge(b, c)) == vt_merge(vt_merge(a, b), c), vt_merge(a, b) == vt_merge(b, a), vt_merge(a, ValueType::Unknown) == a {}
/// the rules of a definition are those of its expressions, in order, and its type and text do not depend on how they are grouped
pub proof fn theorem_merge(a: DQ, b: DQ, c: DQ) requires a.text == b.text, b.text == c.text ensures d_merge(a, d_merge(b, c)) == d_merge(d_merge(a, b), c) { theorem_types(a.vt, b.vt, c.vt); assert(a.rules + (b.rules + c.rules) =~= (a.rules + b.rules) + c.rules); }
}
