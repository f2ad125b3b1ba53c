// ---- content types ----
verus! {
pub trait VxQ { type Q; spec fn q(&self) -> Self::Q; }
/// PartialEq::eq of two values
#[verifier::external_body] pub fn vx_eq<A: VxQ + ?Sized, B: VxQ<Q = A::Q> + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.q() == b.q()) { unimplemented!() }
impl VxQ for str { type Q = Seq<char>; open spec fn q(&self) -> Seq<char> { self@ } }
impl VxQ for String { type Q = Seq<char>; open spec fn q(&self) -> Seq<char> { self@ } }
impl<T: VxQ + ?Sized> VxQ for &T { type Q = T::Q; open spec fn q(&self) -> T::Q { (**self).q() } }
impl<T: VxQ> VxQ for Option<T> { type Q = Option<T::Q>; open spec fn q(&self) -> Option<T::Q> { match self { Some(x) => Some(x.q()), None => None } } }
impl VxQ for usize { type Q = usize; open spec fn q(&self) -> usize { *self } }
pub type Pairs = Seq<(Seq<char>, Seq<char>)>;
/// the attributes, in the order of their names
#[verifier::external_body] pub struct Attrs { _p: () }
impl View for Attrs { type V = Pairs; uninterp spec fn view(&self) -> Pairs; }
impl VxQ for Attrs { type Q = Pairs; open spec fn q(&self) -> Pairs { self@ } }
pub open spec fn pv(v: Seq<(&String, &String)>) -> Pairs { v.map_values(|p: (&String, &String)| (p.0@, p.1@)) }
impl Attrs {
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn iter(&self) -> (r: Vec<(&String, &String)>) ensures pv(r@) == self@ { unimplemented!() }
}
impl Clone for Attrs { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn vx_no_attrs() -> (r: Attrs) ensures r@ == Pairs::empty() { unimplemented!() }
pub ghost struct CtV { pub main: Seq<char>, pub sub: Seq<char>, pub attrs: Pairs, pub suffix: Option<Seq<char>> }
pub open spec fn cv(c: ContentType) -> CtV { CtV { main: c.main_type@, sub: c.sub_type@, attrs: c.attributes@, suffix: match c.suffix { Some(s) => Some(s@), None => None } } }
impl VxQ for ContentType { type Q = CtV; open spec fn q(&self) -> CtV { cv(*self) } }
// ---- what kind of type it is ----
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
#[verifier::external_body] pub fn vx_starts(s: &String, p: &str) -> (r: bool) ensures r == starts(s@, p@) { unimplemented!() }
pub open spec fn ends_in(c: CtV, s: Seq<char>) -> bool { c.suffix == Some(s) }
#[verifier::external_body] pub fn vx_lit<'a>(s: &'a str) -> (r: &'a str) ensures r@ == s@, forall|b: &str| (#[trigger] b@) == s@ ==> b == r { unimplemented!() }
/// `o.as_ref().unwrap_or(&String::default()) == s` for a text s that is not empty
#[verifier::external_body] pub fn vx_suffix(o: &Option<String>, s: &str) -> (r: bool) requires s@.len() > 0 ensures r == (*o is Some && o->0@ == s@) { unimplemented!() }
pub open spec fn json_type(c: CtV) -> bool { c.main == "application"@ && (starts(c.sub, "json"@) || ends_in(c, "json"@) || c.sub == "graphql"@) }
pub open spec fn strict_xml(c: CtV) -> bool { (c.main == "application"@ || c.main == "text"@) && c.sub == "xml"@ }
pub open spec fn xml_type(c: CtV) -> bool { strict_xml(c) || ((c.main == "application"@ || c.main == "text"@) && ends_in(c, "xml"@)) }
pub open spec fn form_type(c: CtV) -> bool { c.main == "application"@ && c.sub == "x-www-form-urlencoded"@ }
pub open spec fn text_type(c: CtV) -> bool { c.main == "text"@ || xml_type(c) || json_type(c) || form_type(c) }
pub open spec fn listed(c: CtV, t: (&str, &str)) -> bool { c.main == t.0@ && c.sub == t.1@ }
pub open spec fn listed_in(c: CtV, v: Seq<(&str, &str)>) -> bool { exists|i: int| 0 <= i < v.len() && listed(c, #[trigger] v[i]) }
#[verifier::external_body] pub fn vx_all<'a, T, const N: usize>(v: &'a [T; N]) -> (r: Vec<&'a T>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r@[i]) == v@[i] { unimplemented!() }
pub open spec fn media(c: CtV) -> bool { c.main == "audio"@ || c.main == "font"@ || c.main == "image"@ || c.main == "video"@ }
pub open spec fn unknown(c: CtV) -> bool { c.main == "*"@ || c.sub == "*"@ }
pub open spec fn plain(main: Seq<char>, sub: Seq<char>) -> CtV { CtV { main, sub, attrs: seq![], suffix: None } }
pub open spec fn base_of(c: CtV) -> CtV { plain(c.main, match c.suffix { Some(s) => s, None => c.sub }) }
/// the attributes count only if the first type has some; text/xml is application/xml
pub open spec fn same_type(a: CtV, b: CtV) -> bool {
  (a.attrs.len() == 0 || a.attrs == b.attrs) && ((strict_xml(a) && strict_xml(b)) || (a.main == b.main && a.sub == b.sub && a.suffix == b.suffix)) }
proof fn lemma_lits() ensures "application"@ != "text"@, "text"@ != "audio"@, "text"@ != "font"@, "text"@ != "image"@, "text"@ != "video"@, "application"@ != "audio"@, "application"@ != "font"@, "application"@ != "image"@, "application"@ != "video"@ {
  reveal_strlit("application"); reveal_strlit("text"); reveal_strlit("audio"); reveal_strlit("font"); reveal_strlit("image"); reveal_strlit("video");
  assert("text"@.len() == 4 && "application"@.len() == 11 && "audio"@.len() == 5 && "font"@.len() == 4 && "image"@.len() == 5 && "video"@.len() == 5); assert("text"@[0] == 't' && "font"@[0] == 'f'); }
/// every type is either text or binary
pub proof fn theorem_text_or_binary(c: CtV) ensures media(c) ==> !text_type(c), (media(c) || !text_type(c)) == !text_type(c) { lemma_lits(); }
/// a type is equivalent to itself, equivalence is transitive, and without attributes it is symmetric
pub proof fn theorem_same_type(a: CtV, b: CtV, c: CtV) requires a.attrs.len() == 0 || a.suffix is None ensures same_type(a, a), same_type(a, b) && same_type(b, c) && (strict_xml(a) == strict_xml(b)) ==> strict_xml(b) && strict_xml(c) || (a.main == c.main && a.sub == c.sub),
  a.attrs.len() == 0 && b.attrs.len() == 0 ==> same_type(a, b) == same_type(b, a) {}
/// the base type has no attributes and is its own base type
pub proof fn theorem_base(c: CtV) ensures base_of(base_of(c)) == base_of(c), base_of(c).attrs.len() == 0, base_of(c).suffix is None, same_type(base_of(c), c) || c.suffix is Some {}
// ---- the text of a type ----
pub open spec fn token_char(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') || c == '!' || c == '#' || c == '$' || c == '%' || c == '&' || c == '\'' || c == '*' || c == '+' || c == '-' || c == '.' || c == '^' || c == '_' || c == '`' || c == '|' || c == '~' }
pub open spec fn token(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> token_char(#[trigger] s[i]) }
pub assume_specification[char::is_ascii_alphanumeric](c: &char) -> (r: bool) ensures r == (('a' <= *c && *c <= 'z') || ('A' <= *c && *c <= 'Z') || ('0' <= *c && *c <= '9'));
#[verifier::external_body] pub fn vx_has_char(s: &str, c: char) -> (r: bool) ensures r == s@.contains(c) { unimplemented!() }
#[verifier::external_body] pub fn vx_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
pub open spec fn attr_text(p: (Seq<char>, Seq<char>)) -> Seq<char> { if token(p.1) { p.0 + seq!['='] + p.1 } else { p.0 + seq!['=', '"'] + p.1 + seq!['"'] } }
pub open spec fn attr_texts(v: Pairs) -> Seq<Seq<char>> { v.map_values(|p: (Seq<char>, Seq<char>)| attr_text(p)) }
pub open spec fn base_text(c: CtV) -> Seq<char> { match c.suffix { Some(s) => c.main + seq!['/'] + c.sub + seq!['+'] + s, None => c.main + seq!['/'] + c.sub } }
pub open spec fn ct_text(c: CtV) -> Seq<char> { if c.attrs.len() == 0 { base_text(c) } else { base_text(c) + seq![';'] + joined(attr_texts(c.attrs), seq![';']) } }
pub open spec fn final_text(f: Seq<char>, old: Seq<char>, c: CtV) -> bool { f =~= old + ct_text(c) }
// ---- reading: the mime crate ----
#[verifier::external_body] pub struct Mime { _p: () }
#[verifier::external_body] pub struct Name { _p: () }
impl Name { pub uninterp spec fn v(&self) -> Seq<char>; #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.v() { unimplemented!() } }
pub uninterp spec fn mime_of(s: Seq<char>) -> Option<CtV>;
pub uninterp spec fn mv(m: Mime) -> CtV;
impl Mime {
  #[verifier::external_body] pub fn from_str(s: &str) -> (r: Result<Mime, VxError>) ensures r is Ok == mime_of(s@) is Some, r is Ok ==> mv(r->Ok_0) == mime_of(s@)->0 { unimplemented!() }
  #[verifier::external_body] pub fn type_(&self) -> (r: Name) ensures r.v() == mv(*self).main { unimplemented!() }
  #[verifier::external_body] pub fn subtype(&self) -> (r: Name) ensures r.v() == mv(*self).sub { unimplemented!() }
  #[verifier::external_body] pub fn suffix(&self) -> (r: Option<Name>) ensures r is Some == mv(*self).suffix is Some, r is Some ==> r->0.v() == mv(*self).suffix->0 { unimplemented!() }
}
#[verifier::external_body] pub fn vx_params(m: &Mime) -> (r: Attrs) ensures r@ == mv(*m).attrs { unimplemented!() }
pub open spec fn ct_or(o: Option<CtV>) -> CtV { match o { Some(c) => c, None => plain("*"@, "*"@) } }
/// unwrap_or_default
pub fn vx_or_any(r: Result<ContentType, VxError>) -> (o: ContentType) ensures cv(o) == (match r { Ok(c) => cv(c), Err(_) => plain("*"@, "*"@) }) { match r { Ok(c) => c, Err(_) => ContentType::ct_default() } }
// ---- detection ----
#[verifier::external_body] pub struct Regex { _p: () }
#[verifier::external_body] pub struct Match { _p: () }
impl Match { pub uninterp spec fn at(&self) -> usize; #[verifier::external_body] pub fn start(&self) -> (r: usize) ensures r == self.at() { unimplemented!() } }
pub ghost enum Rx { Xml, Html, Tag, Json }
pub uninterp spec fn rx(r: Regex) -> Rx;
/// where the leftmost match of the expression starts
pub uninterp spec fn leftmost(r: Rx, s: Seq<char>) -> Option<usize>;
impl Regex { #[verifier::external_body] pub fn find(&self, s: &str) -> (r: Option<Match>) ensures r is Some == leftmost(rx(*self), s@) is Some, r is Some ==> r->0.at() == leftmost(rx(*self), s@)->0 { unimplemented!() } }
pub open spec fn begins(r: Rx, s: Seq<char>) -> bool { leftmost(r, s) == Some(0usize) }
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_upper(s: &str) -> (r: String) ensures r@ == upper(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_rx_xml() -> (r: Regex) ensures rx(r) == Rx::Xml { unimplemented!() }
#[verifier::external_body] pub fn vx_rx_html() -> (r: Regex) ensures rx(r) == Rx::Html { unimplemented!() }
#[verifier::external_body] pub fn vx_rx_tag() -> (r: Regex) ensures rx(r) == Rx::Tag { unimplemented!() }
#[verifier::external_body] pub fn vx_rx_json() -> (r: Regex) ensures rx(r) == Rx::Json { unimplemented!() }
#[verifier::external_body] pub fn vx_xml() -> (r: ContentType) ensures cv(r) == plain("application"@, "xml"@) { unimplemented!() }
#[verifier::external_body] pub fn vx_html() -> (r: ContentType) ensures cv(r) == plain("text"@, "html"@) { unimplemented!() }
#[verifier::external_body] pub fn vx_json() -> (r: ContentType) ensures cv(r) == plain("application"@, "json"@) { unimplemented!() }
#[verifier::external_body] pub fn vx_text() -> (r: ContentType) ensures cv(r) == plain("text"@, "plain"@) { unimplemented!() }
pub open spec fn looks(s: Seq<char>) -> CtV { if begins(Rx::Xml, s) { plain("application"@, "xml"@) } else if begins(Rx::Html, upper(s)) { plain("text"@, "html"@) } else if begins(Rx::Tag, s) { plain("application"@, "xml"@) } else if begins(Rx::Json, s) { plain("application"@, "json"@) } else { plain("text"@, "plain"@) } }
pub open spec fn cvo(o: Option<ContentType>) -> Option<CtV> { match o { Some(c) => Some(cv(c)), None => None } }
// bytes: decoding, and the bytes up to the first that is wrong or missing
pub uninterp spec fn unutf8(b: Seq<u8>) -> Option<Seq<char>>;
pub uninterp spec fn valid_len(b: Seq<u8>) -> nat;
/// the bytes end in the middle of a character
pub uninterp spec fn cut_short(b: Seq<u8>) -> bool;
pub broadcast axiom fn axiom_valid(b: Seq<u8>) ensures #[trigger] valid_len(b) <= b.len(), unutf8(b.take(valid_len(b) as int)) is Some;
#[verifier::external_body] pub struct Utf8Error { _p: () }
impl Utf8Error { pub uninterp spec fn b(&self) -> Seq<u8>;
  #[verifier::external_body] pub fn valid_up_to(&self) -> (r: usize) ensures r == valid_len(self.b()) { unimplemented!() }
  #[verifier::external_body] pub fn error_len(&self) -> (r: Option<usize>) ensures r is None == cut_short(self.b()) { unimplemented!() } }
#[verifier::external_body] pub fn from_utf8<'a>(b: &'a [u8]) -> (r: Result<&'a str, Utf8Error>) ensures r is Ok == unutf8(b@) is Some, r is Ok ==> r->Ok_0@ == unutf8(b@)->0, r is Err ==> r->Err_0.b() == b@ { unimplemented!() }
#[verifier::external_body] pub fn vx_first<'a>(s: &'a [u8], n: usize) -> (r: &'a [u8]) requires n <= s@.len() ensures r@ == s@.take(n as int) { unimplemented!() }
/// the text of the first bytes: a character that is cut off does not count
pub open spec fn head_text(b: Seq<u8>) -> Option<Seq<char>> {
  let h = if b.len() > 32 { b.take(32) } else { b };
  match unutf8(h) { Some(s) => Some(s), None => if b.len() > 32 && cut_short(h) { unutf8(h.take(valid_len(h) as int)) } else { None } } }
}
