// ---- parts: what a header name, a content type and a text body mean ----
verus! {
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, E, F> [std::result::Result::<T, E>::unwrap_or_else](x: std::result::Result<T, E>, f: F) -> (r: T) where F: std::ops::FnOnce(E,) -> T + std::marker::Destruct
  requires x is Err ==> f.requires((x->Err_0,)) ensures x is Ok ==> r == x->Ok_0, x is Err ==> f.ensures((x->Err_0,), r);
/// values joined with ", "
pub open spec fn joined(v: Seq<Seq<char>>) -> Seq<char> decreases v.len() { if v.len() == 0 { seq![] } else if v.len() == 1 { v[0] } else { joined(v.drop_last()) + ", "@ + v.last() } }
#[verifier::external_body] pub fn vx_join(v: &Vec<String>, s: &str) -> (r: String) requires s@ == ", "@ ensures r@ == joined(strs(v@)) { unimplemented!() }
/// what a lookup of the name n, in any case, may answer
pub type Hdrs = Map<Seq<char>, Seq<Seq<char>>>;
pub open spec fn has_name(m: Hdrs, n: Seq<char>) -> bool { exists|k: Seq<char>| #[trigger] m.dom().contains(k) && lower(k) == lower(n) }
pub open spec fn a_value(m: Hdrs, n: Seq<char>, t: Seq<char>) -> bool { exists|k: Seq<char>| #[trigger] m.dom().contains(k) && lower(k) == lower(n) && t == joined(m[k]) }
pub open spec fn named(h: HM, n: Seq<char>) -> bool { match h { Some(m) => has_name(m, n), None => false } }
pub open spec fn looked(h: HM, n: Seq<char>, o: Option<String>) -> bool { o is Some == named(h, n) && (o matches Some(t) ==> a_value(h->0, n, t@)) }
/// header names are different in more than case
pub open spec fn distinct(m: Map<Seq<char>, Seq<Seq<char>>>) -> bool { forall|a: Seq<char>, b: Seq<char>| #[trigger] m.dom().contains(a) && #[trigger] m.dom().contains(b) && lower(a) == lower(b) ==> a == b }
/// a header is found by its name in any case, with its own values, and adding another header changes neither
pub proof fn theorem_lookup(m: Map<Seq<char>, Seq<Seq<char>>>, k: Seq<char>, n: Seq<char>, o: Option<String>) requires distinct(m), m.dom().contains(k), lower(k) == lower(n), looked(Some(m), n, o) ensures o is Some, o->0@ == joined(m[k]) { assert(has_name(m, n)); }
pub proof fn theorem_added(m: Map<Seq<char>, Seq<Seq<char>>>, k: Seq<char>, v: Seq<Seq<char>>, n: Seq<char>, o: Option<String>) requires distinct(m.insert(k, v)), looked(Some(m.insert(k, v)), n, o)
  ensures lower(n) == lower(k) ==> o is Some && o->0@ == joined(v), lower(n) != lower(k) ==> (o is Some == named(Some(m), n)) {
  let i = m.insert(k, v); assert(i.dom().contains(k)); assert(lower(n) == lower(k) ==> has_name(i, n));
  if lower(n) != lower(k) && has_name(i, n) { let j = choose|j: Seq<char>| #[trigger] i.dom().contains(j) && lower(j) == lower(n); assert(m.dom().contains(j)); }
  if lower(n) != lower(k) && has_name(m, n) { let j = choose|j: Seq<char>| #[trigger] m.dom().contains(j) && lower(j) == lower(n); assert(i.dom().contains(j)); }
}
// ---- the text of a body ----
pub open spec fn texty(c: Option<CT>, h: Option<ContentTypeHint>) -> bool { match h { Some(h) => h is TEXT, None => c is Some && ct_text(c->0) } }
pub open spec fn text_of(b: BQ) -> Option<Seq<char>> { match b { BQ::Present(x, c, h) => if texty(c, h) { unutf8(x) } else { None }, _ => None } }
/// two hexadecimal digits, in upper case
pub open spec fn hex_digit(n: nat) -> char { if n < 10 { ((48 + n) as u8) as char } else { ((55 + n) as u8) as char } }
pub open spec fn hex2(b: u8) -> Seq<char> { seq![hex_digit(b as nat / 16), hex_digit(b as nat % 16)] }
pub open spec fn hexes(s: Seq<u8>) -> Seq<char> decreases s.len() { if s.len() == 0 { seq![] } else { hexes(s.drop_last()) + hex2(s.last()) } }
pub open spec fn shown(b: BQ, n: nat) -> Seq<char> { match b { BQ::Present(x, _, _) => (if x.len() <= n { hexes(x) + " ("@ } else { hexes(x.take(n as int)) + "... ("@ }) + dec(x.len()) + " bytes)"@, _ => seq![] } }
pub open spec fn display(b: BQ) -> Seq<char> { match text_of(b) { Some(t) => t, None => shown(b, 32) } }
pub open spec fn summary(b: BQ) -> Seq<char> { match b { BQ::Missing => "Missing"@, BQ::Empty => "Empty"@, BQ::Null => "Null"@, BQ::Present(x, Some(c), _) => "Present("@ + dec(x.len()) + " bytes, "@ + ct_print(c) + ")"@, BQ::Present(x, None, _) => "Present("@ + dec(x.len()) + " bytes)"@ } }
impl VxDisp for ContentType { open spec fn disp(&self) -> Seq<char> { ct_print(ctq(*self)) } #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
pub open spec fn lossy(b: BQ) -> Seq<char> { match b { BQ::Present(x, _, _) => match unutf8(x) { Some(s) => s, None => seq![] }, _ => seq![] } }
/// hexadecimal display tells bytes apart
pub proof fn lemma_hex(a: u8, b: u8) requires hex2(a) == hex2(b) ensures a == b { let x = a as nat / 16; let y = b as nat / 16; assert(hex2(a)[0] == hex_digit(x) && hex2(b)[0] == hex_digit(y)); assert(hex2(a)[1] == hex_digit(a as nat % 16) && hex2(b)[1] == hex_digit(b as nat % 16)); assert(x < 16 && y < 16); }
pub proof fn lemma_hexes_len(s: Seq<u8>) ensures hexes(s).len() == 2 * s.len() decreases s.len() { if s.len() > 0 { lemma_hexes_len(s.drop_last()); } }
pub proof fn theorem_hexes(a: Seq<u8>, b: Seq<u8>) requires hexes(a) == hexes(b) ensures a == b decreases a.len() {
  lemma_hexes_len(a); lemma_hexes_len(b);
  if a.len() > 0 { lemma_hexes_len(a.drop_last()); lemma_hexes_len(b.drop_last()); let n = 2 * (a.len() - 1);
    assert(hexes(a).take(n) =~= hexes(a.drop_last())); assert(hexes(b).take(n) =~= hexes(b.drop_last()));
    assert(hexes(a).skip(n) =~= hex2(a.last())); assert(hexes(b).skip(n) =~= hex2(b.last()));
    theorem_hexes(a.drop_last(), b.drop_last()); lemma_hex(a.last(), b.last());
    assert(a =~= a.drop_last().push(a.last())); assert(b =~= b.drop_last().push(b.last())); } else { assert(a =~= b); }
}
/// all characters are ASCII
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
#[verifier::external_body] pub fn vx_ascii(s: &String) -> (r: bool) ensures r == ascii(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
#[verifier::external_body] pub fn vx_len(s: &Bytes) -> (r: usize) ensures r == s@.len() { unimplemented!() }
#[verifier::external_body] pub fn vx_items<'a>(s: &'a Bytes) -> (r: Vec<&'a u8>) ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> *(#[trigger] r@[i]) == s@[i] { unimplemented!() }
#[verifier::external_body] pub fn vx_head<'a>(s: &'a Bytes, n: usize) -> (r: Vec<&'a u8>) requires n <= s@.len() ensures r@.len() == n, forall|i: int| 0 <= i < n ==> *(#[trigger] r@[i]) == s@[i] { unimplemented!() }
pub fn vx_owned(s: &&str) -> (r: String) ensures r@ == (**s)@ { (*s).to_string() }
/// format!("{:02X}", b)
#[verifier::external_body] pub fn vx_hex2(b: &u8) -> (r: String) ensures r@ == hex2(*b) { unimplemented!() }
/// collect() of texts into one text
impl VxCollect<String> for String { open spec fn added(&self, x: String, r: Self) -> bool { r@ == self@ + x@ } open spec fn is_new(&self) -> bool { self@ == Seq::<char>::empty() }
  #[verifier::external_body] fn vx_new() -> (r: Self) { String::new() } #[verifier::external_body] fn vx_add(&mut self, x: String) { self.push_str(x.as_str()); } }
// ---- the content type of a part ----
pub open spec fn detected(b: BQ) -> Option<CT> { match b { BQ::Present(_, _, _) => ct_of_text(lossy(b)), _ => None } }
/// the body's own type, else the one looked up, else the one detected
pub open spec fn part_ct(b: BQ, l: Option<String>) -> Option<CT> { match b { BQ::Present(_, Some(c), _) => Some(c), _ => match l { Some(t) => match ct_parse(t@) { Some(c) => Some(c), None => detected(b) }, None => detected(b) } } }
// ---- metadata ----
pub uninterp spec fn alower(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_alower(s: &String) -> (r: String) ensures r@ == alower(s@) { unimplemented!() }
pub type Metadata = HashMap<String, Value>;
pub open spec fn meta(m: Metadata) -> JO { m@.map_values(|e: (String, Value)| jv(e.1)) }
pub open spec fn is_meta_ct(k: Seq<char>) -> bool { alower(k) == "contenttype"@ || alower(k) == "content-type"@ }
pub open spec fn has_meta_ct(m: JO) -> bool { exists|k: Seq<char>| #[trigger] m.dom().contains(k) && is_meta_ct(k) }
/// the first value of a list, or the value itself
pub open spec fn first(v: JV) -> JV { match v { JV::Arr(s) => if s.len() > 0 { s[0] } else { v }, _ => v } }
#[verifier::external_body] pub fn vx_at<'a>(v: &'a Value, i: usize) -> (r: Option<&'a Value>) ensures r is Some == (jv(*v) matches JV::Arr(s) && i < s.len()), r matches Some(x) ==> jv(*x) == jv(*v)->Arr_0[i as int] { unimplemented!() }
pub open spec fn meta_looked(m: JO, o: Option<String>) -> bool { o is Some == has_meta_ct(m) && (o matches Some(t) ==> exists|k: Seq<char>| #[trigger] m.dom().contains(k) && is_meta_ct(k) && t@ == jtext(first(m[k]))) }
pub open spec fn message_ct(b: BQ, m: JO, c: Option<CT>) -> bool { match b { BQ::Present(_, Some(d), _) => c == Some(d), _ => if has_meta_ct(m) { exists|k: Seq<char>| #[trigger] m.dom().contains(k) && is_meta_ct(k) && c == ct_parse(jtext(m[k])) } else { c == detected(b) } } }
/// values added to a message: none is null, one is a text, more are a list
pub open spec fn meta_value(v: Seq<&str>) -> JV { if v.len() == 0 { JV::Null } else if v.len() == 1 { JV::Str(v[0]@) } else { JV::Arr(v.map_values(|s: &str| JV::Str(s@))) } }
// ---- the generators and rules are passed on ----
#[verifier::external_body] pub struct MatchingRules { _p: () }
#[verifier::external_body] pub struct Generators { _p: () }
impl Clone for MatchingRules { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Generators { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct ProviderState { _p: () }
// ---- a part: the methods every part has to give ----
#[verifier::external_body] pub struct Part { _p: () }
pub uninterp spec fn ph(p: Part) -> Option<Headers>;
pub uninterp spec fn pb(p: Part) -> OptionalBody;
pub uninterp spec fn pl(p: Part) -> Option<String>;
impl Part {
  #[verifier::external_body] pub fn headers(&self) -> (r: &Option<Headers>) ensures *r == ph(*self) { unimplemented!() }
  #[verifier::external_body] pub fn headers_mut(&mut self) -> (r: &mut Headers) ensures r@ == (match ph(*old(self)) { Some(h) => h@, None => Map::empty() }), ph(*final(self)) == Some(*final(r)), pb(*final(self)) == pb(*old(self)) { unimplemented!() }
  #[verifier::external_body] pub fn body(&self) -> (r: &OptionalBody) ensures *r == pb(*self) { unimplemented!() }
  #[verifier::external_body] pub fn lookup_content_type(&self) -> (r: Option<String>) ensures (match r { Some(t) => pl(*self) matches Some(u) && t@ == u@, None => pl(*self) is None }) { unimplemented!() }
}
/// lookup_header_value and detect_content_type of any part, by the contracts proved for them below
pub trait VxPart { spec fn hh(&self) -> HM; spec fn bb(&self) -> BQ;
  fn lookup_header_value(&self, n: &str) -> (r: Option<String>) ensures looked(self.hh(), n@, r);
  fn detect_content_type(&self) -> (r: Option<ContentType>) ensures ctqo(r) == detected(self.bb()); }
}
macro_rules! vx_part { ($t:ty, $s:ident, $h:expr, $b:expr) => { verus! { impl VxPart for $t { open spec fn hh(&self) -> HM { let $s = self; $h } open spec fn bb(&self) -> BQ { let $s = self; $b }
  #[verifier::external_body] fn lookup_header_value(&self, n: &str) -> (r: Option<String>) { unimplemented!() } #[verifier::external_body] fn detect_content_type(&self) -> (r: Option<ContentType>) { unimplemented!() } } } } }
vx_part!(Request, s, hdrso(s.headers), bq(s.body)); vx_part!(Response, s, hdrso(s.headers), bq(s.body)); vx_part!(HttpRequest, s, hdrso(s.headers), bq(s.body)); vx_part!(HttpResponse, s, hdrso(s.headers), bq(s.body));
vx_part!(Message, s, None, bq(s.contents));
