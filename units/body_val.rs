// ---- bodies: content types by what their functions read, bytes as sequences ----
verus! {
pub type JO = Map<Seq<char>, JV>;
/// two str values with the same characters are equal
#[verifier::external_body] pub fn vx_lit<'a>(s: &'a str) -> (r: &'a str) ensures r@ == s@, forall|b: &str| (#[trigger] b@) == s@ ==> b == r { unimplemented!() }
#[verifier::external_body] pub struct ContentType { _p: () }
#[verifier::external_body] pub ghost struct CT { _p: () }
pub uninterp spec fn ctq(c: ContentType) -> CT;
pub uninterp spec fn ct_default() -> CT;
pub uninterp spec fn ct_json(c: CT) -> bool;
pub uninterp spec fn ct_text(c: CT) -> bool;
pub uninterp spec fn ct_binary(c: CT) -> bool;
/// the text a content type is written as, and the content type a text is read as
pub uninterp spec fn ct_print(c: CT) -> Seq<char>;
pub uninterp spec fn ct_parse(s: Seq<char>) -> Option<CT>;
/// what the contents look like
pub uninterp spec fn ct_of_text(s: Seq<char>) -> Option<CT>;
pub uninterp spec fn ct_of_bytes(s: Seq<u8>) -> Option<CT>;
impl ContentType {
  #[verifier::external_body] pub fn is_json(&self) -> (r: bool) ensures r == ct_json(ctq(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn is_text(&self) -> (r: bool) ensures r == ct_text(ctq(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn is_binary(&self) -> (r: bool) ensures r == ct_binary(ctq(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == ct_print(ctq(*self)) { unimplemented!() }
  #[verifier::external_body] pub fn parse(s: &str) -> (r: Result<ContentType, VxError>) ensures r is Ok == ct_parse(s@) is Some, r is Ok ==> ctq(r->Ok_0) == ct_parse(s@)->0 { unimplemented!() }
}
impl Clone for ContentType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub trait VxUnwrapDefault { type T; spec fn or_default(&self, r: Self::T) -> bool; fn unwrap_or_default(self) -> (r: Self::T) where Self: Sized ensures self.or_default(r); }
#[verifier::external_body] pub fn vx_ct_default() -> (r: ContentType) ensures ctq(r) == ct_default() { unimplemented!() }
pub fn vx_ct_or(o: Option<ContentType>) -> (r: ContentType) ensures ctq(r) == (match o { Some(c) => ctq(c), None => ct_default() }) { match o { Some(c) => c, None => vx_ct_default() } }
#[verifier::external_body] pub fn detect_content_type_from_string(s: &str) -> (r: Option<ContentType>) ensures ctqo(r) == ct_of_text(s@) { unimplemented!() }
#[verifier::external_body] pub fn detect_content_type_from_bytes<T: VxBytes>(s: &T) -> (r: Option<ContentType>) ensures ctqo(r) == ct_of_bytes(s.by()) { unimplemented!() }
pub open spec fn ctqo(o: Option<ContentType>) -> Option<CT> { match o { Some(c) => Some(ctq(c)), None => None } }
pub open spec fn ct_or(o: Option<CT>) -> CT { match o { Some(c) => c, None => ct_default() } }
// ---- bytes ----
#[verifier::external_body] #[derive(Default)] pub struct Bytes { _p: () }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Clone for Bytes { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn unutf8(s: Seq<u8>) -> Option<Seq<char>>;
pub broadcast axiom fn axiom_utf8(s: Seq<char>) ensures unutf8(#[trigger] utf8(s)) == Some(s), (utf8(s).len() == 0) == (s.len() == 0);
pub broadcast axiom fn axiom_unutf8(b: Seq<u8>) ensures (#[trigger] unutf8(b)) matches Some(s) ==> utf8(s) == b;
pub uninterp spec fn b64(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn unb64(s: Seq<char>) -> Option<Seq<u8>>;
pub broadcast axiom fn axiom_b64(b: Seq<u8>) ensures unb64(#[trigger] b64(b)) == Some(b);
pub broadcast axiom fn axiom_b64_empty(b: Seq<u8>) ensures (#[trigger] b64(b)).len() == 0 <==> b.len() == 0;
/// the JSON value a text holds
pub uninterp spec fn jparse(b: Seq<u8>) -> Option<JV>;
pub broadcast axiom fn axiom_jprint(v: JV) ensures (#[trigger] jprint(v)).len() > 0;
pub trait VxBytes { spec fn by(&self) -> Seq<u8>; }
impl VxBytes for String { open spec fn by(&self) -> Seq<u8> { utf8(self@) } }
impl VxBytes for Bytes { open spec fn by(&self) -> Seq<u8> { self@ } }
impl VxBytes for &str { open spec fn by(&self) -> Seq<u8> { utf8((**self)@) } }
impl VxBytes for Vec<u8> { open spec fn by(&self) -> Seq<u8> { self@ } }
/// Bytes::from of a text or of bytes
#[verifier::external_body] pub fn vx_bytes<T: VxBytes>(t: T) -> (r: Bytes) ensures r@ == t.by() { unimplemented!() }
#[verifier::external_body] pub fn vx_into_vec(t: String) -> (r: Vec<u8>) ensures r@ == utf8(t@) { unimplemented!() }
#[verifier::external_body] pub fn vx_bytes_of(t: &Vec<u8>) -> (r: Bytes) ensures r@ == t@ { unimplemented!() }
#[verifier::external_body] pub fn vx_from_utf8<'a>(b: &'a Bytes) -> (r: Result<&'a str, VxError>) ensures r is Ok == unutf8(b@) is Some, r is Ok ==> Some(r->Ok_0@) == unutf8(b@) { unimplemented!() }
#[verifier::external_body] pub fn vx_b64_encode(b: &Bytes) -> (r: String) ensures r@ == b64(b@) { unimplemented!() }
#[verifier::external_body] pub fn vx_b64_decode(s: &str) -> (r: Result<Vec<u8>, VxError>) ensures r is Ok == unb64(s@) is Some, r is Ok ==> Some(r->Ok_0@) == unb64(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_from_slice(b: &Bytes) -> (r: Result<Value, VxError>) ensures r is Ok == jparse(b@) is Some, r is Ok ==> Some(jv(r->Ok_0)) == jparse(b@) { unimplemented!() }
impl Value {
  pub fn as_str<'a>(&'a self) -> (r: Option<&'a str>) ensures r is Some == (jv(*self) is Str), r matches Some(s) ==> s@ == jv(*self)->Str_0 { broadcast use axiom_jv; match self { Value::String(s) => Some(s.as_str()), _ => None } }
  pub fn as_u64(&self) -> (r: Option<u64>) ensures r == (match jv(*self) { JV::Num(NV::Pos(u)) => Some(u), _ => None }) { broadcast use axiom_jv; match self { Value::Number(n) => n.as_u64(), _ => None } }
}
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T> [std::option::Option::<T>::or](x: std::option::Option<T>, y: std::option::Option<T>) -> (r: std::option::Option<T>) where T: std::marker::Destruct
  ensures r == (match x { Some(v) => Some(v), None => y });
// ---- headers ----
impl VxKey for String { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
pub type Headers = HashMap<String, Vec<String>>;
pub open spec fn strs(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub open spec fn hdrs(h: Headers) -> Map<Seq<char>, Seq<Seq<char>>> { h@.map_values(|e: (String, Vec<String>)| strs(e.1@)) }
pub open spec fn hdrso(h: Option<Headers>) -> Option<Map<Seq<char>, Seq<Seq<char>>>> { match h { Some(h) => Some(hdrs(h)), None => None } }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_lower(s: &str) -> (r: String) ensures r@ == lower(s@) { unimplemented!() }
pub type HM = Option<Map<Seq<char>, Seq<Seq<char>>>>;
/// a name that is content-type in any case
pub open spec fn is_ct(k: Seq<char>) -> bool { lower(k) == "content-type"@ }
/// no two headers are both the content type
pub open spec fn one_ct(h: HM) -> bool { h matches Some(m) ==> forall|a: Seq<char>, b: Seq<char>| #[trigger] m.dom().contains(a) && #[trigger] m.dom().contains(b) && is_ct(a) && is_ct(b) ==> a == b }
pub open spec fn has_ct(m: Map<Seq<char>, Seq<Seq<char>>>) -> bool { exists|k: Seq<char>| #[trigger] m.dom().contains(k) && is_ct(k) }
/// the content type the headers name: the first value of the header
pub open spec fn head_ct(h: HM) -> Option<CT> { match h { Some(m) => if has_ct(m) { let k = choose|k: Seq<char>| #[trigger] m.dom().contains(k) && is_ct(k); if m[k].len() > 0 { ct_parse(m[k][0]) } else { None } } else { None }, None => None } }
pub proof fn lemma_head_ct(m: Map<Seq<char>, Seq<Seq<char>>>, k: Seq<char>) requires m.dom().contains(k), is_ct(k) ensures one_ct(Some(m)) ==> head_ct(Some(m)) == (if m[k].len() > 0 { ct_parse(m[k][0]) } else { None }) {}
pub ghost enum BQ { Missing, Empty, Null, Present(Seq<u8>, Option<CT>, Option<ContentTypeHint>) }
pub open spec fn bq(b: OptionalBody) -> BQ { match b { OptionalBody::Missing => BQ::Missing, OptionalBody::Empty => BQ::Empty, OptionalBody::Null => BQ::Null, OptionalBody::Present(x, c, h) => BQ::Present(x@, ctqo(c), h) } }
impl Clone for ContentTypeHint { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for ContentTypeHint {}
}
