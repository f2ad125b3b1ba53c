// ---- serde_json::Value: mirror of the type; a JSON value is seen as the exact value it holds (floats by bits) ----
verus! {
#[verifier::external_body] pub struct Number { _p: () }
#[verifier::external_body] pub struct JMap { _p: () }
pub enum Value { Null, Bool(bool), Number(Number), String(String), Array(Vec<Value>), Object(JMap) }
/// a number: not negative, negative, or a (finite) float
pub ghost enum NV { Pos(u64), Neg(i64), Float(f64) }
pub ghost enum JV { Null, Bool(bool), Num(NV), Str(Seq<char>), Arr(Seq<JV>), Obj(Map<Seq<char>, JV>) }
pub uninterp spec fn nv(n: Number) -> NV;
pub uninterp spec fn jv(v: Value) -> JV;
pub uninterp spec fn jm(m: JMap) -> Map<Seq<char>, JV>;
pub open spec fn jvs(s: Seq<Value>) -> Seq<JV> { s.map_values(|v: Value| jv(v)) }
pub broadcast axiom fn axiom_jv(v: Value) ensures #[trigger] jv(v) == (match v { Value::Null => JV::Null, Value::Bool(b) => JV::Bool(b), Value::Number(n) => JV::Num(nv(n)), Value::String(s) => JV::Str(s@), Value::Array(a) => JV::Arr(jvs(a@)), Value::Object(m) => JV::Obj(jm(m)) });
pub broadcast axiom fn axiom_nv(n: Number) ensures #[trigger] nv(n) matches NV::Neg(i) ==> i < 0;
/// the float nearest to an integer (`as f64`), and the integer part of a float, towards zero (any value for an infinity is out of every integer range)
pub uninterp spec fn f_of(i: int) -> f64;
pub uninterp spec fn f_nan(f: f64) -> bool;
pub uninterp spec fn f_finite(f: f64) -> bool;
pub uninterp spec fn f_trunc(f: f64) -> int;
pub uninterp spec fn f_gt0(f: f64) -> bool;
pub open spec fn nv_float(n: NV) -> f64 { match n { NV::Pos(u) => f_of(u as int), NV::Neg(i) => f_of(i as int), NV::Float(f) => f } }
impl Number {
  #[verifier::external_body] pub fn is_u64(&self) -> (r: bool) ensures r == (nv(*self) is Pos) { unimplemented!() }
  #[verifier::external_body] pub fn is_i64(&self) -> (r: bool) ensures r == (nv(*self) is Neg || (nv(*self) matches NV::Pos(u) && u <= i64::MAX as u64)) { unimplemented!() }
  #[verifier::external_body] pub fn is_f64(&self) -> (r: bool) ensures r == (nv(*self) is Float) { unimplemented!() }
  #[verifier::external_body] pub fn as_u64(&self) -> (r: Option<u64>) ensures r == (match nv(*self) { NV::Pos(u) => Some(u), _ => None }) { unimplemented!() }
  #[verifier::external_body] pub fn as_i64(&self) -> (r: Option<i64>) ensures r == (match nv(*self) { NV::Pos(u) => if u <= i64::MAX as u64 { Some(u as i64) } else { None }, NV::Neg(i) => Some(i), _ => None }) { unimplemented!() }
  #[verifier::external_body] pub fn as_f64(&self) -> (r: Option<f64>) ensures r == Some(nv_float(nv(*self))), !f_nan(r->0) { unimplemented!() }
}
impl Clone for Value { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures jv(r) == jv(*self) { unimplemented!() } }
impl Clone for JMap { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures jm(r) == jm(*self) { unimplemented!() } }
impl JMap {
  #[verifier::external_body] pub fn new() -> (r: JMap) ensures jm(r) == Map::<Seq<char>, JV>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: String, v: Value) -> (r: Option<Value>) ensures jm(*final(self)) == jm(*old(self)).insert(k@, jv(v)) { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&Value>) ensures r is Some == jm(*self).dom().contains(k@), r matches Some(v) ==> jv(*v) == jm(*self)[k@] { unimplemented!() }
  #[verifier::external_body] pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == jm(*self).dom().contains(k@) { unimplemented!() }
}
impl Value {
  pub fn is_null(&self) -> (r: bool) ensures r == (jv(*self) is Null), r == (*self is Null) { broadcast use axiom_jv; match self { Value::Null => true, _ => false } }
  pub fn is_string(&self) -> (r: bool) ensures r == (jv(*self) is Str) { broadcast use axiom_jv; match self { Value::String(_) => true, _ => false } }
  pub fn is_array(&self) -> (r: bool) ensures r == (jv(*self) is Arr), r == (*self is Array) { broadcast use axiom_jv; match self { Value::Array(_) => true, _ => false } }
  pub fn is_object(&self) -> (r: bool) ensures r == (jv(*self) is Obj), r == (*self is Object) { broadcast use axiom_jv; match self { Value::Object(_) => true, _ => false } }
  #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&Value>) ensures r is Some == (jv(*self) matches JV::Obj(m) && m.dom().contains(k@)), r matches Some(v) ==> jv(*v) == jv(*self)->Obj_0[k@] { unimplemented!() }
}
/// the text serde_json prints for a value
pub uninterp spec fn jprint(v: JV) -> Seq<char>;
/// a value as text: a string is its own text, null is empty, anything else is printed
pub open spec fn jtext(v: JV) -> Seq<char> { match v { JV::Str(s) => s, JV::Null => seq![], v => jprint(v) } }
impl Value { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == jprint(jv(*self)) { unimplemented!() } }
// ---- json!(x) for values that are not literals ----
pub trait VxToValue { spec fn tv(&self) -> JV; fn vx_to_value(&self) -> (r: Value) ensures jv(r) == self.tv(); }
pub open spec fn jstring(s: String) -> JV { JV::Str(s@) }
pub open spec fn jint(i: int) -> JV { if i >= 0 { JV::Num(NV::Pos(i as u64)) } else { JV::Num(NV::Neg(i as i64)) } }
pub open spec fn jfloat(f: f64) -> JV { if f_finite(f) { JV::Num(NV::Float(f)) } else { JV::Null } }
}
macro_rules! vx_tv { ($t:ty, $x:ident, $e:expr) => { verus! { impl VxToValue for $t { open spec fn tv(&self) -> JV { let $x = *self; $e } #[verifier::external_body] fn vx_to_value(&self) -> (r: Value) { unimplemented!() } } } } }
vx_tv!(u64, x, jint(x as int)); vx_tv!(i64, x, jint(x as int)); vx_tv!(i32, x, jint(x as int)); vx_tv!(u16, x, jint(x as int)); vx_tv!(usize, x, jint(x as int)); vx_tv!(u32, x, jint(x as int));
vx_tv!(f64, x, jfloat(x)); vx_tv!(bool, x, JV::Bool(x)); vx_tv!(String, x, jstring(x)); vx_tv!(Value, x, jv(x));
verus! {
impl VxToValue for str { open spec fn tv(&self) -> JV { JV::Str(self@) } #[verifier::external_body] fn vx_to_value(&self) -> (r: Value) { unimplemented!() } }
impl<T: VxToValue + ?Sized> VxToValue for &T { open spec fn tv(&self) -> JV { (**self).tv() } fn vx_to_value(&self) -> (r: Value) { (**self).vx_to_value() } }
impl<T: VxToValue> VxToValue for Vec<T> { open spec fn tv(&self) -> JV { JV::Arr(self@.map_values(|x: T| x.tv())) } #[verifier::external_body] fn vx_to_value(&self) -> (r: Value) { unimplemented!() } }
impl<T: VxToValue> VxToValue for Option<T> { open spec fn tv(&self) -> JV { match self { Some(x) => x.tv(), None => JV::Null } } fn vx_to_value(&self) -> (r: Value) { broadcast use axiom_jv; match self { Some(x) => x.vx_to_value(), None => Value::Null } } }
pub trait VxKeyText { spec fn kt(&self) -> Seq<char>; fn vx_kt(&self) -> (r: String) ensures r@ == self.kt(); }
impl VxKeyText for str { open spec fn kt(&self) -> Seq<char> { self@ } fn vx_kt(&self) -> (r: String) { self.to_string() } }
impl VxKeyText for String { open spec fn kt(&self) -> Seq<char> { self@ } fn vx_kt(&self) -> (r: String) { self.clone() } }
impl<T: VxKeyText + ?Sized> VxKeyText for &T { open spec fn kt(&self) -> Seq<char> { (**self).kt() } fn vx_kt(&self) -> (r: String) { (**self).vx_kt() } }
pub fn vx_json_key<T: VxKeyText>(k: T) -> (r: String) ensures r@ == k.kt() { k.vx_kt() }
pub assume_specification<T, E, U, F: std::ops::FnOnce(T) -> std::result::Result<U, E>> [std::result::Result::<T, E>::and_then](x: std::result::Result<T, E>, f: F) -> (r: std::result::Result<U, E>)
  requires x is Ok ==> f.requires((x->Ok_0,))
  ensures x is Err ==> r is Err && r->Err_0 == x->Err_0, x is Ok ==> f.ensures((x->Ok_0,), r);
pub assume_specification<T, E, U, F: std::ops::FnOnce(E) -> std::result::Result<T, U>> [std::result::Result::<T, E>::or_else](x: std::result::Result<T, E>, f: F) -> (r: std::result::Result<T, U>)
  requires x is Err ==> f.requires((x->Err_0,))
  ensures x is Ok ==> r is Ok && r->Ok_0 == x->Ok_0, x is Err ==> f.ensures((x->Err_0,), r);
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or](x: std::result::Result<T, E>, d: T) -> (r: T) where E: std::marker::Destruct, T: std::marker::Destruct
  ensures r == (match x { Ok(v) => v, Err(_) => d });
// ---- numbers from text ----
pub open spec fn dval(c: char) -> int { c as int - '0' as int }
pub open spec fn digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> '0' <= (#[trigger] s[i]) && s[i] <= '9' }
pub open spec fn dnum(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { dnum(s.drop_last()) * 10 + dval(s.last()) } }
pub broadcast proof fn lemma_dnum(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> '0' <= (#[trigger] s[i]) && s[i] <= '9' ensures #[trigger] dnum(s) >= 0 decreases s.len() { if s.len() > 0 { lemma_dnum(s.drop_last()); } }
/// what str::parse reads as an integer: digits with an optional sign (a minus only for signed types)
pub open spec fn int_text(s: Seq<char>, signed: bool) -> Option<int> {
  if digits(s) { Some(dnum(s)) } else if s.len() > 1 && s[0] == '+' && digits(s.skip(1)) { Some(dnum(s.skip(1))) } else if signed && s.len() > 1 && s[0] == '-' && digits(s.skip(1)) { Some(-dnum(s.skip(1))) } else { None } }
pub uninterp spec fn float_of_text(s: Seq<char>) -> Option<f64>;
pub open spec fn bool_of_text(s: Seq<char>) -> Option<bool> { if s == seq!['t', 'r', 'u', 'e'] { Some(true) } else if s == seq!['f', 'a', 'l', 's', 'e'] { Some(false) } else { None } }
pub trait VxParse: Sized { spec fn of_text(s: Seq<char>) -> Option<Self>; fn vx_parse(s: &str) -> (r: Result<Self, VxError>) ensures r is Ok == (Self::of_text(s@) is Some), r is Ok ==> Some(r->Ok_0) == Self::of_text(s@); }
pub fn vx_parse<T: VxParse>(s: &str) -> (r: Result<T, VxError>) ensures r is Ok == (T::of_text(s@) is Some), r is Ok ==> Some(r->Ok_0) == T::of_text(s@) { T::vx_parse(s) }
}
macro_rules! vx_pint { ($t:ty, $s:expr) => { verus! { impl VxParse for $t { open spec fn of_text(s: Seq<char>) -> Option<$t> { match int_text(s, $s) { Some(o) => if <$t>::MIN as int <= o && o <= <$t>::MAX as int { Some(o as $t) } else { None }, None => None } } #[verifier::external_body] fn vx_parse(s: &str) -> (r: Result<$t, VxError>) { unimplemented!() } } } } }
vx_pint!(usize, false); vx_pint!(u16, false); vx_pint!(u64, false); vx_pint!(i64, true); vx_pint!(i32, true);
verus! {
pub fn vx_i64_of_u64(n: u64) -> (r: Result<i64, VxError>) ensures r is Ok == (n <= i64::MAX as u64), r is Ok ==> r->Ok_0 == n { if n <= i64::MAX as u64 { Ok(n as i64) } else { Err(vx_anyhow()) } }
impl VxParse for f64 { open spec fn of_text(s: Seq<char>) -> Option<f64> { float_of_text(s) } #[verifier::external_body] fn vx_parse(s: &str) -> (r: Result<f64, VxError>) { unimplemented!() } }
impl VxParse for bool { open spec fn of_text(s: Seq<char>) -> Option<bool> { bool_of_text(s) } #[verifier::external_body] fn vx_parse(s: &str) -> (r: Result<bool, VxError>) { unimplemented!() } }
}
