// ---- serde_json::Value: mirror of the type, and what two values are compared by ----
verus! {
#[verifier::external_body] pub struct Number { _p: () }
#[verifier::external_body] pub struct JMap { _p: () }
pub enum Value { Null, Bool(bool), Number(Number), String(String), Array(Vec<Value>), Object(JMap) }
#[verifier::external_body] pub struct F64 { _p: () }
pub ghost struct FQ { x: int }
/// a number: not negative, negative, or a float (floats compare as IEEE: 0.0 == -0.0)
pub ghost enum NQ { Pos(u64), Neg(i64), Float(FQ) }
pub ghost enum VQ { Null, Bool(bool), Num(NQ), Str(Seq<char>), Arr(Seq<VQ>), Obj(Map<Seq<char>, VQ>) }
pub uninterp spec fn nq(n: Number) -> NQ;
pub uninterp spec fn vq(v: Value) -> VQ;
pub uninterp spec fn jq(m: JMap) -> Map<Seq<char>, VQ>;
pub uninterp spec fn fq(n: F64) -> FQ;
pub open spec fn vqs(s: Seq<Value>) -> Seq<VQ> { s.map_values(|v: Value| vq(v)) }
pub broadcast axiom fn axiom_vq(v: Value) ensures #[trigger] vq(v) == (match v { Value::Null => VQ::Null, Value::Bool(b) => VQ::Bool(b), Value::Number(n) => VQ::Num(nq(n)), Value::String(s) => VQ::Str(s@), Value::Array(a) => VQ::Arr(vqs(a@)), Value::Object(m) => VQ::Obj(jq(m)) });
pub broadcast axiom fn axiom_nq(n: Number) ensures #[trigger] nq(n) matches NQ::Neg(i) ==> i < 0;
impl Number {
  #[verifier::external_body] pub fn is_u64(&self) -> (r: bool) ensures r == (nq(*self) is Pos) { unimplemented!() }
  #[verifier::external_body] pub fn is_i64(&self) -> (r: bool) ensures r == (nq(*self) is Neg || (nq(*self) matches NQ::Pos(u) && u <= i64::MAX as u64)) { unimplemented!() }
  #[verifier::external_body] pub fn is_f64(&self) -> (r: bool) ensures r == (nq(*self) is Float) { unimplemented!() }
  #[verifier::external_body] pub fn as_u64(&self) -> (r: Option<u64>) ensures r == (match nq(*self) { NQ::Pos(u) => Some(u), _ => None }) { unimplemented!() }
  #[verifier::external_body] pub fn as_i64(&self) -> (r: Option<i64>) ensures r == (match nq(*self) { NQ::Pos(u) => if u <= i64::MAX as u64 { Some(u as i64) } else { None }, NQ::Neg(i) => Some(i), _ => None }) { unimplemented!() }
  /// the nearest float: a function of the number
  #[verifier::external_body] pub fn as_f64(&self) -> (r: Option<F64>) ensures r matches Some(f) && fq(f) == num_float(nq(*self)) { unimplemented!() }
}
pub uninterp spec fn num_float(n: NQ) -> FQ;
/// the pairs of an object in key order, as serde_json without preserve_order keeps them
pub open spec fn jpairs(s: Seq<(&String, &Value)>, m: Map<Seq<char>, VQ>) -> bool {
  &&& s.len() == m.dom().len()
  &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0@) && vq(*s[i].1) == m[s[i].0@]
  &&& s.map_values(|p: (&String, &Value)| p.0@) == skeys::<String>(m.dom())
}
impl JMap {
  #[verifier::external_body] pub fn new() -> (r: JMap) ensures jq(r) == Map::<Seq<char>, VQ>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: String, v: Value) -> (r: Option<Value>) ensures jq(*final(self)) == jq(*old(self)).insert(k@, vq(v)) { unimplemented!() }
  #[verifier::external_body] pub fn iter(&self) -> (r: Vec<(&String, &Value)>) ensures jpairs(r@, jq(*self)) { unimplemented!() }
}
impl VxEq for Value { type Q = VQ; open spec fn q(&self) -> VQ { vq(*self) } #[verifier::external_body] fn vx_eqf(&self, o: &Self) -> (r: bool) { unimplemented!() } }
}

verus! { pub fn vx_pairs<'a>(m: &'a JMap) -> (r: Vec<(&'a String, &'a Value)>) ensures jpairs(r@, jq(*m)) { m.iter() } }
