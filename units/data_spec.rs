// ---- conversions of provider state values ----
verus! {
impl Clone for DataType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for DataType {}
impl Clone for DataValue { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures jv(r.wrapped) == jv(self.wrapped), r.data_type == self.data_type { unimplemented!() } }
pub open spec fn upc(c: char) -> char { if 'a' <= c && c <= 'z' { (c as u8 - 32) as u8 as char } else { c } }
pub open spec fn up(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| upc(c)) }
/// str::to_ascii_uppercase
#[verifier::external_body] pub fn vx_upper(s: &String) -> (r: String) ensures r@ == up(s@) { unimplemented!() }
/// two str values with the same characters are equal
#[verifier::external_body] pub fn vx_lit<'a>(s: &'a str) -> (r: &'a str) ensures r@ == s@, forall|b: &str| (#[trigger] b@) == s@ ==> b == r { unimplemented!() }
pub open spec fn dt_text(t: DataType) -> Seq<char> { match t { DataType::STRING => "STRING"@, DataType::INTEGER => "INTEGER"@, DataType::DECIMAL => "DECIMAL"@, DataType::FLOAT => "FLOAT"@, DataType::RAW => "RAW"@, DataType::BOOLEAN => "BOOLEAN"@ } }
pub open spec fn dt_of(v: JV) -> DataType { match v { JV::Str(s) => if up(s) == "STRING"@ { DataType::STRING } else if up(s) == "INTEGER"@ { DataType::INTEGER } else if up(s) == "DECIMAL"@ { DataType::DECIMAL } else if up(s) == "FLOAT"@ { DataType::FLOAT } else if up(s) == "BOOLEAN"@ { DataType::BOOLEAN } else { DataType::RAW }, _ => DataType::RAW } }
pub proof fn lemma_dt_lits() ensures "STRING"@.len() == 6, "INTEGER"@.len() == 7, "DECIMAL"@.len() == 7, "FLOAT"@.len() == 5, "RAW"@.len() == 3, "BOOLEAN"@.len() == 7, "INTEGER"@[0] == 'I', "DECIMAL"@[0] == 'D', "BOOLEAN"@[0] == 'B' {
  reveal_strlit("STRING"); reveal_strlit("INTEGER"); reveal_strlit("DECIMAL"); reveal_strlit("FLOAT"); reveal_strlit("RAW"); reveal_strlit("BOOLEAN"); }
pub proof fn lemma_dt_upper(t: DataType) ensures up(dt_text(t)) == dt_text(t) {
  reveal_strlit("STRING"); reveal_strlit("INTEGER"); reveal_strlit("DECIMAL"); reveal_strlit("FLOAT"); reveal_strlit("RAW"); reveal_strlit("BOOLEAN"); assert(up(dt_text(t)) =~= dt_text(t)); }
/// an integer type a float is converted to
pub trait VxInt: Sized { spec fn lo() -> int; spec fn hi() -> int; spec fn val(&self) -> int; fn vx_try(i: i128) -> (r: Result<Self, VxError>) ensures r is Ok == (Self::lo() <= i && i <= Self::hi()), r is Ok ==> r->Ok_0.val() == i; }
}
macro_rules! vx_int { ($t:ty) => { verus! { impl VxInt for $t { open spec fn lo() -> int { <$t>::MIN as int } open spec fn hi() -> int { <$t>::MAX as int } open spec fn val(&self) -> int { *self as int } fn vx_try(i: i128) -> (r: Result<Self, VxError>) { if i >= <$t>::MIN as i128 && i <= <$t>::MAX as i128 { Ok(i as $t) } else { Err(vx_anyhow()) } } } } } }
vx_int!(u16); vx_int!(u64); vx_int!(i64);
verus! {
pub open spec fn clamp128(i: int) -> int { if i < i128::MIN { i128::MIN as int } else if i > i128::MAX { i128::MAX as int } else { i } }
/// `f as i128`: truncated towards zero and limited to the type
#[verifier::external_body] pub fn vx_f64_i128(f: f64) -> (r: i128) ensures !f_nan(f) ==> r == clamp128(f_trunc(f)) { unimplemented!() }
#[verifier::external_body] pub fn vx_is_nan(f: f64) -> (r: bool) ensures r == f_nan(f) { unimplemented!() }
pub trait VxF64 { spec fn fi(&self) -> int; fn vx_f64(&self) -> (r: f64) ensures r == f_of(self.fi()); }
impl VxF64 for u64 { open spec fn fi(&self) -> int { *self as int } #[verifier::external_body] fn vx_f64(&self) -> (r: f64) { unimplemented!() } }
impl VxF64 for i64 { open spec fn fi(&self) -> int { *self as int } #[verifier::external_body] fn vx_f64(&self) -> (r: f64) { unimplemented!() } }
pub fn vx_as_f64<T: VxF64>(x: T) -> (r: f64) ensures r == f_of(x.fi()) { x.vx_f64() }
#[verifier::external_body] pub fn vx_f_pos(f: f64) -> (r: bool) ensures r == f_gt0(f) { unimplemented!() }

// ---- what each conversion means ----
/// the integer a float stands for, if it is one of the type's
pub open spec fn f_int(f: f64, lo: int, hi: int) -> Option<int> { if !f_nan(f) && lo <= f_trunc(f) && f_trunc(f) <= hi { Some(f_trunc(f)) } else { None } }
pub open spec fn in_range(i: int, lo: int, hi: int) -> Option<int> { if lo <= i && i <= hi { Some(i) } else { None } }
/// the integer in [lo, hi] a number stands for: itself, or its integer part
pub open spec fn n_int(n: NV, lo: int, hi: int) -> Option<int> { match n { NV::Pos(u) => in_range(u as int, lo, hi), NV::Neg(i) => in_range(i as int, lo, hi), NV::Float(f) => f_int(f, lo, hi) } }
pub open spec fn t_int(s: Seq<char>, signed: bool, lo: int, hi: int) -> Option<int> { match int_text(s, signed) { Some(i) => in_range(i, lo, hi), None => None } }
/// conversion to an integer type
pub open spec fn to_int(v: JV, t: DataType, signed: bool, lo: int, hi: int) -> Option<int> { match v {
  JV::Null => Some(0), JV::Bool(b) => Some(if b { 1 } else { 0 }), JV::Num(n) => n_int(n, lo, hi),
  JV::Str(s) => match t { DataType::INTEGER | DataType::RAW | DataType::STRING => t_int(s, signed, lo, hi), DataType::DECIMAL | DataType::FLOAT => match float_of_text(s) { Some(f) => f_int(f, lo, hi), None => None }, DataType::BOOLEAN => None },
  _ => None } }
pub open spec fn to_float(v: JV, t: DataType) -> Option<f64> { match v {
  JV::Null => Some(0.0f64), JV::Bool(b) => Some(if b { 1.0f64 } else { 0.0f64 }), JV::Num(n) => Some(nv_float(n)),
  JV::Str(s) => match t { DataType::INTEGER => match t_int(s, true, i64::MIN as int, i64::MAX as int) { Some(i) => Some(f_of(i)), None => None }, DataType::BOOLEAN => None, _ => float_of_text(s) },
  _ => None } }
pub open spec fn n_bool(n: NV) -> bool { match n { NV::Pos(u) => u > 0, NV::Neg(i) => false, NV::Float(f) => f_gt0(f) } }
pub open spec fn to_bool(v: JV) -> Option<bool> { match v { JV::Null => Some(false), JV::Bool(b) => Some(b), JV::Num(n) => Some(n_bool(n)), JV::Str(s) => bool_of_text(s), _ => None } }
pub open spec fn to_json(v: JV, t: DataType) -> Option<JV> { match t {
  DataType::RAW => Some(v),
  DataType::STRING => Some(JV::Str(match v { JV::Str(s) => s, v => jprint(v) })),
  DataType::INTEGER => match v { JV::Null => Some(jint(0)), JV::Bool(b) => Some(jint(if b { 1 } else { 0 })),
     JV::Num(NV::Float(f)) => match f_int(f, i64::MIN as int, i64::MAX as int) { Some(i) => Some(jint(i)), None => None }, JV::Num(n) => Some(v),
     JV::Str(s) => match int_text(s, true) { Some(i) => if i64::MIN <= i && i <= u64::MAX { Some(jint(i)) } else { None }, None => None }, _ => None },
  DataType::FLOAT | DataType::DECIMAL => match v { JV::Str(s) => match float_of_text(s) { Some(f) => Some(jfloat(f)), None => None }, v => match to_float(v, t) { Some(f) => Some(jfloat(f)), None => None } },
  DataType::BOOLEAN => match to_bool(v) { Some(b) => Some(JV::Bool(b)), None => None } } }
/// what is displayed: the text of the value itself, or of the converted value
pub open spec fn to_text(v: JV, t: DataType) -> Option<Seq<char>> { match t { DataType::STRING | DataType::RAW => Some(jtext(v)), DataType::INTEGER => match to_json(v, t) { Some(j) => Some(jprint(j)), None => None },
  DataType::FLOAT | DataType::DECIMAL => match to_float(v, t) { Some(f) => Some(fprint(f)), None => None }, DataType::BOOLEAN => match to_bool(v) { Some(b) => Some(bprint(b)), None => None } } }
pub uninterp spec fn fprint(f: f64) -> Seq<char>;
pub open spec fn bprint(b: bool) -> Seq<char> { if b { seq!['t', 'r', 'u', 'e'] } else { seq!['f', 'a', 'l', 's', 'e'] } }
impl VxDisp for f64 { open spec fn disp(&self) -> Seq<char> { fprint(*self) } #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
impl VxDisp for bool { open spec fn disp(&self) -> Seq<char> { bprint(*self) } #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
impl VxDisp for Value { open spec fn disp(&self) -> Seq<char> { jprint(jv(*self)) } #[verifier::external_body] fn vx_disp(&self) -> (r: String) { unimplemented!() } }
pub open spec fn is_res<T>(r: Result<T, VxError>, o: Option<T>) -> bool { r is Ok == o is Some && (r is Ok ==> Some(r->Ok_0) == o) }
}
