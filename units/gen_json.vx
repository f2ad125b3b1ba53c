%unit gen_json
%include std.rs
%include vxmap.rs
%include json_val.rs
%src rust/pact_models/src/generators/mod.rs
%prelude
verus! {
#[verifier::external_body] pub struct DocPath { _p: () }
#[verifier::external_body] pub struct MatchingRuleCategory { _p: () }
/// stands for a generator nested in an array variant
#[verifier::external_body] pub struct GenPart { _p: () }
impl VxKey for DocPath { type KV = Seq<char>; uninterp spec fn kv(&self) -> Seq<char>; }
/// two str values with the same characters are equal
#[verifier::external_body] pub fn vx_lit<'a>(s: &'a str) -> (r: &'a str) ensures r@ == s@, forall|b: &str| (#[trigger] b@) == s@ ==> b == r { unimplemented!() }
}
%enum UuidFormat
%enum GeneratorTestMode
%enum Generator
%sub `HashMap<DocPath, Generator>` => `HashMap<DocPath, GenPart>`
%src rust/pact_models/src/expression_parser.rs
%enum DataType
%prelude
verus! {
/// derived PartialEq of a unit-only enum
pub fn vx_eq(a: &&GeneratorTestMode, b: &&GeneratorTestMode) -> (r: bool) ensures r == (**a == **b) { match (*a, *b) { (GeneratorTestMode::Consumer, GeneratorTestMode::Consumer) => true, (GeneratorTestMode::Provider, GeneratorTestMode::Provider) => true, _ => false } }
// ---- data types and UUID formats as text (the functions of DataType are proved in the unit data_value) ----
pub open spec fn upc(c: char) -> char { if 'a' <= c && c <= 'z' { (c as u8 - 32) as u8 as char } else { c } }
pub open spec fn up(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| upc(c)) }
pub open spec fn dt_text(t: DataType) -> Seq<char> { match t { DataType::STRING => "STRING"@, DataType::INTEGER => "INTEGER"@, DataType::DECIMAL => "DECIMAL"@, DataType::FLOAT => "FLOAT"@, DataType::RAW => "RAW"@, DataType::BOOLEAN => "BOOLEAN"@ } }
pub open spec fn dt_of(v: JV) -> DataType { match v { JV::Str(s) => if up(s) == "STRING"@ { DataType::STRING } else if up(s) == "INTEGER"@ { DataType::INTEGER } else if up(s) == "DECIMAL"@ { DataType::DECIMAL } else if up(s) == "FLOAT"@ { DataType::FLOAT } else if up(s) == "BOOLEAN"@ { DataType::BOOLEAN } else { DataType::RAW }, _ => DataType::RAW } }
pub proof fn lemma_dt(t: DataType) ensures dt_of(JV::Str(dt_text(t))) == t {
  reveal_strlit("STRING"); reveal_strlit("INTEGER"); reveal_strlit("DECIMAL"); reveal_strlit("FLOAT"); reveal_strlit("RAW"); reveal_strlit("BOOLEAN"); assert(up(dt_text(t)) =~= dt_text(t)); assert("INTEGER"@[0] == 'I' && "DECIMAL"@[0] == 'D' && "BOOLEAN"@[0] == 'B'); }
/// derived Serialize of a unit variant is its name
impl VxToValue for DataType { open spec fn tv(&self) -> JV { JV::Str(dt_text(*self)) } #[verifier::external_body] fn vx_to_value(&self) -> (r: Value) { unimplemented!() } }
#[verifier::external_body] pub fn datatype_from(v: Value) -> (r: DataType) ensures r == dt_of(jv(v)) { unimplemented!() }
pub fn vx_i32_of(n: i64) -> (r: Result<i32, VxError>) ensures r is Ok == (i32::MIN <= n && n <= i32::MAX), r is Ok ==> r->Ok_0 == n { if n >= i32::MIN as i64 && n <= i32::MAX as i64 { Ok(n as i32) } else { Err(vx_anyhow()) } }
#[verifier::external_body] pub fn vx_dt_value(d: &DataType) -> (r: Value) ensures jv(r) == JV::Str(dt_text(*d)) { unimplemented!() }
pub open spec fn uf_text(f: UuidFormat) -> Seq<char> { match f { UuidFormat::Simple => "simple"@, UuidFormat::LowerCaseHyphenated => "lower-case-hyphenated"@, UuidFormat::UpperCaseHyphenated => "upper-case-hyphenated"@, UuidFormat::Urn => "URN"@ } }
pub open spec fn uf_of(s: Seq<char>) -> Option<UuidFormat> { if s == "simple"@ { Some(UuidFormat::Simple) } else if s == "lower-case-hyphenated"@ { Some(UuidFormat::LowerCaseHyphenated) } else if s == "upper-case-hyphenated"@ { Some(UuidFormat::UpperCaseHyphenated) } else if s == "URN"@ { Some(UuidFormat::Urn) } else { None } }
pub proof fn lemma_uf(f: UuidFormat) ensures uf_of(uf_text(f)) == Some(f) { reveal_strlit("simple"); reveal_strlit("lower-case-hyphenated"); reveal_strlit("upper-case-hyphenated"); reveal_strlit("URN"); assert("simple"@[0] == 's' && "URN"@[0] == 'U' && "lower-case-hyphenated"@[0] == 'l' && "upper-case-hyphenated"@[0] == 'u'); }
}
%src rust/pact_models/src/generators/mod.rs
%fn Display for UuidFormat::fmt
%free
%rename uuid_fmt
%fmt str
%sub `(&self, ` => `(s_: &UuidFormat, `
%sub `match self` => `match s_`
%sub `&mut Formatter<'_>` => `&mut String`
%sub `std::fmt::Result` => `Result<(), VxError>`
%sig
  ensures r is Ok, final(f)@ == old(f)@ + uf_text(*s_)
%fn FromStr for UuidFormat::from_str
%free
%rename uuid_from_str
%sub `Result<Self, Self::Err>` => `Result<UuidFormat, VxError>`
%sub `match s {` => `match vx_lit(s) {`
%sig
  ensures r is Ok == uf_of(s@) is Some, r is Ok ==> Some(r->Ok_0) == uf_of(s@)
%prelude
verus! {
pub type Txt = Option<Seq<char>>;
pub open spec fn txt(o: Option<String>) -> Txt { match o { Some(s) => Some(s@), None => None } }
/// what a generator is, without its allocation
pub ghost enum GQ { Int(i32, i32), Uuid(Option<UuidFormat>), Dec(u16), Hex(u16), Str(u16), Regex(Seq<char>), Date(Txt, Txt), Time(Txt, Txt), DateTime(Txt, Txt), Bool, State(Seq<char>, Option<DataType>), Url(Seq<char>, Seq<char>), Array(Seq<(usize, MatchingRuleCategory, HashMap<DocPath, GenPart>)>) }
pub open spec fn gq(r: Generator) -> GQ { match r { Generator::RandomInt(a, b) => GQ::Int(a, b), Generator::Uuid(f) => GQ::Uuid(f), Generator::RandomDecimal(d) => GQ::Dec(d), Generator::RandomHexadecimal(d) => GQ::Hex(d), Generator::RandomString(d) => GQ::Str(d), Generator::Regex(s) => GQ::Regex(s@),
  Generator::Date(f, e) => GQ::Date(txt(f), txt(e)), Generator::Time(f, e) => GQ::Time(txt(f), txt(e)), Generator::DateTime(f, e) => GQ::DateTime(txt(f), txt(e)), Generator::RandomBoolean => GQ::Bool, Generator::ProviderStateGenerator(s, d) => GQ::State(s@, d), Generator::MockServerURL(a, b) => GQ::Url(a@, b@), Generator::ArrayContains(v) => GQ::Array(v@) } }
pub open spec fn gname(g: GQ) -> Seq<char> { match g { GQ::Int(_, _) => "RandomInt"@, GQ::Uuid(_) => "Uuid"@, GQ::Dec(_) => "RandomDecimal"@, GQ::Hex(_) => "RandomHexadecimal"@, GQ::Str(_) => "RandomString"@, GQ::Regex(_) => "Regex"@, GQ::Date(_, _) => "Date"@, GQ::Time(_, _) => "Time"@, GQ::DateTime(_, _) => "DateTime"@, GQ::Bool => "RandomBoolean"@, GQ::State(_, _) => "ProviderState"@, GQ::Url(_, _) => "MockServerURL"@, GQ::Array(_) => "ArrayContains"@ } }
pub type JO = Map<Seq<char>, JV>;
pub open spec fn ty(t: Seq<char>) -> JO { Map::<Seq<char>, JV>::empty().insert("type"@, JV::Str(t)) }
pub open spec fn opt_ins(m: JO, k: Seq<char>, v: Txt) -> JO { match v { Some(s) => m.insert(k, JV::Str(s)), None => m } }
/// the JSON form: the type and the attributes that are set
pub open spec fn gj(g: GQ) -> Option<JO> { match g {
  GQ::Int(a, b) => Some(ty(gname(g)).insert("min"@, jint(a as int)).insert("max"@, jint(b as int))),
  GQ::Uuid(f) => Some(match f { Some(f) => ty(gname(g)).insert("format"@, JV::Str(uf_text(f))), None => ty(gname(g)) }),
  GQ::Dec(d) | GQ::Hex(d) => Some(ty(gname(g)).insert("digits"@, jint(d as int))), GQ::Str(d) => Some(ty(gname(g)).insert("size"@, jint(d as int))),
  GQ::Regex(s) => Some(ty(gname(g)).insert("regex"@, JV::Str(s))),
  GQ::Date(f, e) | GQ::Time(f, e) | GQ::DateTime(f, e) => Some(opt_ins(opt_ins(ty(gname(g)), "format"@, f), "expression"@, e)),
  GQ::Bool => Some(ty(gname(g))),
  GQ::State(s, d) => Some(match d { Some(d) => ty(gname(g)).insert("expression"@, JV::Str(s)).insert("dataType"@, JV::Str(dt_text(d))), None => ty(gname(g)).insert("expression"@, JV::Str(s)) }),
  GQ::Url(a, b) => Some(ty(gname(g)).insert("example"@, JV::Str(a)).insert("regex"@, JV::Str(b))), GQ::Array(_) => None } }
/// an attribute as text, when it is there
pub open spec fn jget(m: JO, k: Seq<char>) -> Txt { if m.dom().contains(k) { Some(jtext(m[k])) } else { None } }
pub open spec fn jget_or(m: JO, k: Seq<char>) -> Seq<char> { match jget(m, k) { Some(s) => s, None => seq![] } }
/// an attribute that is an integer of the type, otherwise the default
pub open spec fn jnum(m: JO, k: Seq<char>, lo: int, hi: int, d: int) -> int { if m.dom().contains(k) { match m[k] { JV::Num(NV::Pos(u)) => if lo <= u && u <= hi { u as int } else { d }, JV::Num(NV::Neg(i)) => if lo <= i && i <= hi { i as int } else { d }, _ => d } } else { d } }
pub open spec fn j_u16(m: JO, k: Seq<char>) -> u16 { jnum(m, k, 0, u16::MAX as int, 10) as u16 }
pub open spec fn j_i32(m: JO, k: Seq<char>, d: int) -> i32 { jnum(m, k, i32::MIN as int, i32::MAX as int, d) as i32 }
/// the generator a type name and its attributes stand for
pub open spec fn gf(t: Seq<char>, m: JO) -> Option<GQ> {
  if t == "RandomInt"@ { Some(GQ::Int(j_i32(m, "min"@, 0), j_i32(m, "max"@, 10))) }
  else if t == "Uuid"@ { Some(GQ::Uuid(match jget(m, "format"@) { Some(s) => uf_of(s), None => None })) }
  else if t == "RandomDecimal"@ { Some(GQ::Dec(j_u16(m, "digits"@))) } else if t == "RandomHexadecimal"@ { Some(GQ::Hex(j_u16(m, "digits"@))) } else if t == "RandomString"@ { Some(GQ::Str(j_u16(m, "size"@))) }
  else if t == "Regex"@ { match jget(m, "regex"@) { Some(s) => Some(GQ::Regex(s)), None => None } }
  else if t == "Date"@ { Some(GQ::Date(jget(m, "format"@), jget(m, "expression"@))) } else if t == "Time"@ { Some(GQ::Time(jget(m, "format"@), jget(m, "expression"@))) } else if t == "DateTime"@ { Some(GQ::DateTime(jget(m, "format"@), jget(m, "expression"@))) }
  else if t == "RandomBoolean"@ { Some(GQ::Bool) }
  else if t == "ProviderState"@ { match jget(m, "expression"@) { Some(s) => Some(GQ::State(s, if m.dom().contains("dataType"@) { Some(dt_of(m["dataType"@])) } else { None })), None => None } }
  else if t == "MockServerURL"@ { Some(GQ::Url(jget_or(m, "example"@), jget_or(m, "regex"@))) }
  else { None } }
pub proof fn lemma_lits() ensures
  forall|g: GQ, h: GQ| (#[trigger] gname(g)) == (#[trigger] gname(h)) ==> gdisc(g) == gdisc(h),
  "type"@ != "min"@, "type"@ != "max"@, "type"@ != "format"@, "type"@ != "digits"@, "type"@ != "size"@, "type"@ != "regex"@, "type"@ != "expression"@, "type"@ != "dataType"@, "type"@ != "example"@,
  "min"@ != "max"@, "format"@ != "expression"@, "expression"@ != "dataType"@, "example"@ != "regex"@
{
  reveal_strlit("RandomInt"); reveal_strlit("Uuid"); reveal_strlit("RandomDecimal"); reveal_strlit("RandomHexadecimal"); reveal_strlit("RandomString"); reveal_strlit("Regex"); reveal_strlit("Date"); reveal_strlit("Time"); reveal_strlit("DateTime"); reveal_strlit("RandomBoolean"); reveal_strlit("ProviderState"); reveal_strlit("MockServerURL"); reveal_strlit("ArrayContains");
  reveal_strlit("type"); reveal_strlit("min"); reveal_strlit("max"); reveal_strlit("format"); reveal_strlit("digits"); reveal_strlit("size"); reveal_strlit("regex"); reveal_strlit("expression"); reveal_strlit("dataType"); reveal_strlit("example");
  assert("type"@[0] == 't' && "size"@[0] == 's' && "min"@[1] == 'i' && "max"@[1] == 'a' && "example"@.len() == 7 && "regex"@.len() == 5);
  assert("RandomInt"@.len() == 9 && "Uuid"@.len() == 4 && "RandomDecimal"@.len() == 13 && "RandomHexadecimal"@.len() == 17 && "RandomString"@.len() == 12 && "Regex"@.len() == 5 && "Date"@.len() == 4 && "Time"@.len() == 4 && "DateTime"@.len() == 8 && "RandomBoolean"@.len() == 13 && "ProviderState"@.len() == 13 && "MockServerURL"@.len() == 13 && "ArrayContains"@.len() == 13 && "type"@.len() == 4 && "min"@.len() == 3 && "max"@.len() == 3 && "format"@.len() == 6 && "digits"@.len() == 6 && "size"@.len() == 4 && "regex"@.len() == 5 && "expression"@.len() == 10 && "dataType"@.len() == 8 && "example"@.len() == 7);
  assert("format"@[0] == 'f' && "digits"@[0] == 'd');
  // lengths: RandomInt 9, Uuid 4, RandomDecimal 13, RandomHexadecimal 17, RandomString 12, Regex 5, Date 4, Time 4, DateTime 8, RandomBoolean 13, ProviderState 13, MockServerURL 13, ArrayContains 13
  assert("Uuid"@[0] == 'U' && "Date"@[0] == 'D' && "Time"@[0] == 'T');
  assert("RandomDecimal"@[6] == 'D' && "RandomBoolean"@[6] == 'B' && "ProviderState"@[0] == 'P' && "MockServerURL"@[0] == 'M' && "ArrayContains"@[0] == 'A' && "RandomDecimal"@[0] == 'R' && "RandomBoolean"@[0] == 'R');
}
pub open spec fn gdisc(g: GQ) -> int { match g { GQ::Int(_, _) => 0, GQ::Uuid(_) => 1, GQ::Dec(_) => 2, GQ::Hex(_) => 3, GQ::Str(_) => 4, GQ::Regex(_) => 5, GQ::Date(_, _) => 6, GQ::Time(_, _) => 7, GQ::DateTime(_, _) => 8, GQ::Bool => 9, GQ::State(_, _) => 10, GQ::Url(_, _) => 11, GQ::Array(_) => 12 } }
/// reading the JSON form of a generator gives the generator
pub proof fn theorem_generator_json(g: GQ) requires !(g is Array) ensures gj(g) is Some, gj(g)->0.dom().contains("type"@), gj(g)->0["type"@] == JV::Str(gname(g)), gf(gname(g), gj(g)->0) == Some(g)
{
  lemma_lits();
  let n = gname(g);
  assert(gname(GQ::Int(0, 0)) == "RandomInt"@ && gname(GQ::Uuid(None)) == "Uuid"@ && gname(GQ::Dec(0)) == "RandomDecimal"@ && gname(GQ::Hex(0)) == "RandomHexadecimal"@ && gname(GQ::Str(0)) == "RandomString"@ && gname(GQ::Regex(seq![])) == "Regex"@ && gname(GQ::Date(None, None)) == "Date"@ && gname(GQ::Time(None, None)) == "Time"@ && gname(GQ::DateTime(None, None)) == "DateTime"@ && gname(GQ::Bool) == "RandomBoolean"@ && gname(GQ::State(seq![], None)) == "ProviderState"@ && gname(GQ::Url(seq![], seq![])) == "MockServerURL"@);
  match g { GQ::Uuid(Some(f)) => { lemma_uf(f); } GQ::State(s, Some(d)) => { lemma_dt(d); } _ => {} }
}
impl UuidFormat { pub fn to_string(&self) -> (r: String) ensures r@ == uf_text(*self) { let mut s = String::new(); let _ = uuid_fmt(self, &mut s); proof { assert(Seq::<char>::empty() + uf_text(*self) =~= uf_text(*self)); } s } }
pub fn vx_parse_uuid(s: &str) -> (r: Result<UuidFormat, VxError>) ensures r is Ok == uf_of(s@) is Some, r is Ok ==> Some(r->Ok_0) == uf_of(s@) { uuid_from_str(s) }
}
%fn Generator::to_json
%sig
  ensures r is Some == gj(gq(*self)) is Some, r is Some ==> jv(r->0) == JV::Obj(gj(gq(*self))->0)
%body_start
  proof { broadcast use axiom_jv; lemma_lits(); }
%src rust/pact_models/src/json_utils.rs
%fn JsonToNum<i32> for i32::json_to_number
%free
%rename i32_json_to_number
%sub `serde_json::Map<String, Value>` => `JMap`
%sub `i32::try_from(num)` => `vx_i32_of(num)`
%sig
  ensures r == jnum(jm(*map), field@, i32::MIN as int, i32::MAX as int, default as int)
%body_start
  proof { broadcast use axiom_jv; broadcast use axiom_nv; }
%fn JsonToNum<u16> for u16::json_to_number
%free
%rename u16_json_to_number
%sub `serde_json::Map<String, Value>` => `JMap`
%sig
  ensures r == jnum(jm(*map), field@, 0, u16::MAX as int, default as int)
%body_start
  proof { broadcast use axiom_jv; broadcast use axiom_nv; }
%fn json_to_string
%sig
  ensures r@ == jtext(jv(*value))
%body_start
  proof { broadcast use axiom_jv; }
%fn get_field_as_string
%sub `Map<String, Value>` => `JMap`
%opt
%closure 0 |f: &Value| -> (o: String) ensures o@ == jtext(jv(*f))
%sig
  ensures txt(r) == jget(jm(*map), field@)
%src rust/pact_models/src/generators/mod.rs
%fn Generator::from_map
%sub `match gen_type {` => `match vx_lit(gen_type) {`
%sub `serde_json::Map<String, Value>` => `JMap`
%sub 2 `<i32>::json_to_number(` => `i32_json_to_number(`
%sub 3 `<u16>::json_to_number(` => `u16_json_to_number(`
%sub `str::parse(` => `vx_parse_uuid(`
%sub `DataType::from(` => `datatype_from(`
%opt
%closure 0 |val: &Value| -> (o: Generator) ensures gq(o) == GQ::Regex(jtext(jv(*val)))
%closure 1 |f: &Value| -> (o: Generator) ensures gq(o) == GQ::State(jtext(jv(*f)), if jm(*map).dom().contains("dataType"@) { Some(dt_of(jm(*map)["dataType"@])) } else { None })
%closure 2 |dt: &Value| -> (o: DataType) ensures o == dt_of(jv(*dt))
%sig
  ensures r is Some == gf(gen_type@, jm(*map)) is Some, r is Some ==> gq(r->0) == gf(gen_type@, jm(*map))->0
%body_start
  proof { broadcast use axiom_jv; }
%fn Generator::name
%sig
  ensures r@ == gname(gq(*self))
%fn Generator::corresponds_to_mode
%eq
%sig
  ensures r == (match *self { Generator::ProviderStateGenerator(_, _) => *mode is Provider, Generator::MockServerURL(_, _) => *mode is Consumer, _ => true })
%fn Generator::create
%sub `anyhow::Result<Generator>` => `Result<Generator, VxError>`
%opt
%sig
  ensures r is Ok == (jv(*attributes) matches JV::Obj(m) && gf(generator_type@, m) is Some), r is Ok ==> gq(r->Ok_0) == gf(generator_type@, jv(*attributes)->Obj_0)->0
%body_start
  proof { broadcast use axiom_jv; }
