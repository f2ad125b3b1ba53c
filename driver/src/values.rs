//! C12 expressions over provider state values, C13 conversion of generated values
use crate::fw::*;
use crate::gen;
use crate::inter::jval;
use pact_models::expression_parser::*;
use pact_models::generators::{generate_value_from_context, GenerateValue, Generator, GeneratorTestMode, NoopVariantMatcher, VariantMatcher};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::convert::TryFrom;

fn matcher() -> Box<dyn VariantMatcher + Send + Sync> { NoopVariantMatcher.boxed() }
/// the text a value is put into other text as
fn jtext(v: &Value) -> String { match v { Value::String(s) => s.clone(), Value::Null => String::new(), v => v.to_string() } }
#[derive(Clone, Debug)]
enum Part { Text(Vec<char>), Key(Vec<char>) }
/// splits a text into literal parts and expressions, one character at a time; None when an expression is not closed
fn split(s: &str) -> Option<Vec<Part>> {
  let c: Vec<char> = s.chars().collect(); let mut out = vec![]; let mut lit = vec![]; let mut i = 0;
  while i < c.len() {
    if c[i] == '$' && i + 1 < c.len() && c[i + 1] == '{' {
      let mut e = i + 2; while e < c.len() && c[e] != '}' { e += 1; }
      if e >= c.len() { return None; }
      if !lit.is_empty() { out.push(Part::Text(std::mem::take(&mut lit))); }
      out.push(Part::Key(c[i + 2..e].to_vec())); i = e + 1;
    } else { lit.push(c[i]); i += 1; }
  }
  if !lit.is_empty() { out.push(Part::Text(lit)); }
  Some(out)
}
fn has_expr(s: &str) -> bool { let c: Vec<char> = s.chars().collect(); c.windows(2).any(|w| w[0] == '$' && w[1] == '{') }
fn want(s: &str, ctx: &HashMap<String, Value>) -> Option<Value> {
  let mut vals = vec![];
  for p in split(s)? { match p { Part::Text(t) => vals.push(Value::String(t.into_iter().collect())), Part::Key(k) => if !k.is_empty() { vals.push(ctx.get(&k.into_iter().collect::<String>())?.clone()) } } }
  Some(if vals.len() == 1 { vals.pop().unwrap() } else { Value::String(vals.iter().map(jtext).collect()) })
}
fn key(r: &mut Rng) -> String { match r.below(7) { 0 => r.pick(&["a", "b", "id", "a.b", "é漢", "$", "{", "${", " ", "providerState", "mockServer", "😀", "$a"]).to_string(), 1 => { let s: String = gen::text(r).chars().filter(|c| *c != '}').collect(); s } 2 => { let s: String = r.lit().chars().filter(|c| *c != '}').collect(); s } _ => gen::word(r) } }
fn expr_text(r: &mut Rng, keys: &[String]) -> String {
  let n = r.below(6); let mut s = String::new();
  for _ in 0..n { match r.below(9) { 0..=3 if !keys.is_empty() => { s += "${"; s += r.pick(keys).as_str(); s += "}" } 4 => s += *r.pick(&["$", "{", "}", "${", "${}", "$$", "$${", "${a", "{}", "}${", "${ ", "$ {"]), 5 => s += &gen::text(r), 6 => s += *r.pick(&["é", "漢", "😀", " ", "/", "a"]), 7 => { s += "${"; s += &key(r); s += "}" } _ => s += &gen::word(r) } }
  if r.chance(1, 20) { r.perturb(&s) } else { s }
}
fn ctxmap(r: &mut Rng) -> HashMap<String, Value> { let n = r.below(6); (0..n).map(|_| (key(r), if r.chance(1, 3) { json!(gen::text(r)) } else { jval(r) })).collect() }
fn refs(m: &HashMap<String, Value>) -> HashMap<&str, Value> { m.iter().map(|(k, v)| (k.as_str(), v.clone())).collect() }
fn same(a: Result<Value, anyhow::Error>, w: &Option<Value>, what: &str) -> Result<(), String> {
  match (a, w) { (Ok(a), Some(w)) => { ens!(exact(&a, w), "{}: got {:?}, want {:?}", what, a, w); Ok(()) } (Err(_), None) => Ok(()), (a, w) => Err(format!("{}: got {:?}, want {:?}", what, a, w)) }
}
/// equal, with numbers of the same kind
fn exact(a: &Value, b: &Value) -> bool { match (a, b) { (Value::Number(x), Value::Number(y)) => format!("{:?}", x) == format!("{:?}", y), (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| exact(a, b)), (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, a)| y.get(k).map_or(false, |b| exact(a, b))), (a, b) => a == b } }
pub fn c12(c: &mut Ctx) {
  let fixed = ["${a}", "}${a}", "a}b${a}c", "${a}${b}", "${}", "${}x", "x${}", "${a", "$", "${", "$${a}", "${${a}}", "é${a}漢", "/users/${id}/x", "{${a}}", "${a}}", "${a}$", "${a}${", "😀${a}😀${b}", "${ a }", "${missing}", ""];
  let base: HashMap<String, Value> = [("a".to_string(), json!(1)), ("b".to_string(), json!("B}${a}")), ("id".to_string(), json!(null)), ("${a".to_string(), json!([1, null])), (" a ".to_string(), json!(true))].into();
  let mut r = c.rng(12);
  for i in 0..c.n(40000) {
    if c.stop() { return; }
    let ctx = if i < fixed.len() { base.clone() } else { ctxmap(&mut r) };
    let mut keys: Vec<String> = ctx.keys().cloned().collect(); keys.sort();
    let s = if i < fixed.len() { fixed[i].to_string() } else { expr_text(&mut r, &keys) };
    let dt = if r.chance(1, 2) { None } else { Some(gen::data_type(&mut r)) };
    let mut show: Vec<_> = ctx.iter().map(|(k, v)| format!("{:?}: {}", k, v)).collect(); show.sort();
    c.case("expression", format!("{:?} with {{{}}} as {:?}", s, show.join(", "), dt), || {
      let m = MapValueResolver { context: refs(&ctx) };
      eqv!(contains_expressions(&s), has_expr(&s), "contains_expressions");
      let w = want(&s, &ctx);
      same(parse_expression(&s, &m), &w, "parse_expression")?;
      // looked up by name when there is no expression
      let g = if has_expr(&s) { w.clone() } else { ctx.get(&s).cloned() };
      let got = generate_value_from_context(&s, &refs(&ctx), &dt);
      match (&got, &g) { (Ok(d), Some(v)) => { ens!(exact(&d.wrapped, v), "generate_value_from_context: got {:?}, want {:?}", d.wrapped, v); eqv!(d.data_type, dt.unwrap_or(DataType::RAW), "data type"); } (Err(_), None) => {} _ => return Err(format!("generate_value_from_context: got {:?}, want {:?}", got, g)) }
      let rs: Option<String> = m.resolve_value(&s); eqv!(rs, ctx.get(&s).map(jtext), "resolve_value as text");
      let rv: Option<Value> = m.resolve_value(&s); eqv!(rv, ctx.get(&s).cloned(), "resolve_value");
      Ok(has_expr(&s))
    });
    // the generator, with the values under a providerState key or directly in the context
    let nested = r.chance(1, 2);
    let full: HashMap<String, Value> = if nested { let mut f = ctxmap(&mut r); f.insert("providerState".into(), Value::Object(ctx.iter().map(|(k, v)| (k.clone(), v.clone())).collect())); f } else { ctx.clone() };
    let scope: HashMap<String, Value> = match full.get("providerState") { Some(Value::Object(o)) => o.iter().map(|(k, v)| (k.clone(), v.clone())).collect(), _ => full.clone() };
    c.case("provider state generator", format!("{:?} with {} {{{}}} as {:?}", s, if nested { "providerState" } else { "" }, show.join(", "), dt), || {
      let g = Generator::ProviderStateGenerator(s.clone(), dt);
      let w = if has_expr(&s) { want(&s, &scope) } else { scope.get(&s).cloned() };
      let dv = w.map(|v| DataValue { wrapped: v, data_type: dt.unwrap_or(DataType::RAW) });
      let rf = refs(&full);
      let as_j = GenerateValue::<Value>::generate_value(&g, &json!("old"), &rf, &matcher());
      same(as_j, &dv.as_ref().and_then(w_json), "generated JSON")?;
      let as_t = GenerateValue::<String>::generate_value(&g, &"old".to_string(), &rf, &matcher());
      eqv!(as_t.as_ref().ok().cloned(), dv.as_ref().and_then(w_text), "generated text");
      let as_n = GenerateValue::<u16>::generate_value(&g, &0u16, &rf, &matcher());
      eqv!(as_n.as_ref().ok().map(|n| *n as i128), dv.as_ref().and_then(|d| w_int(d, false, 0, u16::MAX as i128)), "generated status");
      ens!(g.corresponds_to_mode(&GeneratorTestMode::Provider) && !g.corresponds_to_mode(&GeneratorTestMode::Consumer), "mode");
      Ok(has_expr(&s))
    });
  }
}

// ---- C13: the oracle works on the printed form of the value, with exact decimal arithmetic for integers ----
/// the digits of an integer text: optional sign, then at least one digit
fn int_text(s: &str, signed: bool) -> Option<i128> {
  let (neg, d) = match s.strip_prefix('-') { Some(d) if signed => (true, d), _ => (false, s.strip_prefix('+').unwrap_or(s)) };
  if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) { return None; }
  let d = d.trim_start_matches('0'); if d.len() > 30 { return Some(if neg { -(1i128 << 120) } else { 1i128 << 120 }); }
  let n = d.bytes().fold(0i128, |a, b| a * 10 + (b - b'0') as i128); Some(if neg { -n } else { n })
}
fn within(i: Option<i128>, lo: i128, hi: i128) -> Option<i128> { i.filter(|i| lo <= *i && *i <= hi) }
/// the integer part of a float, from its bits
fn trunc(f: f64) -> Option<i128> {
  let b = f.to_bits(); let e = ((b >> 52) & 0x7ff) as i32; let m = b & ((1 << 52) - 1);
  if e == 0x7ff { if m != 0 { return None; } return Some(if f > 0.0 { i128::MAX } else { i128::MIN }); }
  if e < 1023 { return Some(0); }
  let m = (m | (1 << 52)) as i128; let sh = e - 1075; let v = if sh <= 0 { if sh < -60 { 0 } else { m >> -sh } } else if sh > 70 { i128::MAX } else { m << sh };
  Some(if b >> 63 == 1 { -v } else { v })
}
fn num_int(n: &serde_json::Number) -> Option<i128> { if n.is_f64() { trunc(n.as_f64().unwrap()) } else { int_text(&n.to_string(), true) } }
fn w_int(d: &DataValue, signed: bool, lo: i128, hi: i128) -> Option<i128> {
  match &d.wrapped { Value::Null => Some(0), Value::Bool(b) => Some(*b as i128), Value::Number(n) => within(num_int(n), lo, hi),
    Value::String(s) => match d.data_type { DataType::BOOLEAN => None, DataType::DECIMAL | DataType::FLOAT => within(s.parse::<f64>().ok().and_then(trunc), lo, hi), _ => within(int_text(s, signed), lo, hi) }, _ => None }
}
fn w_float(d: &DataValue) -> Option<f64> {
  match &d.wrapped { Value::Null => Some(0.0), Value::Bool(b) => Some(*b as u8 as f64), Value::Number(n) => n.to_string().parse().ok(),
    Value::String(s) => match d.data_type { DataType::BOOLEAN => None, DataType::INTEGER => within(int_text(s, true), i64::MIN as i128, i64::MAX as i128).map(|i| i as f64), _ => s.parse().ok() }, _ => None }
}
fn w_bool(d: &DataValue) -> Option<bool> { match &d.wrapped { Value::Null => Some(false), Value::Bool(b) => Some(*b), Value::Number(n) => Some(!n.to_string().starts_with('-') && n.to_string().parse::<f64>().unwrap() != 0.0), Value::String(s) => match s.as_str() { "true" => Some(true), "false" => Some(false), _ => None }, _ => None } }
fn w_json(d: &DataValue) -> Option<Value> {
  match d.data_type { DataType::RAW => Some(d.wrapped.clone()), DataType::STRING => Some(Value::String(match &d.wrapped { Value::String(s) => s.clone(), v => v.to_string() })),
    DataType::BOOLEAN => w_bool(d).map(Value::Bool),
    DataType::INTEGER => { let hi = if d.wrapped.is_f64() { i64::MAX as i128 } else { u64::MAX as i128 }; w_int(d, true, i64::MIN as i128, hi).map(|i| if i < 0 { json!(i as i64) } else { json!(i as u64) }) }
    DataType::DECIMAL | DataType::FLOAT => w_float(d).map(|f| if f.is_finite() { json!(f) } else { Value::Null }) }
}
fn w_text(d: &DataValue) -> Option<String> { match d.data_type { DataType::RAW | DataType::STRING => Some(jtext(&d.wrapped)), DataType::INTEGER => w_json(d).map(|j| j.to_string()), DataType::BOOLEAN => w_bool(d).map(|b| b.to_string()), _ => w_float(d).map(|f| format!("{}", f)) } }
fn edge(r: &mut Rng) -> i128 { let b: i128 = match r.below(6) { 0 => 0, 1 => 1 << r.below(66), 2 => u16::MAX as i128, 3 => i64::MAX as i128, 4 => u64::MAX as i128, _ => r.lit_num() as i128 }; let b = b + r.range(-2, 2) as i128; if r.chance(1, 3) { -b } else { b } }
fn any_float(r: &mut Rng) -> f64 { match r.below(8) { 0 => f64::from_bits(r.next()), 1 => edge(r) as f64, 2 => edge(r) as f64 + 0.5, 3 => *r.pick(&[0.0, -0.0, 0.5, -0.5, 1e300, -1e300, f64::MIN_POSITIVE, 5e-324, 65535.9, 65536.0, -0.9, 9223372036854775807.0, 18446744073709551615.0, 1e19, -9.3e18]), 4 => r.range(-1000, 1000) as f64 / 8.0, _ => edge(r) as f64 / 3.0 } }
fn num_text(r: &mut Rng) -> String {
  match r.below(12) { 0..=2 => edge(r).to_string(), 3 => format!("{}", any_float(r)), 4 => format!("{:e}", any_float(r)), 5 => format!("+{}", edge(r)), 6 => format!("00{}", edge(r).abs()), 7 => format!(" {}", edge(r)), 8 => r.pick(&["", "+", "-", "NaN", "nan", "inf", "-inf", "infinity", "1e5", "1.", ".5", "0x10", "1_000", "true", "false", "TRUE", "True", "True ", "t", "null", "٣", "99999999999999999999999999999999999999999", "-0", "+0", "--1", "1e400", "-1e400", "65535", "65536"]).to_string(), 9 => gen::text(r), 10 => { let s = edge(r).to_string(); r.perturb(&s) } _ => r.below(300).to_string() }
}
fn wrapped(r: &mut Rng) -> Value {
  match r.below(12) { 0 => Value::Null, 1 => json!(r.chance(1, 2)), 2 => match u64::try_from(edge(r)) { Ok(u) => json!(u), _ => json!(7) }, 3 => match i64::try_from(edge(r)) { Ok(u) => json!(u), _ => json!(-7) }, 4 | 5 => { let f = any_float(r); if f.is_finite() { json!(f) } else { json!(0.5) } } 6..=9 => json!(num_text(r)), 10 => jval(r), _ => match r.below(4) { 0 => json!([]), 1 => json!({}), 2 => json!([1]), _ => json!({"a": null}) } }
}
fn same_f(a: Option<f64>, b: Option<f64>) -> bool { match (a, b) { (Some(x), Some(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()), (a, b) => a.is_none() == b.is_none() } }
fn show_value(d: &DataValue) -> Result<String, std::fmt::Error> { use std::fmt::Write; let mut s = String::new(); write!(s, "{}", d).map(|_| s) }
pub fn c13(c: &mut Ctx) {
  const TYPES: [DataType; 6] = [DataType::RAW, DataType::STRING, DataType::INTEGER, DataType::DECIMAL, DataType::FLOAT, DataType::BOOLEAN];
  let mut r = c.rng(13);
  for _ in 0..c.n(20000) {
    if c.stop() { return; }
    let v = wrapped(&mut r);
    for t in TYPES {
      let d = t.wrap(Ok(v.clone())).unwrap();
      c.case("conversion", format!("{:?} as {:?}", v, t), || {
        eqv!(d.wrapped, v, "wrapped value"); eqv!(d.data_type, t, "data type");
        same(d.as_json(), &w_json(&d), "as_json")?;
        eqv!(u16::try_from(d.clone()).ok().map(|n| n as i128), w_int(&d, false, 0, u16::MAX as i128), "u16");
        eqv!(u64::try_from(d.clone()).ok().map(|n| n as i128), w_int(&d, false, 0, u64::MAX as i128), "u64");
        eqv!(i64::try_from(d.clone()).ok().map(|n| n as i128), w_int(&d, true, i64::MIN as i128, i64::MAX as i128), "i64");
        let f = f64::try_from(d.clone()).ok(); ens!(same_f(f, w_float(&d)), "f64: got {:?}, want {:?}", f, w_float(&d));
        eqv!(bool::try_from(d.clone()).ok(), w_bool(&d), "bool");
        eqv!(show_value(&d).ok(), w_text(&d), "text");
        Ok(w_json(&d).is_some())
      });
    }
    let name = if r.chance(1, 2) { r.pick(&["string", "INTEGER", "Decimal", "float", "bOOLEAN", "raw", "RAW", "ſtring", "ﬂoat", "İNTEGER", "STRING ", "", "BOOL"]).to_string() } else { let s = r.pick(&["STRING", "INTEGER", "DECIMAL", "FLOAT", "BOOLEAN", "RAW"]).to_string(); r.perturb(&s) };
    c.case("data type name", format!("{:?}", name), || {
      let w = TYPES.iter().copied().find(|t| { let n = format!("{:?}", t); n.len() == name.len() && n.bytes().zip(name.bytes()).all(|(a, b)| a == b || (b.is_ascii_lowercase() && a == b - 32)) }).unwrap_or(DataType::RAW);
      eqv!(DataType::from(json!(name)), w, "from text");
      eqv!(DataType::from(v.clone()), if v.is_string() { DataType::from(v.clone()) } else { DataType::RAW }, "from other JSON");
      for t in TYPES { let j: Value = t.into(); eqv!(j, json!(format!("{:?}", t)), "into JSON"); let j: Value = (&t).into(); eqv!(DataType::from(j), t, "round trip"); ens!(t.wrap(Err(anyhow::anyhow!("no"))).is_err(), "wrap of an error"); }
      Ok(true)
    });
  }
}
