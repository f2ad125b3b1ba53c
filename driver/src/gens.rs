//! C08 generators and their JSON form
use crate::fw::*;
use crate::gen;
use crate::inter::{jval, some_text, GCATS};
use pact_models::expression_parser::DataType;
use pact_models::generators::{generators_from_json, generators_to_json, Generator, GeneratorCategory, Generators, UuidFormat};
use pact_models::matchingrules::Category;
use pact_models::path_exp::DocPath;
use pact_models::PactSpecification;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap};
use std::str::FromStr;

pub const SPECS: [PactSpecification; 6] = [PactSpecification::Unknown, PactSpecification::V1, PactSpecification::V1_1, PactSpecification::V2, PactSpecification::V3, PactSpecification::V4];
const UFS: [(UuidFormat, &str); 4] = [(UuidFormat::Simple, "simple"), (UuidFormat::LowerCaseHyphenated, "lower-case-hyphenated"), (UuidFormat::UpperCaseHyphenated, "upper-case-hyphenated"), (UuidFormat::Urn, "URN")];
const DTS: [(DataType, &str); 6] = [(DataType::RAW, "RAW"), (DataType::STRING, "STRING"), (DataType::INTEGER, "INTEGER"), (DataType::DECIMAL, "DECIMAL"), (DataType::FLOAT, "FLOAT"), (DataType::BOOLEAN, "BOOLEAN")];
pub const CATNAMES: [(GeneratorCategory, &str, Category); 7] = [(GeneratorCategory::METHOD, "method", Category::METHOD), (GeneratorCategory::PATH, "path", Category::PATH), (GeneratorCategory::HEADER, "header", Category::HEADER), (GeneratorCategory::QUERY, "query", Category::QUERY), (GeneratorCategory::BODY, "body", Category::BODY), (GeneratorCategory::STATUS, "status", Category::STATUS), (GeneratorCategory::METADATA, "metadata", Category::METADATA)];
fn text_of(v: &Value) -> String { match v { Value::String(s) => s.clone(), Value::Null => String::new(), v => v.to_string() } }
/// the attributes of a generator, by name; None for the one that has no JSON form
fn attrs(g: &Generator) -> Option<(&'static str, Vec<(&'static str, Value)>)> {
  let fe = |n, f: &Option<String>, e: &Option<String>| { let mut v = vec![]; if let Some(f) = f { v.push(("format", json!(f))) } if let Some(e) = e { v.push(("expression", json!(e))) } Some((n, v)) };
  match g {
    Generator::RandomInt(a, b) => Some(("RandomInt", vec![("min", json!(a)), ("max", json!(b))])),
    Generator::Uuid(f) => Some(("Uuid", f.iter().map(|f| ("format", json!(UFS.iter().find(|u| u.0 == *f).unwrap().1))).collect())),
    Generator::RandomDecimal(d) => Some(("RandomDecimal", vec![("digits", json!(d))])), Generator::RandomHexadecimal(d) => Some(("RandomHexadecimal", vec![("digits", json!(d))])), Generator::RandomString(d) => Some(("RandomString", vec![("size", json!(d))])),
    Generator::Regex(s) => Some(("Regex", vec![("regex", json!(s))])), Generator::Date(f, e) => fe("Date", f, e), Generator::Time(f, e) => fe("Time", f, e), Generator::DateTime(f, e) => fe("DateTime", f, e),
    Generator::RandomBoolean => Some(("RandomBoolean", vec![])),
    Generator::ProviderStateGenerator(s, d) => { let mut v = vec![("expression", json!(s))]; if let Some(d) = d { v.push(("dataType", json!(DTS.iter().find(|x| x.0 == *d).unwrap().1))) } Some(("ProviderState", v)) }
    Generator::MockServerURL(a, b) => Some(("MockServerURL", vec![("example", json!(a)), ("regex", json!(b))])), Generator::ArrayContains(_) => None,
  }
}
/// the generator a type name and attributes stand for
pub fn read_gen(t: &str, m: &Map<String, Value>) -> Option<Generator> {
  let s = |k: &str| m.get(k).map(text_of);
  let int = |k: &str, lo: i128, hi: i128, d: i128| m.get(k).filter(|v| v.is_number() && !v.is_f64()).and_then(|v| v.to_string().parse::<i128>().ok()).filter(|n| lo <= *n && *n <= hi).unwrap_or(d);
  let u16_ = |k: &str| int(k, 0, 65535, 10) as u16; let i32_ = |k: &str, d| int(k, i32::MIN as i128, i32::MAX as i128, d) as i32;
  Some(match t {
    "RandomInt" => Generator::RandomInt(i32_("min", 0), i32_("max", 10)), "Uuid" => Generator::Uuid(s("format").and_then(|f| UFS.iter().find(|u| u.1 == f).map(|u| u.0))),
    "RandomDecimal" => Generator::RandomDecimal(u16_("digits")), "RandomHexadecimal" => Generator::RandomHexadecimal(u16_("digits")), "RandomString" => Generator::RandomString(u16_("size")),
    "Regex" => Generator::Regex(s("regex")?), "Date" => Generator::Date(s("format"), s("expression")), "Time" => Generator::Time(s("format"), s("expression")), "DateTime" => Generator::DateTime(s("format"), s("expression")),
    "RandomBoolean" => Generator::RandomBoolean,
    "ProviderState" => Generator::ProviderStateGenerator(s("expression")?, m.get("dataType").map(|d| d.as_str().and_then(|d| DTS.iter().find(|x| x.1.eq_ignore_ascii_case(d)).map(|x| x.0)).unwrap_or(DataType::RAW))),
    "MockServerURL" => Generator::MockServerURL(s("example").unwrap_or_default(), s("regex").unwrap_or_default()), _ => return None })
}
const TYPES: [&str; 13] = ["RandomInt", "Uuid", "RandomDecimal", "RandomHexadecimal", "RandomString", "Regex", "Date", "Time", "DateTime", "RandomBoolean", "ProviderState", "MockServerURL", "ArrayContains"];
const ATTRS: [&str; 9] = ["min", "max", "format", "digits", "size", "regex", "expression", "dataType", "example"];
fn number(r: &mut Rng) -> Value { match r.below(6) { 0 => json!(r.range(-70000, 70000)), 1 => json!(r.lit_num()), 2 => json!((1i64 << r.below(40)) + r.range(-1, 1)), 3 => json!(-(1i64 << r.below(40)) + r.range(-1, 1)), 4 => json!(r.range(-80, 80) as f64 / 4.0), _ => json!(r.next()) } }
fn attr_value(r: &mut Rng, k: &str) -> Value { match r.below(8) { 0..=3 => match k { "min" | "max" | "digits" | "size" => number(r), "format" if r.chance(1, 2) => json!(r.pick(&UFS).1), "dataType" => { let s = r.pick(&DTS).1; json!(match r.below(3) { 0 => s.to_lowercase(), 1 => r.perturb(s), _ => s.to_string() }) } _ => json!(some_text(r)) }, 4 => number(r), 5 => json!(number(r).to_string()), 6 => json!(some_text(r)), _ => jval(r) } }
fn gobj(r: &mut Rng) -> Map<String, Value> {
  let mut m = Map::new();
  if r.chance(3, 5) { if let Some((t, a)) = attrs(&gen::generator(r, 0)) { m.insert("type".into(), json!(t)); for (k, v) in a { m.insert(k.into(), v); } if r.chance(1, 2) { return m; } } }
  if !m.contains_key("type") && r.chance(9, 10) { let t = r.pick(&TYPES).to_string(); m.insert("type".into(), match r.below(12) { 0 => jval(r), 1 => json!(r.perturb(&t)), 2 => json!(t.to_lowercase()), _ => json!(t) }); }
  for k in ATTRS { if r.chance(1, 3) { let v = attr_value(r, k); m.insert(k.into(), v); } }
  if r.chance(1, 6) { m.insert(some_text(r), jval(r)); }
  m
}
pub type Flat = BTreeMap<(String, String), String>;
pub fn flat(g: &Generators) -> Flat { let mut o = Flat::new(); for (c, m) in &g.categories { for (p, x) in m { let n = CATNAMES.iter().find(|x| x.0 == *c).unwrap().1; o.insert((n.into(), p.to_string()), gen::canon_gen(x)); } } o }
fn want_load(m: &Map<String, Value>) -> Option<Flat> {
  let mut o = Flat::new();
  let one = |o: &mut Flat, n: &str, p: String, m: &Map<String, Value>| if let Some(Value::String(t)) = m.get("type") { if let Some(g) = read_gen(t, m) { o.insert((n.into(), p), gen::canon_gen(&g)); } };
  for (k, v) in m {
    let (n, v) = match (CATNAMES.iter().find(|c| c.1 == k.to_lowercase()), v) { (Some(c), Value::Object(v)) => (c.1, v), _ => continue };
    if ["method", "path", "status"].contains(&n) { one(&mut o, n, String::new(), v); continue; }
    for (s, x) in v { if let Value::Object(x) = x { let p = if n == "header" || n == "query" { let mut p = DocPath::root(); p.push_field(s.as_str()); p.to_string() } else { DocPath::new(s.as_str()).ok()?; s.clone() }; one(&mut o, n, p, x); } }
  }
  Some(o)
}
fn obj(t: &str, a: &[(&'static str, Value)]) -> Value { let mut m = Map::new(); m.insert("type".into(), json!(t)); for (k, v) in a { m.insert(k.to_string(), v.clone()); } Value::Object(m) }
pub fn c08(c: &mut Ctx) {
  let mut r = c.rng(8);
  for (u, n) in UFS { c.case("uuid format", n.into(), || { eqv!(u.to_string(), n, "display"); eqv!(UuidFormat::from_str(n).ok(), Some(u), "parse"); Ok(true) }); }
  for (g, n, k) in CATNAMES.iter() { c.case("category", n.to_string(), || { let s: String = g.clone().into(); eqv!(s, n.to_string(), "name"); let s: &str = g.clone().into(); eqv!(s, *n, "name"); let q: Category = g.clone().into(); eqv!(q, k.clone(), "rule category"); eqv!(GeneratorCategory::from_str(&n.to_uppercase()), Ok(g.clone()), "parse"); Ok(true) }); }
  for _ in 0..c.n(6000) {
    if c.stop() { return; }
    let g = gen::generator(&mut r, 1);
    c.case("generator", format!("{:?}", g), || {
      match attrs(&g) {
        None => { ens!(g.to_json().is_none(), "to_json of an array variant: {:?}", g.to_json()); eqv!(g.name(), "ArrayContains", "name"); Ok(false) }
        Some((t, a)) => {
          eqv!(g.name(), t, "name"); eqv!(g.to_json(), Some(obj(t, &a)), "to_json");
          let j = g.to_json().unwrap(); let back = Generator::from_map(t, j.as_object().unwrap()); eqv!(back.as_ref().map(gen::canon_gen), Some(gen::canon_gen(&g)), "from_map of to_json");
          eqv!(Generator::create(t, &j).ok().as_ref().map(gen::canon_gen), Some(gen::canon_gen(&g)), "create");
          let v = g.values(); let n = |k: &str| match (t, k) { ("RandomString", "size") => "digits".to_string(), ("ProviderState", "dataType") => "data_type".into(), (_, k) => k.to_string() };
          let w: BTreeMap<String, Value> = a.iter().map(|(k, v)| (n(k), v.clone())).collect(); let v: BTreeMap<String, Value> = v.into_iter().map(|(k, v)| (k.to_string(), v)).collect(); eqv!(v, w, "values");
          Ok(!a.is_empty()) }
      }
    });
    let m = gobj(&mut r); let t = match m.get("type") { Some(Value::String(s)) => s.clone(), _ => r.pick(&TYPES).to_string() };
    c.case("attributes", format!("{} {}", t, Value::Object(m.clone())), || {
      let w = read_gen(&t, &m); let g = Generator::from_map(&t, &m);
      eqv!(g.as_ref().map(gen::canon_gen), w.as_ref().map(gen::canon_gen), "from_map");
      eqv!(Generator::create(&t, &Value::Object(m.clone())).ok().as_ref().map(gen::canon_gen), w.as_ref().map(gen::canon_gen), "create");
      for v in [json!(null), json!([]), json!("x")] { ens!(Generator::create(&t, &v).is_err(), "create from {}", v); }
      Ok(w.is_some())
    });
    // a whole set: single generators, named headers and parameters, paths
    let mut g = Generators::default(); let mut w = Flat::new(); let mut log = String::new();
    for _ in 0..r.below(7) {
      let (cat, n, _) = r.pick(&CATNAMES).clone(); let x = gen::generator(&mut r, 0);
      let p = match n { "method" | "path" | "status" => { g.add_generator(&cat, x.clone()); DocPath::empty() } "header" | "query" => { let mut f = some_text(&mut r); if f.is_empty() { f = "x".into(); } let mut p = DocPath::root(); p.push_field(f); g.add_generator_with_subcategory(&cat, p.clone(), x.clone()); p } _ => { let p = gen::path(&mut r, 4); g.add_generator_with_subcategory(&cat, p.clone(), x.clone()); p } };
      w.insert((n.into(), p.to_string()), gen::canon_gen(&x)); log += &format!("{} {:?} {:?}; ", n, p.to_string(), x);
    }
    if r.chance(1, 6) { g.categories.entry(r.pick(&GCATS).clone()).or_insert_with(HashMap::new); }
    let mut g2 = Generators::default(); let mut w2 = w.clone();
    for _ in 0..r.below(4) { let (cat, n, _) = r.pick(&CATNAMES).clone(); let p = if r.chance(1, 2) { g.categories.get(&cat).and_then(|m| m.keys().min_by_key(|k| k.to_string()).cloned()).unwrap_or_else(DocPath::root) } else { gen::path(&mut r, 2) }; let x = gen::generator(&mut r, 0); g2.add_generator_with_subcategory(&cat, p.clone(), x.clone()); w2.insert((n.into(), p.to_string()), gen::canon_gen(&x)); }
    c.case("set", log, || {
      eqv!(flat(&g), w, "added"); eqv!(g.is_empty(), w.is_empty(), "is_empty"); eqv!(g.is_not_empty(), !w.is_empty(), "is_not_empty");
      for s in SPECS { let j = generators_to_json(&g, &s); if s < PactSpecification::V3 { eqv!(j, Value::Null, "JSON before V3"); continue; }
        let back = generators_from_json(&json!({ "generators": j })).map_err(|e| format!("reading {} back: {}", j, e))?; eqv!(flat(&back), w, format!("read back from {}", j)); ens!(back == g, "not equal after the round trip");
        let mut l = Generators::default(); l.load_from_map(j.as_object().ok_or("not an object")?).map_err(|e| e.to_string())?; eqv!(flat(&l), w, "load_from_map"); }
      let mut s = g.clone(); s.add_generators(g2.clone()); eqv!(flat(&s), w2, "add_generators");
      Ok(!w.is_empty())
    });
    // documents of any shape
    let mut d = Map::new();
    for _ in 0..r.below(5) { let n = r.pick(&CATNAMES).1; let k = match r.below(8) { 0 => n.to_uppercase(), 1 => r.perturb(n), _ => n.to_string() };
      let v = if r.chance(1, 12) { jval(&mut r) } else if ["method", "path", "status"].contains(&n) { Value::Object(gobj(&mut r)) } else { let mut o = Map::new(); for _ in 0..r.below(4) { let s = match n { "header" | "query" => some_text(&mut r), _ => if r.chance(1, 8) { some_text(&mut r) } else { gen::path(&mut r, 3).to_string() } }; o.insert(s, if r.chance(1, 10) { jval(&mut r) } else { Value::Object(gobj(&mut r)) }); } Value::Object(o) };
      d.insert(k, v); }
    c.case("document", Value::Object(d.clone()).to_string(), || {
      let w = want_load(&d); let mut g = Generators::default(); let ok = g.load_from_map(&d).is_ok();
      eqv!(ok, w.is_some(), "load_from_map succeeds"); if let Some(w) = &w { eqv!(flat(&g), *w, "loaded"); }
      let j = generators_from_json(&json!({ "generators": d, "other": 1 })); eqv!(j.is_ok(), w.is_some(), "generators_from_json succeeds"); if let (Ok(j), Some(w)) = (j, &w) { eqv!(flat(&j), *w, "generators_from_json"); }
      Ok(w.map_or(false, |w| !w.is_empty()))
    });
  }
}
pub fn gen_json(g: &Generator) -> Option<Value> { attrs(g).map(|(t, a)| obj(t, &a)) }
