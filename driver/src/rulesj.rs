//! C09 one matching rule and its JSON form, C10 categories and rule sets in V3/V4 and V2 form
use crate::fw::*;
use crate::gen;
use crate::gens::{read_gen, gen_json, SPECS};
use crate::inter::{jval, some_text};
use either::Either;
use pact_models::generators::Generator;
use pact_models::matchingrules::expressions::{MatchingRuleDefinition, ValueType};
use pact_models::matchingrules::{matchers_from_json, matchers_to_json, Category, MatchingRule, MatchingRuleCategory, MatchingRules, RuleList, RuleLogic};
use pact_models::path_exp::{DocPath, PathToken};
use pact_models::{HttpStatus, PactSpecification};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap};
use std::str::FromStr;

const STATUS: [(&str, HttpStatus); 7] = [("info", HttpStatus::Information), ("success", HttpStatus::Success), ("redirect", HttpStatus::Redirect), ("clientError", HttpStatus::ClientError), ("serverError", HttpStatus::ServerError), ("nonError", HttpStatus::NonError), ("error", HttpStatus::Error)];
fn text_of(v: &Value) -> String { match v { Value::String(s) => s.clone(), Value::Null => String::new(), v => v.to_string() } }
fn size(v: Option<&Value>) -> Option<usize> { match v? { Value::Number(n) if n.is_f64() => Some(n.as_f64().unwrap() as usize), Value::Number(n) => n.to_string().parse().ok(), Value::String(s) => { let d = s.strip_prefix('+').unwrap_or(s); if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) { None } else { d.parse().ok() } } _ => None } }
fn status_json(s: &HttpStatus) -> Value { match s { HttpStatus::StatusCodes(c) => Value::Array(c.iter().map(|c| json!(c)).collect()), s => json!(STATUS.iter().find(|x| x.1 == *s).unwrap().0) } }
fn status_of(v: &Value) -> Option<HttpStatus> {
  match v { Value::String(s) => STATUS.iter().find(|x| x.0 == s).map(|x| x.1.clone()),
    Value::Array(a) => { let mut o = vec![]; for x in a { let n: i128 = match x { Value::Number(n) if n.is_f64() => { let f = n.as_f64().unwrap(); if f <= -1.0 || f >= 65536.0 { -1 } else { f as i128 } } Value::Number(n) => n.to_string().parse().ok()?, Value::String(s) => size(Some(&json!(s)))? as i128, _ => return None }; if n < 0 || n > 65535 { return None } o.push(n as u16); } Some(HttpStatus::StatusCodes(o)) }
    _ => None }
}
fn list_json(l: &RuleList) -> Value { json!({ "combine": if l.rule_logic == RuleLogic::Or { "OR" } else { "AND" }, "matchers": l.rules.iter().map(rule_json).collect::<Vec<_>>() }) }
pub fn cat_json(c: &MatchingRuleCategory) -> Value { Value::Object(c.rules.iter().map(|(k, l)| (match (&c.name, k.tokens().as_slice()) { (Category::HEADER | Category::QUERY, [PathToken::Root, PathToken::Field(f), ..]) => f.clone(), _ => k.to_string() }, list_json(l))).collect()) }
/// the attributes of a rule by name, and the values() name they have
fn parts(r: &MatchingRule) -> (&'static str, &'static str, Vec<(&'static str, Value)>) {
  let def = |d: &MatchingRuleDefinition| { let mut v = vec![("rules", json!(d.rules.iter().map(|r| match r { Either::Left(r) => rule_json(r), Either::Right(_) => Value::Null }).collect::<Vec<_>>()))]; if !d.value.is_empty() { v.push(("value", json!(d.value))) } if let Some(g) = &d.generator { v.push(("generator", gen_json(g).unwrap_or_default())) } v };
  match r {
    MatchingRule::Equality => ("equality", "equality", vec![]), MatchingRule::Regex(s) => ("regex", "regex", vec![("regex", json!(s))]), MatchingRule::Type => ("type", "type", vec![]), MatchingRule::MinType(n) => ("type", "min-type", vec![("min", json!(n))]), MatchingRule::MaxType(n) => ("type", "max-type", vec![("max", json!(n))]),
    MatchingRule::MinMaxType(a, b) => ("type", "min-max-type", vec![("min", json!(a)), ("max", json!(b))]), MatchingRule::Timestamp(s) => ("datetime", "datetime", vec![("format", json!(s))]), MatchingRule::Time(s) => ("time", "time", vec![("format", json!(s))]), MatchingRule::Date(s) => ("date", "date", vec![("format", json!(s))]),
    MatchingRule::Include(s) => ("include", "include", vec![("value", json!(s))]), MatchingRule::Number => ("number", "number", vec![]), MatchingRule::Integer => ("integer", "integer", vec![]), MatchingRule::Decimal => ("decimal", "decimal", vec![]), MatchingRule::Null => ("null", "null", vec![]), MatchingRule::ContentType(s) => ("contentType", "content-type", vec![("value", json!(s))]),
    MatchingRule::ArrayContains(v) => ("arrayContains", "array-contains", vec![("variants", Value::Array(v.iter().map(|(i, c, g)| { let mut m = Map::new(); m.insert("index".into(), json!(i)); m.insert("rules".into(), cat_json(c)); if !g.is_empty() { m.insert("generators".into(), Value::Object(g.iter().filter_map(|(k, g)| gen_json(g).map(|j| (k.to_string(), j))).collect())); } Value::Object(m) }).collect()))]),
    MatchingRule::Values => ("values", "values", vec![]), MatchingRule::Boolean => ("boolean", "boolean", vec![]), MatchingRule::StatusCode(s) => ("statusCode", "status-code", vec![("status", status_json(s))]), MatchingRule::NotEmpty => ("notEmpty", "not-empty", vec![]), MatchingRule::Semver => ("semver", "semver", vec![]),
    MatchingRule::EachKey(d) => ("eachKey", "each-key", def(d)), MatchingRule::EachValue(d) => ("eachValue", "each-value", def(d)),
  }
}
pub fn rule_json(r: &MatchingRule) -> Value { let (t, _, a) = parts(r); let mut m = Map::new(); m.insert("match".into(), json!(t)); for (k, v) in a { m.insert(k.into(), v); } Value::Object(m) }
/// what a rule comes back as: definitions lose their type and expression, generators without JSON form are gone
pub fn kept(r: &MatchingRule) -> MatchingRule {
  let def = |d: &MatchingRuleDefinition| MatchingRuleDefinition { value: d.value.clone(), value_type: ValueType::Unknown, rules: d.rules.iter().filter_map(|r| r.as_ref().left().map(|r| Either::Left(kept(r)))).collect(), generator: d.generator.clone().filter(|g| gen_json(g).is_some()), expression: String::new() };
  match r { MatchingRule::EachKey(d) => MatchingRule::EachKey(def(d)), MatchingRule::EachValue(d) => MatchingRule::EachValue(def(d)),
    MatchingRule::ArrayContains(v) => MatchingRule::ArrayContains(v.iter().map(|(i, c, g)| (*i, kept_cat(c), g.iter().filter(|x| gen_json(x.1).is_some()).map(|(k, g)| (k.clone(), g.clone())).collect())).collect()), r => r.clone() }
}
pub fn kept_cat(c: &MatchingRuleCategory) -> MatchingRuleCategory { MatchingRuleCategory { name: c.name.clone(), rules: c.rules.iter().filter(|x| !x.1.rules.is_empty()).map(|(k, l)| (k.clone(), RuleList { rules: l.rules.iter().map(kept).collect(), rule_logic: l.rule_logic, cascaded: false })).collect() } }
/// the rule a JSON value stands for
fn read_rule(v: &Value) -> Option<MatchingRule> {
  let m = v.as_object()?;
  if let Some(t) = m.get("match").or(m.get("pact:matcher:type")) { return make(&text_of(t), m); }
  let s = |k: &str| m.get(k).map(text_of);
  if let Some(x) = s("regex") { Some(MatchingRule::Regex(x)) } else if let Some(n) = size(m.get("min")) { Some(MatchingRule::MinType(n)) } else if let Some(n) = size(m.get("max")) { Some(MatchingRule::MaxType(n)) }
  else if let Some(x) = s("timestamp") { Some(MatchingRule::Timestamp(x)) } else if let Some(x) = s("time") { Some(MatchingRule::Time(x)) } else { s("date").map(MatchingRule::Date) }
}
fn make(t: &str, m: &Map<String, Value>) -> Option<MatchingRule> {
  let s = |k: &str| m.get(k).map(text_of); let n = |k: &str| size(m.get(k));
  let fmt = || s("format").or_else(|| s(t)).unwrap_or_default();
  let def = || { let rules = match m.get("rules") { None => vec![], Some(Value::Array(a)) => { let mut o = vec![]; for x in a { o.push(Either::Left(read_rule(x)?)); } o } _ => return None };
    let generator = m.get("generator").and_then(|g| g.as_object()).and_then(|g| g.get("type").and_then(|t| t.as_str()).and_then(|t| read_gen(t, g)));
    Some(MatchingRuleDefinition { value: s("value").unwrap_or_default(), value_type: ValueType::Unknown, rules, generator, expression: String::new() }) };
  Some(match t {
    "regex" => MatchingRule::Regex(s("regex")?), "equality" => MatchingRule::Equality, "include" => MatchingRule::Include(s("value")?), "type" => match (n("min"), n("max")) { (Some(a), Some(b)) => MatchingRule::MinMaxType(a, b), (Some(a), None) => MatchingRule::MinType(a), (None, Some(b)) => MatchingRule::MaxType(b), _ => MatchingRule::Type },
    "number" => MatchingRule::Number, "integer" => MatchingRule::Integer, "decimal" | "real" => MatchingRule::Decimal, "boolean" => MatchingRule::Boolean, "min" | "min-type" => MatchingRule::MinType(n("min")?), "max" | "max-type" => MatchingRule::MaxType(n("max")?), "min-max-type" => MatchingRule::MinMaxType(n("min")?, n("max")?),
    "timestamp" | "datetime" => MatchingRule::Timestamp(fmt()), "date" => MatchingRule::Date(fmt()), "time" => MatchingRule::Time(fmt()), "null" => MatchingRule::Null, "contentType" | "content-type" => MatchingRule::ContentType(s("value")?),
    "arrayContains" | "array-contains" => { let mut o = vec![]; for v in m.get("variants")?.as_array()? {
      let mut c = MatchingRuleCategory::empty("body"); match v.get("rules") { Some(r) => if !add_rules(&mut c, r, false) { return None }, None => c.add_rule(DocPath::empty(), MatchingRule::Equality, RuleLogic::And) }
      let mut g = HashMap::new(); if let Some(Value::Object(m)) = v.get("generators") { for (k, x) in m { if let Value::Object(x) = x { let p = DocPath::new(k.as_str()).ok()?; if let Some(x) = x.get("type").and_then(|t| t.as_str()).and_then(|t| read_gen(t, x)) { g.insert(p, x); } } } }
      o.push((size(v.get("index")).unwrap_or(0), c, g)); } MatchingRule::ArrayContains(o) }
    "values" => MatchingRule::Values, "statusCode" | "status-code" => MatchingRule::StatusCode(match m.get("status") { Some(s) => status_of(s)?, None => HttpStatus::Success }), "notEmpty" | "not-empty" => MatchingRule::NotEmpty, "semver" => MatchingRule::Semver,
    "eachKey" | "each-key" => MatchingRule::EachKey(def()?), "eachValue" | "each-value" => MatchingRule::EachValue(def()?), _ => return None })
}
pub fn field(n: &str) -> DocPath { let mut p = DocPath::root(); p.push_field(n); p }
fn add_list(c: &mut MatchingRuleCategory, k: DocPath, v: &Value) -> bool {
  let logic = if v.get("combine").map_or(false, |c| text_of(c).to_uppercase() == "OR") { RuleLogic::Or } else { RuleLogic::And };
  if let Some(Value::Array(a)) = v.get("matchers") { for x in a { match read_rule(x) { Some(r) => c.rules.entry(k.clone()).or_insert_with(|| RuleList::empty(logic)).rules.push(r), None => return false } } }
  true
}
/// adds the rules of a category in V3 form; names: headers and query parameters are names and not paths
fn add_rules(c: &mut MatchingRuleCategory, v: &Value, names: bool) -> bool {
  let m = match v { Value::Object(m) => m, _ => return !names };
  let list = match m.get("matchers") { None => false, Some(x) => c.name == Category::PATH || x.is_array() };
  if list { return add_list(c, DocPath::empty(), v); }
  for (k, x) in m { let p = if names && (c.name == Category::HEADER || c.name == Category::QUERY) { field(k) } else { match DocPath::new(k.as_str()) { Ok(p) => p, Err(_) => return false } }; if !add_list(c, p, x) { return false; } }
  true
}
fn cat_of(k: &str) -> Category { let l = k.to_lowercase(); match l.as_str() { "headers" => Category::HEADER, l => gen::CATS.iter().find(|c| { let s: &str = (*c).clone().into(); s == l }).cloned().unwrap_or(Category::BODY) } }
/// categories by name, rules by the steps of their path (a name given without `$` is the same name)
pub fn flat(m: &MatchingRules) -> BTreeMap<(String, String), String> { let mut o = BTreeMap::new(); for (c, x) in &m.rules { assert!(*c == x.name, "category {:?} holds rules for {:?}", c, x.name); for (p, l) in &x.rules { o.insert((c.to_string(), format!("{:?}", p.tokens())), gen::canon_list(l)); } } o }
fn load_v3(m: &Map<String, Value>) -> Option<MatchingRules> { let mut o = MatchingRules::default(); for (k, v) in m { let c = cat_of(k); if !add_rules(o.rules.entry(c.clone()).or_insert_with(|| MatchingRuleCategory::empty(c)), v, true) { return None; } } Some(o) }
fn load_v2(m: &Map<String, Value>) -> Option<MatchingRules> {
  let mut o = MatchingRules::default();
  for (k, v) in m {
    let (c, p) = if let Some(rest) = k.strip_prefix("$.body") { (Category::BODY, DocPath::new(format!("${}", rest)).ok()?) } else {
      let p = DocPath::new(k.as_str()).ok()?; let f: Vec<&String> = p.tokens().iter().filter_map(|t| match t { PathToken::Field(f) => Some(f), _ => None }).collect();
      if k.starts_with("$.headers") { (Category::HEADER, field(f.get(1)?)) } else { (cat_of(f.get(0)?), f.get(1).map_or_else(DocPath::empty, |n| field(n))) } };
    let r = read_rule(v)?; o.rules.entry(c.clone()).or_insert_with(|| MatchingRuleCategory::empty(c)).rules.entry(p).or_insert_with(|| RuleList::empty(RuleLogic::And)).rules.push(r);
  }
  Some(o)
}
const TYPES: [&str; 36] = ["regex", "equality", "include", "type", "number", "integer", "decimal", "real", "boolean", "min", "max", "min-type", "max-type", "min-max-type", "timestamp", "datetime", "date", "time", "null", "contentType", "content-type", "arrayContains", "array-contains", "values", "statusCode", "status-code", "notEmpty", "not-empty", "semver", "eachKey", "each-key", "eachValue", "each-value", "type", "regex", "Type"];
const ATTRS: [&str; 16] = ["regex", "min", "max", "value", "format", "timestamp", "datetime", "date", "time", "status", "variants", "rules", "generator", "match", "pact:matcher:type", "values"];
fn num(r: &mut Rng) -> Value { match r.below(8) { 0 => json!(0), 1 => json!(r.range(-5, 1000)), 2 => json!(r.next()), 3 => json!(r.lit_num()), 4 => json!(*r.pick(&[0.0, 0.5, 3.99, -0.0, -0.5, -2.0, 1e30, 7.0])), 5 => json!(i64::MIN), 6 => json!(i64::MAX as u64 + r.below(3) as u64), _ => json!(r.range(60000, 70000)) } }
fn attr(r: &mut Rng, k: &str, depth: usize) -> Value {
  if r.chance(1, 8) { return jval(r) }
  match k {
    "min" | "max" => match r.below(4) { 0 => json!(num(r).to_string()), 1 => json!(some_text(r)), 2 => json!(r.range(0, 20)), _ => num(r) },
    "status" => match r.below(3) { 0 => json!(r.pick(&STATUS).0), 1 => json!(some_text(r)), _ => { let n = r.below(4); Value::Array((0..n).map(|_| match r.below(6) { 0 => json!(num(r).to_string()), 1 => num(r), 2 => jval(r), 3 => json!("200"), _ => json!(r.range(100, 599)) }).collect()) } },
    "variants" => { let n = r.below(3); Value::Array((0..n).map(|_| { let mut m = Map::new(); if r.chance(4, 5) { m.insert("index".into(), attr(r, "min", 0)); } if r.chance(4, 5) { m.insert("rules".into(), cat_doc(r, Category::BODY, depth)); } if r.chance(1, 2) { let mut g = Map::new(); for _ in 0..r.below(3) { let p = if r.chance(1, 8) { some_text(r) } else { gen::path(r, 2).to_string() }; let x = if r.chance(1, 6) { jval(r) } else { gen_json(&gen::generator(r, 0)).unwrap_or_default() }; g.insert(p, x); } m.insert("generators".into(), Value::Object(g)); } Value::Object(m) }).collect()) }
    "rules" => { let n = r.below(3); Value::Array((0..n).map(|_| rule_doc(r, depth)).collect()) }
    "generator" => gen_json(&gen::generator(r, 0)).unwrap_or_default(), "match" | "pact:matcher:type" => json!(*r.pick(&TYPES)), _ => json!(some_text(r)) }
}
fn rule_doc(r: &mut Rng, depth: usize) -> Value {
  if r.chance(1, 12) { return jval(r) }
  if r.chance(2, 5) { return rule_json(&gen::rule(r, depth.min(1))) }
  let mut m = Map::new(); let t = *r.pick(&TYPES); if depth == 0 && t.contains(|c| c == 'C' || c == '-') { return json!({ "match": "type" }) }
  if r.chance(4, 5) { m.insert(if r.chance(1, 6) { "pact:matcher:type" } else { "match" }.into(), match r.below(12) { 0 => json!(r.perturb(t)), 1 => jval(r), _ => json!(t) }); }
  for k in ATTRS { let likely = matches!((t, k), ("regex", "regex") | ("include" | "contentType" | "content-type" | "eachKey" | "eachValue" | "each-key" | "each-value", "value") | ("type", "min" | "max") | ("min" | "min-type" | "min-max-type", "min") | ("max" | "max-type" | "min-max-type", "max") | ("timestamp" | "datetime" | "date" | "time", "format") | ("statusCode" | "status-code", "status") | ("arrayContains" | "array-contains", "variants") | ("eachKey" | "eachValue" | "each-key" | "each-value", "rules" | "generator")) || k == t;
    if k != "match" && k != "pact:matcher:type" && r.chance(if likely { 5 } else { 1 }, if likely { 6 } else { 24 }) { let v = attr(r, k, depth.saturating_sub(1)); m.insert(k.into(), v); } }
  Value::Object(m)
}
fn list_doc(r: &mut Rng, depth: usize) -> Value { let n = r.below(3); let mut m = Map::new(); if r.chance(9, 10) { m.insert("matchers".into(), if r.chance(1, 20) { jval(r) } else { Value::Array((0..n).map(|_| rule_doc(r, depth)).collect()) }); } if r.chance(2, 3) { m.insert("combine".into(), match r.below(8) { 0 => json!("or"), 1 => json!("oR"), 2 => jval(r), 3 => json!(r.perturb("OR")), 4 => json!("OR"), _ => json!("AND") }); } Value::Object(m) }
pub fn name(r: &mut Rng) -> String { let s = match r.below(8) { 0 => "matchers".to_string(), 1 => "ids[]".into(), 2 => "a.b".into(), 3 => "$".into(), _ => some_text(r) }; if s.is_empty() { "n".into() } else { s } }
fn cat_doc(r: &mut Rng, c: Category, depth: usize) -> Value {
  if r.chance(1, 10) || c == Category::PATH { return list_doc(r, depth) } if r.chance(1, 24) { return jval(r) }
  let mut m = Map::new(); for _ in 0..r.below(4) { let k = match c { Category::HEADER | Category::QUERY => name(r), Category::STATUS | Category::METHOD if r.chance(1, 2) => String::new(), _ => if r.chance(1, 12) { some_text(r) } else { gen::path(r, 3).to_string() } }; let v = if r.chance(1, 16) { jval(r) } else { list_doc(r, depth) }; m.insert(k, v); } Value::Object(m)
}
pub fn c09(c: &mut Ctx) {
  let mut r = c.rng(9);
  for (n, s) in STATUS.iter() { c.case("status", n.to_string(), || { eqv!(s.to_json(), json!(n), "to_json"); eqv!(HttpStatus::from_json(&json!(n)).ok(), Some(s.clone()), "from_json"); Ok(true) }); }
  for _ in 0..c.n(9000) {
    if c.stop() { return; }
    let x = gen::rule(&mut r, 2);
    c.case("rule", gen::canon(&x), || {
      let (t, n, a) = parts(&x); let w = rule_json(&x); let k = gen::canon(&kept(&x));
      let j = x.to_json(); eqv!(j, w, "to_json"); eqv!(j["match"], json!(t), "type"); eqv!(x.name(), n, "name");
      let back = MatchingRule::from_json(&j).map_err(|e| format!("from_json of {}: {}", j, e))?; eqv!(gen::canon(&back), k, format!("read back from {}", j));
      if k == gen::canon(&x) { ens!(back == x, "not equal after the round trip through {}", j); }
      let v = x.values();
      if !matches!(x, MatchingRule::ArrayContains(_)) {
        eqv!(v.iter().map(|(k, v)| (k.to_string(), v.clone())).collect::<BTreeMap<_, _>>(), a.iter().map(|(k, v)| (k.to_string(), v.clone())).collect(), "values");
        let m: Map<String, Value> = v.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
        eqv!(MatchingRule::create(n, &Value::Object(m)).ok().as_ref().map(gen::canon), Some(k), "created from name and values"); }
      Ok(!a.is_empty())
    });
    let d = rule_doc(&mut r, 2);
    c.case("document", d.to_string(), || {
      let w = read_rule(&d); let g = MatchingRule::from_json(&d).ok(); eqv!(g.as_ref().map(gen::canon), w.as_ref().map(gen::canon), "from_json"); Ok(w.is_some())
    });
    let t = if r.chance(1, 8) { some_text(&mut r) } else { r.pick(&TYPES).to_string() }; let d = if r.chance(1, 6) { jval(&mut r) } else { rule_doc(&mut r, 1) };
    c.case("create", format!("{} {}", t, d), || {
      let w = match &d { Value::Object(m) => make(&t, m), Value::Null => make(&t, &Map::new()), _ => None };
      eqv!(MatchingRule::create(&t, &d).ok().as_ref().map(gen::canon), w.as_ref().map(gen::canon), "create"); Ok(w.is_some())
    });
    let s = attr(&mut r, "status", 0); let st = gen::status(&mut r);
    c.case("status", format!("{} {:?}", s, st), || { eqv!(HttpStatus::from_json(&s).ok(), status_of(&s), "from_json"); eqv!(st.to_json(), status_json(&st), "to_json"); eqv!(HttpStatus::from_json(&st.to_json()).ok(), Some(st), "round trip"); Ok(s.is_array()) });
  }
}
pub fn c10(c: &mut Ctx) {
  let mut r = c.rng(10);
  for k in gen::CATS { c.case("category", format!("{:?}", k), || { let s: &str = k.clone().into(); eqv!(Category::from_str(s), Ok(k.clone()), "from_str"); eqv!(Category::from(s.to_uppercase()), k.clone(), "from"); eqv!(k.to_string(), s, "display"); let q: String = k.clone().into(); eqv!(q, s, "into"); Ok(true) }); }
  c.case("category", "headers".into(), || { eqv!(Category::from("Headers"), Category::HEADER, "from"); eqv!(Category::from_str("header s").is_err(), true, "other"); eqv!(Category::from("other"), Category::BODY, "default"); Ok(true) });
  for _ in 0..c.n(7000) {
    if c.stop() { return; }
    // a set keyed as the JSON form has it
    let mut m = MatchingRules::default(); let mut m2 = MatchingRules::default();
    for _ in 0..r.below(4) {
      let k = r.pick(&gen::CATS).clone(); let mut x = MatchingRuleCategory::empty(k.clone());
      let n = if k == Category::PATH { 1 } else { r.below(4) };
      for _ in 0..n { let p = match k { Category::PATH => if r.chance(1, 2) { DocPath::empty() } else { DocPath::root() }, Category::HEADER | Category::QUERY => { let n = name(&mut r); if r.chance(1, 5) { DocPath::new(n.as_str()).ok().filter(|p| p.tokens() == field(&n).tokens()).unwrap_or_else(|| field(&n)) } else { field(&n) } } Category::METHOD | Category::STATUS => DocPath::empty(), _ => if r.chance(1, 12) { DocPath::empty() } else { gen::path(&mut r, 3) } };
        let mut l = gen::rules(&mut r, 1); if r.chance(1, 10) { l.cascaded = true; } if r.chance(1, 8) && k != Category::PATH { l.rules.clear(); } if x.rules.keys().any(|q| q.tokens() == p.tokens()) { continue; } x.rules.insert(p, l); }
      if matches!(k, Category::PATH | Category::HEADER | Category::QUERY | Category::BODY) { let mut y = x.clone(); y.rules.retain(|p, l| !l.rules.is_empty() && (k == Category::PATH || !p.to_string().is_empty())); m2.rules.insert(k.clone(), y); }
      m.rules.insert(k, x);
    }
    c.case("set", { let mut v: Vec<String> = m.rules.values().map(gen::canon_cat).collect(); v.sort(); v.join(" ") }, || {
      let mut want = MatchingRules::default(); for (k, x) in &m.rules { let mut x = kept_cat(x); if *k == Category::PATH { x.rules = x.rules.into_iter().map(|(_, l)| (DocPath::empty(), l)).collect(); } if !x.rules.is_empty() { want.rules.insert(k.clone(), x); } }
      for s in SPECS { if s < PactSpecification::V3 { continue; }
        let j = matchers_to_json(&m, &s);
        let w: Map<String, Value> = m.rules.iter().filter(|x| !x.1.rules.is_empty()).map(|(k, x)| (k.to_string(), if *k == Category::PATH { list_json(x.rules.values().next().unwrap()) } else { cat_json(x) })).collect();
        eqv!(j, Value::Object(w), "to_json");
        for (doc, dep) in [(json!({ "matchingRules": j, "responseMatchingRules": {} }), None), (json!({ "requestMatchingRules": j }), Some("requestMatchingRules".to_string()))] {
          let b = matchers_from_json(&doc, &dep).map_err(|e| format!("reading {} back: {}", j, e))?; let f = flat(&b); eqv!(f, flat(&want), format!("read back from {}", j)); }
      }
      for (_, x) in &m.rules { eqv!(x.to_v3_json(), cat_json(x), "category to_v3_json"); }
      Ok(!want.rules.is_empty())
    });
    c.case("V2 set", { let mut v: Vec<String> = m2.rules.values().map(gen::canon_cat).collect(); v.sort(); v.join(" ") }, || {
      // V2 has one rule for each path
      let mut want = MatchingRules::default(); for (k, x) in &m2.rules { let x = kept_cat(x); if x.rules.is_empty() { continue; } want.rules.insert(k.clone(), MatchingRuleCategory { name: k.clone(), rules: x.rules.into_iter().map(|(p, l)| (if *k == Category::PATH { DocPath::empty() } else { p }, RuleList::new(l.rules[0].clone()))).collect() }); }
      for s in SPECS { if s >= PactSpecification::V3 { continue; }
        let j = matchers_to_json(&m2, &s); let o = j.as_object().ok_or("not an object")?;
        eqv!(o.len(), want.rules.values().map(|x| x.rules.len()).sum::<usize>(), format!("number of entries in {}", j));
        for k in o.keys() { ens!(k == "$.path" || ["$.headers", "$.query", "$.body"].iter().any(|p| k.strip_prefix(p).map_or(false, |t| t.is_empty() || t.starts_with('.') || t.starts_with('['))), "key {:?}", k); }
        let b = matchers_from_json(&json!({ "matchingRules": j }), &None).map_err(|e| format!("reading {} back: {}", j, e))?; let f = flat(&b); eqv!(f, flat(&want), format!("read back from {}", j)); }
      Ok(!want.rules.is_empty())
    });
    let mut d = Map::new(); let v2 = r.chance(1, 2);
    for _ in 0..r.below(5) { let k = r.pick(&gen::CATS).clone(); let n: &str = k.clone().into();
      if v2 { let p = match k { Category::HEADER | Category::QUERY => { let f = name(&mut r); format!("$.{}{}", if k == Category::HEADER && r.chance(4, 5) { "headers" } else { n }, &field(&f).to_string()[1..]) } Category::PATH => "$.path".into(), Category::METHOD | Category::STATUS => format!("$.{}", n), Category::BODY if r.chance(1, 24) => format!("$.bod{}", some_text(&mut r)), Category::BODY => format!("$.body{}", &gen::path(&mut r, 3).to_string()[1..]), _ => format!("$.{}{}", n, &gen::path(&mut r, 2).to_string()[1..]) }; let x = if r.chance(1, 16) { format!("${}", some_text(&mut r)) } else { p }; d.insert(x, rule_doc(&mut r, 1)); }
      else { let n = match r.below(10) { 0 => n.to_uppercase(), 1 => "headers".into(), 2 => r.perturb(n), _ => n.to_string() }; let v = cat_doc(&mut r, cat_of(&n), 1); d.insert(n, v); } }
    if d.keys().any(|k| k.starts_with('$')) != d.keys().next().map_or(false, |k| k.starts_with('$')) { continue; }
    c.case("document", Value::Object(d.clone()).to_string(), || {
      let w = if d.keys().next().map_or(false, |k| k.starts_with('$')) { load_v2(&d) } else { load_v3(&d) };
      let b = matchers_from_json(&json!({ "matchingRules": d }), &Some("x".into())).ok(); eqv!(b.is_some(), w.is_some(), "readable");
      if let (Some(b), Some(w)) = (&b, &w) { eqv!(flat(b), flat(w), "rules"); }
      let v = json!({ "x": d }); eqv!(matchers_from_json(&v, &Some("x".into())).ok().map(|b| flat(&b)), w.as_ref().map(flat), "under the old name"); eqv!(matchers_from_json(&v, &None).ok().map(|m| m.rules.len()), Some(0), "no rules");
      Ok(w.map_or(false, |w| !flat(&w).is_empty()))
    });
    let k = r.pick(&gen::CATS).clone(); let d = cat_doc(&mut r, k.clone(), 1); let start = gen::category(&mut r, k.clone(), 0);
    c.case("category", format!("{:?} {} onto {}", k, d, gen::canon_cat(&start)), || {
      for names in [true, false] { let mut w = start.clone(); let ok = add_rules(&mut w, &d, names); let mut g = start.clone(); let res = if names { g.add_v3_rules_from_json(&d) } else { g.add_rules_from_json(&d) };
        eqv!(res.is_ok(), ok, format!("readable as {}", if names { "V3" } else { "paths" })); if ok { eqv!(gen::canon_cat(&g), gen::canon_cat(&w), "category"); } }
      Ok(d.is_object())
    });
  }
}
