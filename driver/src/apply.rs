//! C18 generators are applied to exactly the values their paths select
use crate::fw::*;
use pact_models::generators::form_urlencoded::FormUrlEncodedHandler;
use pact_models::generators::{apply_generators, ContentTypeHandler, GenerateValue, Generator, GeneratorTestMode, JsonHandler, NoopVariantMatcher, VariantMatcher};
use pact_models::bodies::OptionalBody;
use pact_models::json_utils::resolve_path;
use pact_models::path_exp::{DocPath, PathToken};
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
enum Key { F(String), I(usize) }
fn name(r: &mut Rng) -> String { match r.below(5) { 0 => r.string(&['a', 'b', '/', '~', '0', '1', '.', '*', '\'', ' ', 'é'], 4), 1 => r.pick(&["a", "b"]).to_string(), _ => r.pick(&["a", "b", "c", "a/b", "/", "~", "~0", "~1", "~01", "", "0", "1", "2", "a.b", "*", "[*]", "[0]", "$", "é😀", "A", "-", "01", "+1"]).to_string() } }
fn doc(r: &mut Rng, depth: usize) -> Value {
  match r.below(if depth == 0 { 5 } else { 12 }) {
    0 => Value::Null, 1 => json!(r.chance(1, 2)), 2 => json!(r.below(10)), 3 => json!(name(r)), 4 => json!("x"),
    5 | 6 | 7 => { let n = r.below(4); Value::Array((0..n).map(|_| doc(r, depth - 1)).collect()) }
    8 => { let t = doc(r, depth - 1); let n = r.below(4); Value::Array((0..n).map(|_| t.clone()).collect()) }
    _ => { let n = r.below(5); let mut m = Map::new(); for _ in 0..n { m.insert(name(r), doc(r, depth - 1)); } Value::Object(m) } }
}
/// a path that mostly follows the document
fn path(r: &mut Rng, v: &Value) -> Vec<PathToken> {
  let mut t = vec![]; let mut v = Some(v); let n = match r.below(8) { 0 => 0, 1 | 2 => 1, 3 | 4 => 2, 5 | 6 => 3, _ => 4 };
  for _ in 0..n {
    let (x, next) = match v {
      Some(Value::Object(m)) if !m.is_empty() && r.chance(9, 10) => { let k = r.below(m.len()); let (k, c) = m.iter().nth(k).unwrap(); if r.chance(1, 3) { (PathToken::Star, Some(c)) } else { (PathToken::Field(k.clone()), Some(c)) } }
      Some(Value::Array(a)) if r.chance(9, 10) => { let k = r.below(a.len() + 1); if r.chance(1, 3) { (PathToken::StarIndex, a.get(k)) } else { (PathToken::Index(k), a.get(k)) } }
      _ => (match r.below(6) { 0 => PathToken::Star, 1 => PathToken::StarIndex, 2 | 3 => PathToken::Index(r.below(3)), _ => PathToken::Field(name(r)) }, v) };
    t.push(x); v = next;
  }
  t
}
fn dp(t: &[PathToken]) -> DocPath { DocPath::from_tokens(std::iter::once(PathToken::Root).chain(t.iter().cloned())) }
/// the places a path selects
fn select(v: &Value, t: &[PathToken]) -> Vec<Vec<Key>> {
  let Some((x, rest)) = t.split_first() else { return vec![vec![]] };
  let sub = |k: Key, v: &Value| select(v, rest).into_iter().map(|p| { let mut q = vec![k.clone()]; q.extend(p); q }).collect::<Vec<_>>();
  match (x, v) {
    (PathToken::Field(n), Value::Object(m)) => m.get(n).map(|c| sub(Key::F(n.clone()), c)).unwrap_or_default(),
    (PathToken::Star, Value::Object(m)) => m.iter().flat_map(|(k, c)| sub(Key::F(k.clone()), c)).collect(),
    (PathToken::Index(i), Value::Array(a)) => a.get(*i).map(|c| sub(Key::I(*i), c)).unwrap_or_default(),
    (PathToken::StarIndex, Value::Array(a)) => a.iter().enumerate().flat_map(|(i, c)| sub(Key::I(i), c)).collect(),
    _ => vec![] }
}
fn pointer(p: &[Key]) -> String { p.iter().map(|k| match k { Key::I(i) => format!("/{}", i), Key::F(n) => format!("/{}", n.chars().map(|c| match c { '~' => "~0".to_string(), '/' => "~1".to_string(), c => c.to_string() }).collect::<String>()) }).collect() }
fn change(v: &Value, at: &[Vec<Key>], here: &mut Vec<Key>, f: &dyn Fn(&Value) -> Option<Value>) -> Value {
  if at.iter().any(|p| p == here) { return f(v).unwrap_or_else(|| v.clone()); }
  match v {
    Value::Array(a) => Value::Array(a.iter().enumerate().map(|(i, c)| { here.push(Key::I(i)); let n = change(c, at, here, f); here.pop(); n }).collect()),
    Value::Object(m) => Value::Object(m.iter().map(|(k, c)| { here.push(Key::F(k.clone())); let n = change(c, at, here, f); here.pop(); (k.clone(), n) }).collect()),
    v => v.clone() }
}
/// a generator whose value depends on the value it replaces; it fails for booleans
struct Probe(RefCell<Vec<String>>);
fn probe(v: &Value) -> Option<Value> { match v { Value::Bool(_) => None, Value::Number(_) => Some(json!([{ "was": v }])), Value::Null => Some(json!({ "": { "a": 1 } })), v => Some(json!({ "a": { "was": v } })) } }
impl GenerateValue<Value> for Probe { fn generate_value(&self, v: &Value, _: &HashMap<&str, Value>, _: &Box<dyn VariantMatcher + Send + Sync>) -> anyhow::Result<Value> { self.0.borrow_mut().push(v.to_string()); probe(v).ok_or_else(|| anyhow::anyhow!("no value")) } }
impl GenerateValue<String> for Probe { fn generate_value(&self, v: &String, _: &HashMap<&str, Value>, _: &Box<dyn VariantMatcher + Send + Sync>) -> anyhow::Result<String> { self.0.borrow_mut().push(v.clone()); if v == "no" { Err(anyhow::anyhow!("no value")) } else { Ok(format!("<{}>", v)) } } }
fn json_cases(c: &mut Ctx, r: &mut Rng) {
  let v = doc(r, 4); let t = path(r, &v); let d = dp(&t); let sel = select(&v, &t);
  c.case("selected", format!("{} {:?} in {}", d, t, v), || {
    let mut got = resolve_path(&v, &d); let mut want: Vec<String> = if t.is_empty() { vec![] } else { sel.iter().map(|p| pointer(p)).collect() }; got.sort(); want.sort(); eqv!(got, want, "pointers");
    for p in &got { ens!(v.pointer(p).is_some(), "pointer {} does not point at a value", p); } Ok(!want.is_empty()) });
  c.case("applied", format!("{} {:?} to {}", d, t, v), || {
    let mut h = JsonHandler { value: v.clone() }; let g = Probe(RefCell::new(vec![])); h.apply_key(&d, &g, &HashMap::new(), &NoopVariantMatcher.boxed());
    eqv!(h.value, change(&v, &sel, &mut vec![], &probe), "document"); eqv!(g.0.borrow().len(), sel.len(), "values generated"); Ok(!sel.is_empty()) });
}
/// a generator with a known value, and the value
fn fixed(r: &mut Rng) -> (Generator, Value) { match r.below(6) { 0 | 1 => { let n = r.below(100) as i32; (Generator::RandomInt(n, n), json!(n)) } 2 => (Generator::ProviderStateGenerator("${a}".into(), None), json!("from state")), 3 => (Generator::ProviderStateGenerator("b".into(), None), json!({"p": [1]})), 4 => (Generator::ProviderStateGenerator("none".into(), None), Value::Null), _ => (Generator::MockServerURL("http://a/b".into(), ".*(/b)$".into()), json!("http://mock/b")) } }
fn works(g: &Generator, m: &GeneratorTestMode) -> bool { match g { Generator::ProviderStateGenerator(..) => *m == GeneratorTestMode::Provider, Generator::MockServerURL(..) => *m == GeneratorTestMode::Consumer, _ => true } }
fn mode(r: &mut Rng) -> GeneratorTestMode { if r.chance(1, 2) { GeneratorTestMode::Provider } else { GeneratorTestMode::Consumer } }
fn context() -> HashMap<&'static str, Value> { let mut m = HashMap::new(); m.insert("a", json!("from state")); m.insert("b", json!({"p": [1]})); m.insert("mockServer", json!({"url": "http://mock", "href": "http://mock"})); m }
fn body(c: &mut Ctx, r: &mut Rng) {
  let mut m = Map::new(); for _ in 0..1 + r.below(4) { m.insert(name(r), doc(r, 3)); } let v = Value::Object(m); let md = mode(r);
  // paths below different fields do not meet, so their order does not matter
  let mut gens = HashMap::new(); let mut want = v.clone(); let mut n = 0; let mut ds = vec![];
  for (k, c) in v.as_object().unwrap() { if r.chance(3, 4) { let mut t = vec![PathToken::Field(k.clone())]; t.extend(path(r, c)); let (g, w) = fixed(r); let d = dp(&t); ds.push(format!("{}: {:?}", d, g));
    if works(&g, &md) { let s = select(&v, &t); n += s.len(); want = change(&want, &s, &mut vec![], &|v| match g { Generator::ProviderStateGenerator(ref e, _) if e == "none" => None, Generator::RandomInt(n, _) if v.is_string() => Some(json!(n.to_string())), _ => Some(w.clone()) }); } gens.insert(d, g); } }
  c.case("body", format!("{:?} [{}] to {}", md, ds.join(", "), v), || {
    let mut h = JsonHandler { value: v.clone() }; let b = h.process_body(&gens, &md, &context(), &NoopVariantMatcher.boxed()).map_err(|e| e.to_string())?;
    match &b { OptionalBody::Present(b, ct, _) => { eqv!(serde_json::from_slice::<Value>(b).map_err(|e| e.to_string())?, want, "body"); eqv!(ct.as_ref().map(|c| c.to_string()), Some("application/json".to_string()), "content type") } o => return Err(format!("body {:?}", o)) } Ok(n > 0) });
  c.case("apply", format!("{:?} [{}]", md, ds.join(", ")), || {
    let mut got = vec![]; apply_generators(&md, &gens, &mut |k: &DocPath, g: &Generator| got.push(format!("{} {:?}", k, g))); got.sort();
    let mut want: Vec<String> = gens.iter().filter(|(_, g)| works(g, &md)).map(|(k, g)| format!("{} {:?}", k, g)).collect(); want.sort(); eqv!(got, want, "generators applied"); Ok(!want.is_empty()) });
}
fn unquote(s: &str) -> String { let mut o = vec![]; let b = s.as_bytes(); let mut i = 0; while i < b.len() { match b[i] { b'+' => o.push(b' '), b'%' => { o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap()); i += 2 } x => o.push(x) } i += 1; } String::from_utf8(o).unwrap() }
fn form(c: &mut Ctx, r: &mut Rng) {
  let names: Vec<String> = (0..2).map(|_| { let n = name(r); if n.is_empty() { "a".into() } else { n } }).collect();
  let params: Vec<(String, String)> = (0..r.below(6)).map(|_| (r.pick(&names).clone(), if r.chance(1, 6) { "no".into() } else { name(r) })).collect();
  let k = if r.chance(5, 6) { r.pick(&names).clone() } else { name(r) }; if k.is_empty() { return; }
  let mut t = vec![PathToken::Field(k.clone())]; let ix = r.below(3); match r.below(5) { 0 | 1 => (), 2 | 3 => t.push(PathToken::Index(ix)), _ => t.push(PathToken::Field("x".into())) }
  // the parameter of that name, the first one if no index is given
  let sel = match t.len() { 1 => params.iter().position(|p| p.0 == k), _ => match t[1] { PathToken::Index(i) => params.iter().enumerate().filter(|(_, p)| p.0 == k).nth(i).map(|x| x.0), _ => None } };
  let d = dp(&t);
  c.case("form", format!("{} {:?} to {:?}", d, t, params), || {
    let mut h = FormUrlEncodedHandler { params: params.clone() }; let g = Probe(RefCell::new(vec![])); h.apply_key(&d, &g, &HashMap::new(), &NoopVariantMatcher.boxed());
    let mut want = params.clone(); if let Some(i) = sel { if want[i].1 != "no" { want[i].1 = format!("<{}>", want[i].1); } } eqv!(h.params, want, "parameters"); eqv!(g.0.borrow().len(), if sel.is_some() { 1 } else { 0 }, "values generated"); Ok(sel.is_some()) });
  let n = r.below(100) as i32; let g = if r.chance(2, 3) { Generator::RandomInt(n, n) } else { Generator::ProviderStateGenerator("a".into(), None) }; let md = mode(r);
  c.case("form body", format!("{:?} {} {:?} to {:?}", md, d, g, params), || {
    let mut h = FormUrlEncodedHandler { params: params.clone() }; let mut gens = HashMap::new(); gens.insert(d.clone(), g.clone()); let b = h.process_body(&gens, &md, &context(), &NoopVariantMatcher.boxed()).map_err(|e| e.to_string())?;
    let mut want = params.clone(); if let Some(i) = sel { if works(&g, &md) { want[i].1 = if let Generator::RandomInt(..) = g { n.to_string() } else { "from state".into() }; } }
    match &b { OptionalBody::Present(b, ct, _) => { let s = String::from_utf8(b.to_vec()).map_err(|e| e.to_string())?; let got: Vec<(String, String)> = s.split('&').filter(|s| !s.is_empty()).map(|p| { let (a, b) = p.split_once('=').unwrap_or((p, "")); (unquote(a), unquote(b)) }).collect(); eqv!(got, want, "body"); eqv!(ct.as_ref().map(|c| c.to_string()), Some("application/x-www-form-urlencoded".to_string()), "content type") } o => return Err(format!("body {:?}", o)) } Ok(sel.is_some()) });
}
pub fn c18(c: &mut Ctx) {
  let mut r = c.rng(18);
  for i in 0..c.n(6000) { json_cases(c, &mut r); if i % 2 == 0 { body(c, &mut r); } form(c, &mut r); if c.stop() { return; } }
}
