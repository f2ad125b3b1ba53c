//! C11 equality, hashing and the keys of interactions
use crate::fw::*;
use crate::gen;
use bytes::Bytes;
use pact_models::bodies::OptionalBody;
use pact_models::content_types::{ContentType, ContentTypeHint};
use pact_models::generators::{Generator, GeneratorCategory, Generators};
use pact_models::matchingrules::{Category, MatchingRule, MatchingRuleCategory, MatchingRules, RuleList, RuleLogic};
use pact_models::path_exp::DocPath;
use pact_models::provider_states::ProviderState;
use pact_models::request::Request;
use pact_models::response::Response;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::v4::interaction::{InteractionMarkup, V4Interaction};
use pact_models::v4::message_parts::MessageContents;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::hash::Hash;

pub const GCATS: [GeneratorCategory; 7] = [GeneratorCategory::METHOD, GeneratorCategory::PATH, GeneratorCategory::HEADER, GeneratorCategory::QUERY, GeneratorCategory::BODY, GeneratorCategory::STATUS, GeneratorCategory::METADATA];
pub fn map<V>(r: &mut Rng, mut k: impl FnMut(&mut Rng) -> String, mut f: impl FnMut(&mut Rng) -> V) -> HashMap<String, V> { let n = r.below(4); (0..n).map(|_| { let key = k(r); (key, f(r)) }).collect() }
pub fn some_text(r: &mut Rng) -> String { if r.chance(1, 2) { gen::word(r) } else { gen::text(r) } }
pub fn num_json(r: &mut Rng) -> Value { match r.below(9) { 0 => json!(0.0), 1 => json!(-0.0), 2 => json!(0), 3 => json!(1), 4 => json!(1.0), 5 => json!(u64::MAX), 6 => json!(i64::MIN), 7 => json!(1e300), _ => json!(-7) } }
pub fn jval(r: &mut Rng) -> Value { match r.below(4) { 0 => num_json(r), 1 => json!([num_json(r), { "a": num_json(r), "b": [gen::json(r, 1)] }]), _ => gen::json(r, 2) } }
pub fn state(r: &mut Rng) -> ProviderState { ProviderState { name: some_text(r), params: map(r, some_text, jval) } }
pub fn states(r: &mut Rng) -> Vec<ProviderState> { let n = r.below(3); (0..n).map(|_| state(r)).collect() }
pub fn bytes(r: &mut Rng) -> Bytes { match r.below(4) { 0 => Bytes::from(gen::json(r, 2).to_string()), 1 => { let n = r.below(8); Bytes::from((0..n).map(|_| r.below(256) as u8).collect::<Vec<_>>()) } _ => Bytes::from(some_text(r)) } }
pub fn ctype(r: &mut Rng) -> ContentType { ContentType { main_type: r.pick(&["application", "text", "image"]).to_string(), sub_type: r.pick(&["json", "plain", "xml", "x"]).to_string(), attributes: if r.chance(1, 3) { [("charset".to_string(), "UTF-8".to_string())].into() } else { Default::default() }, suffix: if r.chance(1, 4) { Some("json".into()) } else { None } } }
pub fn body(r: &mut Rng) -> OptionalBody { match r.below(6) { 0 => OptionalBody::Missing, 1 => OptionalBody::Empty, 2 => OptionalBody::Null, _ => OptionalBody::Present(bytes(r), gen::opt(r, ctype), gen::opt(r, |r| r.pick(&[ContentTypeHint::BINARY, ContentTypeHint::TEXT, ContentTypeHint::DEFAULT]).clone())) } }
pub fn query(r: &mut Rng) -> Option<HashMap<String, Vec<Option<String>>>> { gen::opt(r, |r| map(r, some_text, |r| { let n = 1 + r.below(3); (0..n).map(|_| gen::opt(r, some_text)).collect() })) }
pub fn headers(r: &mut Rng) -> Option<HashMap<String, Vec<String>>> { gen::opt(r, |r| map(r, |r| if r.chance(1, 3) { r.pick(&["X-A", "x-a", "Content-Type", "Ä", "b"]).to_string() } else { gen::word(r) }, |r| { let n = 1 + r.below(2); (0..n).map(|_| some_text(r)).collect() })) }
pub fn mrules(r: &mut Rng) -> MatchingRules { let mut m = MatchingRules::default(); for _ in 0..r.below(3) { let n = r.pick(&gen::CATS).clone(); let mut c = gen::category(r, n.clone(), 1); if r.chance(1, 5) { c.rules.clear(); } if r.chance(1, 5) { for l in c.rules.values_mut() { l.cascaded = true; } } m.rules.insert(n, c); } m }
pub fn mgens(r: &mut Rng) -> Generators { let mut g = Generators::default(); for _ in 0..r.below(3) { let n = r.below(3); let m: HashMap<DocPath, Generator> = (0..n).map(|_| (gen::path(r, 2), gen::generator(r, 1))).collect(); g.categories.insert(r.pick(&GCATS).clone(), m); } g }
pub fn hreq(r: &mut Rng) -> HttpRequest { HttpRequest { method: r.pick(&["GET", "get", "Post", "ß", ""]).to_string(), path: some_text(r), query: query(r), headers: headers(r), body: body(r), matching_rules: mrules(r), generators: mgens(r) } }
pub fn hres(r: &mut Rng) -> HttpResponse { HttpResponse { status: *r.pick(&[200, 0, 65535, 404]), headers: headers(r), body: body(r), matching_rules: mrules(r), generators: mgens(r) } }
pub fn req(r: &mut Rng) -> Request { let q = hreq(r); Request { method: q.method, path: q.path, query: q.query, headers: q.headers, body: q.body, matching_rules: q.matching_rules, generators: q.generators } }
pub fn res(r: &mut Rng) -> Response { let q = hres(r); Response { status: q.status, headers: q.headers, body: q.body, matching_rules: q.matching_rules, generators: q.generators } }
pub fn msg(r: &mut Rng) -> MessageContents { MessageContents { contents: body(r), metadata: map(r, some_text, jval), matching_rules: mrules(r), generators: mgens(r) } }
pub fn jmap(r: &mut Rng) -> HashMap<String, Value> { map(r, some_text, |r| gen::json(r, 1)) }
pub fn pconf(r: &mut Rng) -> HashMap<String, HashMap<String, Value>> { map(r, some_text, jmap) }
pub fn markup(r: &mut Rng) -> InteractionMarkup { if r.chance(1, 2) { InteractionMarkup::default() } else { InteractionMarkup { markup: some_text(r), markup_type: r.pick(&["COMMON_MARK", "HTML"]).to_string() } } }
pub fn http(r: &mut Rng) -> SynchronousHttp { SynchronousHttp { id: gen::opt(r, some_text), key: gen::opt(r, some_text), description: some_text(r), provider_states: states(r), request: hreq(r), response: hres(r), comments: jmap(r), pending: r.chance(1, 4), plugin_config: pconf(r), interaction_markup: markup(r), transport: gen::opt(r, some_text) } }
pub fn sync(r: &mut Rng) -> SynchronousMessage { let n = r.below(3); SynchronousMessage { id: gen::opt(r, some_text), key: gen::opt(r, some_text), description: some_text(r), provider_states: states(r), comments: jmap(r), request: msg(r), response: (0..n).map(|_| msg(r)).collect(), pending: r.chance(1, 4), plugin_config: pconf(r), interaction_markup: markup(r), transport: gen::opt(r, some_text) } }
pub fn asyn(r: &mut Rng) -> AsynchronousMessage { AsynchronousMessage { id: gen::opt(r, some_text), key: gen::opt(r, some_text), description: some_text(r), provider_states: states(r), contents: msg(r), comments: jmap(r), pending: r.chance(1, 4), plugin_config: pconf(r), interaction_markup: markup(r), transport: gen::opt(r, some_text) } }

/// the printed form of everything a value is compared by
pub trait Same: Clone { fn canon(&self) -> String; fn rebuilt(&self) -> Self; fn mutate(&mut self, r: &mut Rng); }
pub fn remap<K: Clone + Hash + Eq, V: Clone>(m: &HashMap<K, V>, f: impl Fn(&V) -> V) -> HashMap<K, V> { let mut v: Vec<_> = m.iter().collect(); v.reverse(); let mut o = HashMap::with_capacity(1 + v.len() * 3); for (k, x) in v { o.insert(k.clone(), f(x)); } o }
pub fn cmap<K, V>(m: &HashMap<K, V>, k: impl Fn(&K) -> String, f: impl Fn(&V) -> String) -> String { let mut v: Vec<String> = m.iter().map(|(a, b)| format!("{}: {}", k(a), f(b))).collect(); v.sort(); format!("{{{}}}", v.join(", ")) }
pub fn cj(v: &Value) -> String { match v { Value::Number(n) if n.is_f64() => format!("{:?}", n.as_f64().unwrap() + 0.0), Value::Array(a) => format!("[{}]", a.iter().map(cj).collect::<Vec<_>>().join(", ")), Value::Object(o) => { let mut v: Vec<String> = o.iter().map(|(k, x)| format!("{:?}: {}", k, cj(x))).collect(); v.sort(); format!("{{{}}}", v.join(", ")) } v => format!("{:?}", v) } }
fn rj(v: &Value) -> Value { match v { Value::Number(n) if n.as_f64() == Some(0.0) && n.is_f64() => json!(if n.to_string().starts_with('-') { 0.0 } else { -0.0 }), Value::Array(a) => Value::Array(a.iter().map(rj).collect()), Value::Object(o) => { let mut v: Vec<_> = o.iter().collect(); v.reverse(); Value::Object(v.into_iter().map(|(k, x)| (k.clone(), rj(x))).collect()) } v => v.clone() } }
fn rg(g: &Generator) -> Generator { match g { Generator::ArrayContains(v) => Generator::ArrayContains(rv(v)), g => g.clone() } }
fn rv(v: &[(usize, MatchingRuleCategory, HashMap<DocPath, Generator>)]) -> Vec<(usize, MatchingRuleCategory, HashMap<DocPath, Generator>)> { v.iter().map(|(i, c, g)| (*i, c.rebuilt(), remap(g, rg))).collect() }
fn rr(m: &MatchingRule) -> MatchingRule { match m { MatchingRule::ArrayContains(v) => MatchingRule::ArrayContains(rv(v)), m => m.clone() } }
fn scramble(r: &mut Rng, s: &mut String) { *s = if r.chance(1, 2) { format!("{}x", s) } else { r.perturb(s) } }
fn mut_map<V>(r: &mut Rng, m: &mut HashMap<String, V>, f: impl FnOnce(&mut Rng) -> V, g: impl FnOnce(&mut Rng, &mut V)) { let mut ks: Vec<String> = m.keys().cloned().collect(); ks.sort(); if ks.is_empty() || r.chance(1, 3) { let k = some_text(r); m.insert(k, f(r)); } else { let k = r.pick(&ks).clone(); match r.below(3) { 0 => { m.remove(&k); } 1 => { let v = m.remove(&k).unwrap(); m.insert(format!("{}y", k), v); } _ => g(r, m.get_mut(&k).unwrap()) } } }
impl Same for DocPath { fn canon(&self) -> String { format!("{:?}", self.to_string()) } fn rebuilt(&self) -> Self { DocPath::new(self.to_string()).unwrap_or_else(|_| self.clone()) } fn mutate(&mut self, r: &mut Rng) { *self = gen::path(r, 3) } }
impl Same for MatchingRule { fn canon(&self) -> String { gen::canon(&strip_rule(self)) } fn rebuilt(&self) -> Self { rr(self) }
  fn mutate(&mut self, r: &mut Rng) { match self { MatchingRule::Regex(s) | MatchingRule::Timestamp(s) | MatchingRule::Time(s) | MatchingRule::Date(s) | MatchingRule::Include(s) | MatchingRule::ContentType(s) if r.chance(1, 2) => { if r.chance(1, 2) { scramble(r, s) } else { let s = s.clone(); *self = match r.below(4) { 0 => MatchingRule::Regex(s), 1 => MatchingRule::Date(s), 2 => MatchingRule::Time(s), _ => MatchingRule::Timestamp(s) } } }
    MatchingRule::MinType(n) | MatchingRule::MaxType(n) if r.chance(1, 2) => { if r.chance(1, 2) { *n = n.wrapping_add(1) } else { *self = MatchingRule::MaxType(*n) } } MatchingRule::MinMaxType(a, b) => { if r.chance(1, 2) { std::mem::swap(a, b) } else if r.chance(1, 2) { *a = a.wrapping_add(1) } else { *b = b.wrapping_sub(1) } }
    MatchingRule::ArrayContains(v) if !v.is_empty() && r.chance(3, 4) => { let i = r.below(v.len()); match r.below(3) { 0 => v[i].0 = v[i].0.wrapping_add(1), 1 => v[i].1.mutate(r), _ => { let (p, g) = (gen::path(r, 2), gen::generator(r, 0)); v[i].2.insert(p, g); } } }
    MatchingRule::EachKey(d) if r.chance(1, 4) => *self = MatchingRule::EachValue(d.clone()),
    MatchingRule::EachKey(d) | MatchingRule::EachValue(d) if r.chance(3, 4) => { match r.below(5) { 0 => scramble(r, &mut d.value), 1 => d.value_type = gen::value_type(r), 2 => { let x = gen::rule(r, 0); d.rules.push(either::Either::Left(x)); } 3 => d.generator = gen::opt(r, |r| gen::generator(r, 0)), _ => scramble(r, &mut d.expression) } }
    _ => *self = gen::rule(r, 1) } } }
/// `cascaded` is not compared
fn strip_list(l: &RuleList) -> RuleList { RuleList { rules: l.rules.iter().map(strip_rule).collect(), rule_logic: l.rule_logic, cascaded: false } }
fn strip_cat(c: &MatchingRuleCategory) -> MatchingRuleCategory { MatchingRuleCategory { name: c.name.clone(), rules: c.rules.iter().map(|(k, v)| (k.clone(), strip_list(v))).collect() } }
fn strip_rule(m: &MatchingRule) -> MatchingRule { match m { MatchingRule::ArrayContains(v) => MatchingRule::ArrayContains(strip_vars(v)), m => m.clone() } }
fn strip_vars(v: &[(usize, MatchingRuleCategory, HashMap<DocPath, Generator>)]) -> Vec<(usize, MatchingRuleCategory, HashMap<DocPath, Generator>)> { v.iter().map(|(i, c, g)| (*i, strip_cat(c), g.iter().map(|(k, g)| (k.clone(), strip_gen(g))).collect())).collect() }
fn strip_gen(g: &Generator) -> Generator { match g { Generator::ArrayContains(v) => Generator::ArrayContains(strip_vars(v)), g => g.clone() } }
impl Same for Generator { fn canon(&self) -> String { gen::canon_gen(&strip_gen(self)) } fn rebuilt(&self) -> Self { rg(self) }
  fn mutate(&mut self, r: &mut Rng) { match self { Generator::RandomInt(a, b) => if r.chance(1, 2) { std::mem::swap(a, b) } else { *b = b.wrapping_add(1) }, Generator::Regex(s) => scramble(r, s),
    Generator::Date(a, b) if r.chance(1, 3) => *self = Generator::Time(a.clone(), b.clone()), Generator::Date(a, b) | Generator::Time(a, b) | Generator::DateTime(a, b) => match r.below(3) { 0 => std::mem::swap(a, b), 1 => *a = gen::opt(r, some_text), _ => *b = gen::opt(r, some_text) },
    Generator::MockServerURL(a, b) => match r.below(3) { 0 => std::mem::swap(a, b), 1 => scramble(r, a), _ => scramble(r, b) }, Generator::ProviderStateGenerator(s, d) => if r.chance(1, 2) { scramble(r, s) } else { *d = gen::opt(r, gen::data_type) },
    Generator::RandomDecimal(n) => if r.chance(1, 2) { *self = Generator::RandomHexadecimal(*n) } else { *n = n.wrapping_add(1) }, Generator::RandomString(n) | Generator::RandomHexadecimal(n) => *n = n.wrapping_add(256),
    Generator::ArrayContains(v) if !v.is_empty() && r.chance(3, 4) => { let i = r.below(v.len()); match r.below(3) { 0 => v[i].0 = v[i].0.wrapping_add(1), 1 => v[i].1.mutate(r), _ => { let (p, g) = (gen::path(r, 2), gen::generator(r, 0)); v[i].2.insert(p, g); } } }
    _ => *self = gen::generator(r, 1) } } }
impl Same for RuleList { fn canon(&self) -> String { gen::canon_list(&strip_list(self)) } fn rebuilt(&self) -> Self { RuleList { rules: self.rules.iter().map(rr).collect(), rule_logic: self.rule_logic, cascaded: !self.cascaded } }
  fn mutate(&mut self, r: &mut Rng) { match r.below(4) { 0 => self.rule_logic = if self.rule_logic == RuleLogic::And { RuleLogic::Or } else { RuleLogic::And }, 1 => { self.rules.pop(); } 2 if self.rules.len() > 1 => self.rules.swap(0, 1), _ => { if self.rules.is_empty() { let x = gen::rule(r, 1); self.rules.push(x) } else { let i = r.below(self.rules.len()); self.rules[i].mutate(r) } } } } }
impl Same for MatchingRuleCategory { fn canon(&self) -> String { let mut v: Vec<String> = self.rules.iter().map(|(k, l)| format!("{} => {}", k.canon(), l.canon())).collect(); v.sort(); format!("{:?}{:?}", self.name, v) } fn rebuilt(&self) -> Self { MatchingRuleCategory { name: self.name.clone(), rules: remap(&self.rules, |l| l.rebuilt()) } }
  fn mutate(&mut self, r: &mut Rng) { let mut ks: Vec<DocPath> = self.rules.keys().cloned().collect(); ks.sort(); match r.below(4) { 0 => self.name = r.pick(&gen::CATS).clone(), 1 if !ks.is_empty() => { let k = r.pick(&ks); self.rules.get_mut(k).unwrap().mutate(r) } 2 if !ks.is_empty() => { let k = r.pick(&ks); self.rules.remove(k); } _ => { let (p, l) = (gen::path(r, 2), gen::rules(r, 0)); self.rules.insert(p, l); } } } }
impl Same for MatchingRules { fn canon(&self) -> String { let mut v: Vec<String> = self.rules.iter().filter(|(_, c)| !c.rules.is_empty()).map(|(k, c)| format!("{:?} => {}", k, c.canon())).collect(); v.sort(); format!("{:?}", v) }
  fn rebuilt(&self) -> Self { let mut m = MatchingRules { rules: remap(&self.rules, |c| c.rebuilt()) }; for n in gen::CATS { if !m.rules.contains_key(&n) && self.rules.len() % 2 == 0 { m.rules.insert(n.clone(), MatchingRuleCategory::empty(n)); } else if m.rules.get(&n).map_or(false, |c| c.rules.is_empty()) { m.rules.remove(&n); } } m }
  fn mutate(&mut self, r: &mut Rng) { let mut ks: Vec<Category> = self.rules.keys().cloned().collect(); ks.sort(); if ks.is_empty() || r.chance(1, 3) { let n = r.pick(&gen::CATS).clone(); let c = gen::category(r, n.clone(), 1); self.rules.insert(n, c); } else { let k = r.pick(&ks).clone(); let c = self.rules.get_mut(&k).unwrap(); c.mutate(r); c.name = k; } } }
impl Same for Generators { fn canon(&self) -> String { let mut v: Vec<String> = self.categories.iter().filter(|(_, c)| !c.is_empty()).map(|(k, c)| format!("{:?} => {}", k, cmap(c, |p| p.canon(), |g| g.canon()))).collect(); v.sort(); format!("{:?}", v) }
  fn rebuilt(&self) -> Self { let mut g = Generators { categories: remap(&self.categories, |m| remap(m, rg)) }; for n in GCATS { if !g.categories.contains_key(&n) && self.categories.len() % 2 == 0 { g.categories.insert(n, HashMap::new()); } else if g.categories.get(&n).map_or(false, |c| c.is_empty()) { g.categories.remove(&n); } } g }
  fn mutate(&mut self, r: &mut Rng) { let mut ks: Vec<GeneratorCategory> = self.categories.keys().cloned().collect(); ks.sort(); if ks.is_empty() || r.chance(1, 3) { let (p, g) = (gen::path(r, 2), gen::generator(r, 0)); self.categories.insert(r.pick(&GCATS).clone(), HashMap::from([(p, g)])); } else { let k = r.pick(&ks).clone(); let m = self.categories.get_mut(&k).unwrap(); let mut ps: Vec<DocPath> = m.keys().cloned().collect(); ps.sort(); if ps.is_empty() { let (p, g) = (gen::path(r, 2), gen::generator(r, 0)); m.insert(p, g); } else { let p = r.pick(&ps).clone(); if r.chance(1, 2) { m.get_mut(&p).unwrap().mutate(r) } else { m.remove(&p); } } } } }
impl Same for ProviderState { fn canon(&self) -> String { format!("{:?} {}", self.name, cmap(&self.params, |k| format!("{:?}", k), cj)) } fn rebuilt(&self) -> Self { ProviderState { name: self.name.clone(), params: remap(&self.params, rj) } } fn mutate(&mut self, r: &mut Rng) { if r.chance(1, 3) { scramble(r, &mut self.name) } else { mut_map(r, &mut self.params, jval, |r, v| *v = jval(r)) } } }
impl Same for OptionalBody { fn canon(&self) -> String { match self { OptionalBody::Missing => "Missing".into(), OptionalBody::Empty => "Empty".into(), OptionalBody::Null => "Null".into(), OptionalBody::Present(b, _, _) => format!("{:?}", &b[..]) } } fn rebuilt(&self) -> Self { match self { OptionalBody::Present(b, c, h) => OptionalBody::Present(Bytes::from(b.to_vec()), if c.is_some() { None } else { Some(ContentType::from("text/plain")) }, h.clone()), b => b.clone() } }
  fn mutate(&mut self, r: &mut Rng) { match self { OptionalBody::Present(b, c, h) if r.chance(2, 3) => { let mut v = b.to_vec(); if v.is_empty() || r.chance(1, 3) { v.push(0) } else { let i = r.below(v.len()); v[i] ^= 1 << r.below(8); } *self = OptionalBody::Present(v.into(), c.clone(), h.clone()) } _ => *self = match r.below(4) { 0 => OptionalBody::Missing, 1 => OptionalBody::Empty, 2 => OptionalBody::Null, _ => OptionalBody::Present(Bytes::new(), None, None) } } } }
type Q = Option<HashMap<String, Vec<Option<String>>>>; type H = Option<HashMap<String, Vec<String>>>;
fn cq(q: &Q) -> String { match q { None => "-".into(), Some(m) => cmap(m, |k| format!("{:?}", k), |v| format!("{:?}", v)) } }
fn ch(q: &H) -> String { match q { None => "-".into(), Some(m) => cmap(m, |k| format!("{:?}", k), |v| format!("{:?}", v)) } }
fn mut_q(r: &mut Rng, q: &mut Q) { match q { None => *q = Some(HashMap::new()), Some(m) => if r.chance(1, 5) { *q = None } else { mut_map(r, m, |r| vec![gen::opt(r, some_text)], |r, v| match r.below(3) { 0 => v.push(None), 1 => v.reverse(), _ => { let i = r.below(v.len()); v[i] = if v[i].is_none() { Some(String::new()) } else { None } } }) } } }
fn mut_h(r: &mut Rng, q: &mut H) { match q { None => *q = Some(HashMap::new()), Some(m) => if r.chance(1, 5) { *q = None } else { mut_map(r, m, |r| vec![some_text(r)], |r, v| match r.below(3) { 0 => v.push(String::new()), 1 => v.reverse(), _ => { let i = r.below(v.len()); scramble(r, &mut v[i]) } }) } } }
fn rq<V: Clone>(q: &Option<HashMap<String, V>>) -> Option<HashMap<String, V>> { q.as_ref().map(|m| remap(m, |v| v.clone())) }
macro_rules! req_same { ($t:ident, $up:expr) => { impl Same for $t {
  fn canon(&self) -> String { let m = if $up { self.method.to_uppercase() } else { self.method.clone() }; format!("{:?} {:?} query {} headers {} body {} rules {} generators {}", m, self.path, cq(&self.query), ch(&self.headers), self.body.canon(), self.matching_rules.canon(), self.generators.canon()) }
  fn rebuilt(&self) -> Self { $t { method: if $up && self.method.is_ascii() { self.method.to_lowercase() } else { self.method.clone() }, path: self.path.clone(), query: rq(&self.query), headers: rq(&self.headers), body: self.body.rebuilt(), matching_rules: self.matching_rules.rebuilt(), generators: self.generators.rebuilt() } }
  fn mutate(&mut self, r: &mut Rng) { match r.below(7) { 0 => scramble(r, &mut self.method), 1 => scramble(r, &mut self.path), 2 => mut_q(r, &mut self.query), 3 => mut_h(r, &mut self.headers), 4 => self.body.mutate(r), 5 => self.matching_rules.mutate(r), _ => self.generators.mutate(r) } }
} } }
req_same!(HttpRequest, true); req_same!(Request, false);
macro_rules! res_same { ($t:ident) => { impl Same for $t {
  fn canon(&self) -> String { format!("{} headers {} body {} rules {} generators {}", self.status, ch(&self.headers), self.body.canon(), self.matching_rules.canon(), self.generators.canon()) }
  fn rebuilt(&self) -> Self { $t { status: self.status, headers: rq(&self.headers), body: self.body.rebuilt(), matching_rules: self.matching_rules.rebuilt(), generators: self.generators.rebuilt() } }
  fn mutate(&mut self, r: &mut Rng) { match r.below(5) { 0 => self.status = self.status.wrapping_add(256), 1 => mut_h(r, &mut self.headers), 2 => self.body.mutate(r), 3 => self.matching_rules.mutate(r), _ => self.generators.mutate(r) } }
} } }
res_same!(HttpResponse); res_same!(Response);
impl Same for MessageContents { fn canon(&self) -> String { format!("{} metadata {} rules {} generators {}", self.contents.canon(), cmap(&self.metadata, |k| format!("{:?}", k), cj), self.matching_rules.canon(), self.generators.canon()) }
  fn rebuilt(&self) -> Self { MessageContents { contents: self.contents.rebuilt(), metadata: remap(&self.metadata, rj), matching_rules: self.matching_rules.rebuilt(), generators: self.generators.rebuilt() } }
  fn mutate(&mut self, r: &mut Rng) { match r.below(4) { 0 => self.contents.mutate(r), 1 => mut_map(r, &mut self.metadata, jval, |r, v| *v = jval(r)), 2 => self.matching_rules.mutate(r), _ => self.generators.mutate(r) } } }
fn cl<T: Same>(v: &[T]) -> String { format!("[{}]", v.iter().map(|x| x.canon()).collect::<Vec<_>>().join("; ")) }
fn rl<T: Same>(v: &[T]) -> Vec<T> { v.iter().map(|x| x.rebuilt()).collect() }
fn ml<T: Same>(r: &mut Rng, v: &mut Vec<T>, f: impl FnOnce(&mut Rng) -> T) { if v.is_empty() || r.chance(1, 4) { let x = f(r); v.push(x) } else { match r.below(3) { 0 => { v.pop(); } 1 => v.reverse(), _ => { let i = r.below(v.len()); v[i].mutate(r) } } } }
/// what is not compared: id, comments, plugin configuration, markup, transport
macro_rules! inter { ($t:ident, $($f:ident $c:expr, $r:expr, $m:expr);*) => { impl Same for $t {
  fn canon(&self) -> String { let mut o = format!("{:?} {:?} {} {}", self.key, self.description, cl(&self.provider_states), self.pending); $( o += &format!(" {} {}", stringify!($f), ($c)(&self.$f)); )* o }
  fn rebuilt(&self) -> Self { let mut o = self.clone(); o.provider_states = rl(&self.provider_states); $( o.$f = ($r)(&self.$f); )* o.id = Some("other".into()); o.comments.clear(); o.plugin_config.clear(); o.transport = None; o.interaction_markup = InteractionMarkup::default(); o }
  fn mutate(&mut self, r: &mut Rng) { match r.below(6) { 0 => self.key = if self.key.is_none() { Some("k".into()) } else { None }, 1 => scramble(r, &mut self.description), 2 => ml(r, &mut self.provider_states, state), 3 => self.pending = !self.pending, _ => { $( if r.chance(1, 2) { ($m)(r, &mut self.$f) } )* } } }
} } }
inter!(SynchronousHttp, request |x: &HttpRequest| x.canon(), |x: &HttpRequest| x.rebuilt(), |r: &mut Rng, x: &mut HttpRequest| x.mutate(r); response |x: &HttpResponse| x.canon(), |x: &HttpResponse| x.rebuilt(), |r: &mut Rng, x: &mut HttpResponse| x.mutate(r));
inter!(SynchronousMessage, request |x: &MessageContents| x.canon(), |x: &MessageContents| x.rebuilt(), |r: &mut Rng, x: &mut MessageContents| x.mutate(r); response |x: &Vec<MessageContents>| cl(x), |x: &Vec<MessageContents>| rl(x), |r: &mut Rng, x: &mut Vec<MessageContents>| ml(r, x, msg));
inter!(AsynchronousMessage, contents |x: &MessageContents| x.canon(), |x: &MessageContents| x.rebuilt(), |r: &mut Rng, x: &mut MessageContents| x.mutate(r));

#[allow(clippy::partialeq_ne_impl)]
fn relate<T: Same + PartialEq + Hash>(a: &T, b: &T, c: &T) -> Result<bool, String> {
  for (x, y) in [(a, a), (a, b), (b, a), (a, c), (c, a), (b, c)] {
    let want = x.canon() == y.canon();
    ens!((x == y) == want, "== is {} for {} and {}", x == y, x.canon(), y.canon());
    ens!((x != y) == !want, "!= is {} for {} and {}", x != y, x.canon(), y.canon());
    if want { ens!(h(x) == h(y), "equal values with different hashes: {} ({:x} and {:x})", x.canon(), h(x), h(y)); }
  }
  ens!(*a == a.clone() && h(a) == h(&a.clone()), "a copy differs: {}", a.canon());
  Ok(a.canon() != c.canon())
}
fn tri<T: Same + PartialEq + Hash>(c: &mut Ctx, r: &mut Rng, kind: &str, f: impl Fn(&mut Rng) -> T) {
  let a = f(r); let b = a.rebuilt(); let mut d = if r.chance(1, 2) { a.clone() } else { b.clone() }; d.mutate(r);
  c.case(kind, format!("{} / {}", a.canon(), d.canon()), || { let e = b.canon(); ens!(e == a.canon(), "harness: {} {}", e, a.canon()); relate(&a, &b, &d) });
  if r.chance(1, 4) { let d = f(r); c.case(kind, format!("{} // {}", a.canon(), d.canon()), || relate(&a, &b, &d)); }
}
fn keys<T: Same + V4Interaction + Hash>(a: &T, d: &T, calc: impl Fn(&T) -> String, with: impl Fn(&T) -> T, set: impl Fn(&T, Option<String>) -> T, hashed: bool) -> Result<bool, String> {
  let k = calc(a);
  ens!(!k.is_empty() && k.bytes().all(|b| b.is_ascii_hexdigit() && !b.is_ascii_uppercase()), "key {:?}", k);
  let b = a.rebuilt(); eqv!(calc(&b), k, "key of an equal interaction");
  let n = set(a, None); eqv!(calc(&n), k, "key without the key set"); eqv!(calc(&set(a, Some("zz".into()))), k, "key with another key set");
  eqv!(n.unique_key(), k, "unique_key without a key"); eqv!(set(a, Some("zz".into())).unique_key(), "zz", "unique_key with a key"); eqv!(set(a, Some("".into())).unique_key(), "", "unique_key with an empty key");
  let w = with(a); eqv!(w.key(), Some(k.clone()), "with_key: key"); eqv!(w.unique_key(), k, "with_key: unique_key"); eqv!(with(&w).key(), Some(k.clone()), "with_key twice"); eqv!(set(&w, None).canon(), n.canon(), "with_key changed something else");
  let bw = n.with_unique_key(); eqv!(bw.unique_key(), k, "with_unique_key"); eqv!(bw.key(), Some(k.clone()), "with_unique_key: key");
  let bw = set(a, Some("zz".into())).with_unique_key(); eqv!(bw.key(), Some(k.clone()), "with_unique_key calculates the key");
  if hashed { ens!(calc(d) != k, "the key is the same for {} and {}", a.canon(), d.canon()); }
  Ok(hashed)
}
/// a change of something the key covers
fn covered<T>(r: &mut Rng, a: &mut T, d: impl Fn(&mut T) -> &mut String, s: impl Fn(&mut T) -> &mut Vec<ProviderState>, p: impl Fn(&mut T) -> &mut bool, o: impl Fn(&mut Rng, &mut T)) {
  match r.below(6) { 0 => *d(a) += "x", 1 => { let v = s(a); v.push(ProviderState { name: "new".into(), params: HashMap::new() }) } 2 => { let v = s(a); if v.is_empty() { v.push(ProviderState { name: "new".into(), params: HashMap::new() }) } else { v[0].params.insert("kk".into(), json!("v")); } } 3 => { let b = p(a); *b = !*b } _ => o(r, a) }
}
fn flip(b: &mut OptionalBody) { *b = match b { OptionalBody::Present(x, c, h) => { let mut v = x.to_vec(); v.push(b'!'); OptionalBody::Present(v.into(), c.clone(), h.clone()) } OptionalBody::Missing => OptionalBody::Empty, OptionalBody::Empty => OptionalBody::Null, OptionalBody::Null => OptionalBody::Missing } }
fn add_rule(m: &mut MatchingRules) { m.add_category("body").add_rule(DocPath::new_unwrap("$.zzz"), MatchingRule::Semver, RuleLogic::And) }
fn add_gen(g: &mut Generators) { g.categories.entry(GeneratorCategory::BODY).or_default().insert(DocPath::new_unwrap("$.zzz"), Generator::RandomString(77)); }
fn cov_req(r: &mut Rng, q: &mut HttpRequest) { match r.below(7) { 0 => q.method += "X", 1 => q.path += "X", 2 => { q.query.get_or_insert_with(HashMap::new).insert("qq".into(), vec![Some("1".into())]); } 3 => { q.headers.get_or_insert_with(HashMap::new).insert("hh".into(), vec!["1".into(), "2".into()]); } 4 => flip(&mut q.body), 5 => add_rule(&mut q.matching_rules), _ => add_gen(&mut q.generators) } }
fn cov_res(r: &mut Rng, q: &mut HttpResponse) { match r.below(5) { 0 => q.status = q.status.wrapping_add(1), 1 => { q.headers.get_or_insert_with(HashMap::new).insert("hh".into(), vec!["1".into(), "2".into()]); } 2 => flip(&mut q.body), 3 => add_rule(&mut q.matching_rules), _ => add_gen(&mut q.generators) } }
fn cov_msg(r: &mut Rng, q: &mut MessageContents) { match r.below(4) { 0 => { q.metadata.insert("mm".into(), json!("1")); } 1 => flip(&mut q.contents), 2 => add_rule(&mut q.matching_rules), _ => add_gen(&mut q.generators) } }
pub fn c11(c: &mut Ctx) {
  let mut r = c.rng(11);
  // numbers in parameters and metadata, each with each
  let nums = [json!(0), json!(0.0), json!(-0.0), json!(1), json!(1.0), json!(-1), json!(-1.0), json!(u64::MAX), json!(i64::MAX), json!(i64::MIN), json!(9007199254740993u64), json!(9007199254740992.0), Value::Null, json!(true), json!(false), json!(""), json!("0"), json!([]), json!([0]), json!([-0.0]), json!([0.0]), json!({}), json!({ "a": -0.0 }), json!({ "a": 0.0 }), json!({ "a": null })];
  for a in &nums { for b in &nums { if c.stop() { return; }
    let mk = |v: &Value| ProviderState { name: "s".into(), params: HashMap::from([("p".to_string(), v.clone())]) }; let (x, y) = (mk(a), mk(b)); c.case("state number", format!("{} {}", a, b), || relate(&x, &x.rebuilt(), &y));
    let mk = |v: &Value| MessageContents { metadata: HashMap::from([("p".to_string(), v.clone())]), ..Default::default() }; let (x, y) = (mk(a), mk(b)); c.case("metadata number", format!("{} {}", a, b), || relate(&x, &x.rebuilt(), &y)); } }
  for _ in 0..c.n(1200) { if c.stop() { return; }
    tri(c, &mut r, "path", |r| gen::path(r, 3)); for _ in 0..4 { tri(c, &mut r, "rule", |r| gen::rule(r, 2)); tri(c, &mut r, "generator", |r| gen::generator(r, 2)); }
    tri(c, &mut r, "rule list", |r| gen::rules(r, 1)); tri(c, &mut r, "rules", mrules); tri(c, &mut r, "generators", mgens);
    tri(c, &mut r, "category", |r| { let n = r.pick(&gen::CATS).clone(); gen::category(r, n, 1) });
    tri(c, &mut r, "state", state); tri(c, &mut r, "body", body); tri(c, &mut r, "http request", hreq); tri(c, &mut r, "http response", hres); tri(c, &mut r, "request", req); tri(c, &mut r, "response", res); tri(c, &mut r, "message", msg);
    tri(c, &mut r, "sync http", http); tri(c, &mut r, "sync message", sync); tri(c, &mut r, "async message", asyn);
    let a = http(&mut r); let mut d = a.clone(); covered(&mut r, &mut d, |x| &mut x.description, |x| &mut x.provider_states, |x| &mut x.pending, |r, x| if r.chance(1, 2) { cov_req(r, &mut x.request) } else { cov_res(r, &mut x.response) });
    let hs = d.canon() != a.canon(); c.case("key http", format!("{} / {}", a.canon(), d.canon()), || keys(&a, &d, |x| SynchronousHttp { key: None, ..x.clone() }.unique_key(), |x| x.with_key(), |x, k| SynchronousHttp { key: k, ..x.clone() }, hs));
    let a = sync(&mut r); let mut d = a.clone(); covered(&mut r, &mut d, |x| &mut x.description, |x| &mut x.provider_states, |x| &mut x.pending, |r, x| if x.response.is_empty() || r.chance(1, 2) { cov_msg(r, &mut x.request) } else { cov_msg(r, &mut x.response[0]) });
    let hs = d.canon() != a.canon(); c.case("key sync", format!("{} / {}", a.canon(), d.canon()), || keys(&a, &d, |x| SynchronousMessage { key: None, ..x.clone() }.unique_key(), |x| x.with_key(), |x, k| SynchronousMessage { key: k, ..x.clone() }, hs));
    let a = asyn(&mut r); let mut d = a.clone(); covered(&mut r, &mut d, |x| &mut x.description, |x| &mut x.provider_states, |x| &mut x.pending, |r, x| cov_msg(r, &mut x.contents));
    let hs = d.canon() != a.canon(); c.case("key async", format!("{} / {}", a.canon(), d.canon()), || keys(&a, &d, |x| AsynchronousMessage { key: None, ..x.clone() }.unique_key(), |x| x.with_key(), |x, k| AsynchronousMessage { key: k, ..x.clone() }, hs));
  }
}
