//! C16 headers, content type and text of requests, responses and messages
use crate::fw::*;
use crate::gen;
use crate::inter::some_text;
use crate::parts::{body, jtext, rt_gens, rt_rules, sb, H};
use bytes::Bytes;
use pact_models::bodies::OptionalBody;
use pact_models::content_types::{detect_content_type_from_string, ContentType, ContentTypeHint};
use pact_models::generators::{Generator, GeneratorCategory, Generators};
use pact_models::http_parts::HttpPart;
use pact_models::matchingrules::{Category, MatchingRule, MatchingRuleCategory, MatchingRules, RuleList};
use pact_models::message::Message;
use pact_models::path_exp::DocPath;
use pact_models::request::Request;
use pact_models::response::Response;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::v4::message_parts::MessageContents;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};

const NAMES: &[&str] = &["Content-Type", "X-A", "x-b", "Accept", "SET-COOKIE", "Date", "", "Ä", "ETag", "X_A", "content-typ", "content-type2"];
const TYPES: &[&str] = &["application/json", "text/plain", "text/html; charset=utf-8", "application/xml", "image/png", "application/hal+json", "", "nonsense", "a/b/c", "application/octet-stream", "application/x-www-form-urlencoded", "image/svg+xml"];
fn recase(r: &mut Rng, s: &str) -> String { match r.below(5) { 0 => s.to_uppercase(), 1 => s.to_lowercase(), 2 => s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(), _ => s.to_string() } }
fn value(r: &mut Rng) -> String { match r.below(4) { 0 => r.pick(TYPES).to_string(), 1 => r.pick(&["", " ", ",", "a, b", "é"]).to_string(), _ => some_text(r) } }
/// header names that differ in more than case
fn headers(r: &mut Rng) -> H { if r.chance(1, 6) { return None } let mut m: HashMap<String, Vec<String>> = HashMap::new();
  for _ in 0..r.below(6) { let n: &str = *r.pick(NAMES); let k = recase(r, n); if m.keys().any(|x| x.to_lowercase() == k.to_lowercase()) { continue } let n = *r.pick(&[0, 1, 1, 1, 2, 3]); m.insert(k, (0..n).map(|_| value(r)).collect()); } Some(m) }
fn name(r: &mut Rng, h: &H) -> String { match h { Some(m) if !m.is_empty() && r.chance(3, 4) => { let mut k: Vec<&String> = m.keys().collect(); k.sort(); let s = (*r.pick(&k)).clone(); let s = if r.chance(1, 10) { r.perturb(&s) } else { s }; recase(r, &s) } _ => { let n: &str = *r.pick(NAMES); recase(r, n) } } }
fn looked(h: &H, n: &str) -> Option<String> { h.as_ref()?.iter().find(|x| x.0.to_lowercase() == n.to_lowercase()).map(|x| x.1.iter().fold(None, |a: Option<String>, v| Some(match a { None => v.clone(), Some(a) => format!("{}, {}", a, v) })).unwrap_or_default()) }
fn sh(h: &H) -> String { match h { None => "none".into(), Some(m) => format!("{:?}", m.iter().collect::<BTreeMap<_, _>>()) } }
fn texty(b: &OptionalBody) -> bool { match b { OptionalBody::Present(_, c, h) => match h { Some(h) => *h == ContentTypeHint::TEXT, None => c.as_ref().map(|c| c.main_type == "text" || (c.main_type == "application" && (c.sub_type == "xml" || c.suffix.as_deref() == Some("xml") || c.sub_type.starts_with("json") || c.sub_type == "graphql" || c.suffix.as_deref() == Some("json") || c.sub_type == "x-www-form-urlencoded"))
  || (c.main_type == "text" && c.sub_type == "xml")).unwrap_or(false) }, _ => false } }
fn utf(b: &OptionalBody) -> Option<String> { match b { OptionalBody::Present(x, _, _) => String::from_utf8(x.to_vec()).ok(), _ => None } }
fn text_of(b: &OptionalBody) -> Option<String> { if texty(b) { utf(b) } else { None } }
fn hex(b: &[u8]) -> String { const D: &[u8] = b"0123456789ABCDEF"; b.iter().flat_map(|x| [D[(x >> 4) as usize] as char, D[(x & 15) as usize] as char]).collect() }
fn shown(b: &OptionalBody) -> String { match b { OptionalBody::Present(x, _, _) => text_of(b).unwrap_or_else(|| if x.len() <= 32 { format!("{} ({} bytes)", hex(x), x.len()) } else { format!("{}... ({} bytes)", hex(&x[..32]), x.len()) }), _ => String::new() } }
fn own(b: &OptionalBody) -> Option<ContentType> { match b { OptionalBody::Present(_, c, _) => c.clone(), _ => None } }
fn detected(b: &OptionalBody) -> Option<ContentType> { match b { OptionalBody::Present(_, _, _) => detect_content_type_from_string(&utf(b).unwrap_or_default()), _ => None } }
fn part_ct(b: &OptionalBody, l: &Option<String>) -> Option<ContentType> { own(b).or_else(|| l.as_ref().and_then(|t| ContentType::parse(t.as_str()).ok())).or_else(|| detected(b)) }
/// a body, now and then a long one, or one without a type
fn some_body(r: &mut Rng) -> OptionalBody { match (body(r), r.below(6)) {
  (OptionalBody::Present(_, c, h), 0) => { let n = *r.pick(&[31, 32, 33, 64, 200]); OptionalBody::Present((0..n).map(|_| r.below(256) as u8).collect::<Vec<u8>>().into(), c, h) }
  (OptionalBody::Present(_, c, h), 1) => OptionalBody::Present(Bytes::from((0..r.below(40)).map(|_| *r.pick(&['a', '\u{7}', '0', 'é', '<', '{'])).collect::<String>()), c, h),
  (b, _) => b } }
fn accessors<P: HttpPart>(p: &mut P, b: &OptionalBody, rules: &MatchingRules, gens: &Generators) -> Result<(), String> {
  eqv!(sb(p.body()), sb(b), "body"); ens!(p.matching_rules() == rules, "matching rules"); ens!(p.generators() == gens, "generators");
  eqv!(sb(p.body_mut()), sb(b), "mutable body"); ens!(p.matching_rules_mut() == rules, "mutable matching rules"); ens!(p.generators_mut() == gens, "mutable generators");
  *p.body_mut() = OptionalBody::from("changed"); eqv!(sb(p.body()), "\"changed\" None None", "body after it was set"); ens!(p.matching_rules() == rules && p.generators() == gens, "rules or generators after the body was set");
  *p.matching_rules_mut() = MatchingRules::default(); ens!(p.matching_rules() == &MatchingRules::default(), "rules after they were set"); ens!(p.generators() == gens, "generators after the rules were set");
  *p.generators_mut() = Generators::default(); ens!(p.generators() == &Generators::default(), "generators after they were set");
  Ok(())
}
fn part<P: HttpPart>(mut p: P, h: &H, b: &OptionalBody, n: &str, add: &(String, Vec<String>), rules: &MatchingRules, gens: &Generators) -> Result<(), String> {
  eqv!(sh(p.headers()), sh(h), "headers"); eqv!(p.lookup_header_value(n), looked(h, n), format!("value of {:?}", n)); eqv!(p.has_header(n), looked(h, n).is_some(), format!("has {:?}", n));
  let l = looked(h, "content-type"); eqv!(p.lookup_content_type(), l, "content type looked up"); eqv!(p.content_type(), part_ct(b, &l), "content type"); eqv!(p.detect_content_type(), detected(b), "detected content type");
  eqv!(p.has_text_body(), text_of(b).map(|t| !t.is_empty() && t.bytes().all(|c| c < 128)).unwrap_or(false), "has a text body");
  p.add_header(&add.0, add.1.iter().map(|s| s.as_str()).collect()); let mut m = h.clone().unwrap_or_default(); m.insert(add.0.clone(), add.1.clone()); let h = Some(m); eqv!(sh(p.headers()), sh(&h), "headers with another"); eqv!(sb(p.body()), sb(b), "body after a header was added");
  eqv!(p.lookup_header_value(n), looked(&h, n), format!("value of {:?} after another was added", n)); p.headers_mut().clear(); eqv!(sh(p.headers()), "{}", "cleared headers");
  accessors(&mut p, b, rules, gens)
}
fn rule_gen(r: &MatchingRule) -> Option<Generator> { match r { MatchingRule::ArrayContains(v) if v.iter().any(|x| !x.2.is_empty()) => Some(Generator::ArrayContains(v.clone())), _ => None } }
/// rules with variants that carry generators
fn gen_rules(r: &mut Rng) -> MatchingRules { let mut m = rt_rules(r);
  for _ in 0..r.below(3) { let c = r.pick(&[Category::BODY, Category::HEADER, Category::METADATA, Category::STATUS, Category::PATH, Category::QUERY, Category::METHOD]).clone(); let mut x = m.rules.remove(&c).unwrap_or_else(|| MatchingRuleCategory::empty(c.clone()));
    for _ in 0..1 + r.below(2) { let p = gen::path(r, 2); let v: Vec<_> = (0..r.below(3)).map(|i| (i, MatchingRuleCategory::empty(Category::BODY), if r.chance(1, 2) { HashMap::new() } else { let mut g = HashMap::new(); g.insert(gen::path(r, 2), gen::generator(r, 0)); g })).collect();
      let l = x.rules.entry(p).or_insert_with(|| RuleList::new(MatchingRule::Type)); l.rules.push(MatchingRule::ArrayContains(v)); if r.chance(1, 3) { l.rules.push(MatchingRule::Equality); } }
    m.rules.insert(c, x); }
  m }
fn cat_of(c: &GeneratorCategory) -> Category { match c { GeneratorCategory::METHOD => Category::METHOD, GeneratorCategory::PATH => Category::PATH, GeneratorCategory::HEADER => Category::HEADER, GeneratorCategory::QUERY => Category::QUERY, GeneratorCategory::BODY => Category::BODY, GeneratorCategory::STATUS => Category::STATUS, GeneratorCategory::METADATA => Category::METADATA } }
fn built(m: &MatchingRules, g: &Generators, c: &GeneratorCategory) -> HashMap<DocPath, Generator> {
  let mut o = g.categories.get(c).cloned().unwrap_or_default(); if let Some(x) = m.rules.get(&cat_of(c)) { for (p, l) in &x.rules { for r in &l.rules { if let Some(g) = rule_gen(r) { o.insert(p.clone(), g); } } } } o }
fn meta(r: &mut Rng) -> HashMap<String, Value> { let mut m = HashMap::new();
  for _ in 0..r.below(4) { let k = r.pick(&["a", "b", "content", "type", "Content", ""]).to_string(); m.insert(k, gen::json(r, 1)); }
  if r.chance(2, 3) { let n: &str = *r.pick(&["contentType", "Content-Type", "contenttype", "CONTENT-TYPE", "content-Type", "ContentType"]);
    let v = match r.below(6) { 0 => json!([r.pick(TYPES)]), 1 => json!([r.pick(TYPES), r.pick(TYPES)]), 2 => gen::json(r, 1), _ => json!(r.pick(TYPES)) }; m.insert(n.to_string(), v); }
  m }
fn meta_ct(m: &HashMap<String, Value>) -> Option<&Value> { m.iter().find(|x| ["contenttype", "content-type"].contains(&x.0.to_ascii_lowercase().as_str())).map(|x| x.1) }
fn first(v: &Value) -> &Value { match v { Value::Array(a) if !a.is_empty() => &a[0], v => v } }
fn smeta(m: &HashMap<String, Value>) -> String { format!("{:?}", m.iter().collect::<BTreeMap<_, _>>()) }

pub fn c16(c: &mut Ctx) {
  let mut r = c.rng(0x1601);
  for i in 0..c.n(5000) { if c.stop() { return }
    let (h, b) = (headers(&mut r), some_body(&mut r)); let n = name(&mut r, &h); let (rules, gens) = (rt_rules(&mut r), rt_gens(&mut r));
    // a header that is added replaces the one of the same name, or has a new name
    let k = match &h { Some(m) if !m.is_empty() && r.chance(1, 3) => { let mut k: Vec<&String> = m.keys().collect(); k.sort(); (*r.pick(&k)).clone() } _ => { let n: &str = *r.pick(NAMES); let k = recase(&mut r, n); if h.as_ref().map(|m| m.keys().any(|x| x.to_lowercase() == k.to_lowercase())).unwrap_or(false) { "New".to_string() } else { k } } };
    let n2 = if r.chance(1, 3) { recase(&mut r, &k) } else { n }; let add = (k, (0..r.below(3)).map(|_| value(&mut r)).collect::<Vec<_>>());
    c.case("part", format!("headers {} body {} name {:?} add {:?}", sh(&h), sb(&b), n2, add), || { let (h, b, m, g) = (h.clone(), b.clone(), rules.clone(), gens.clone());
      match i % 4 { 0 => part(Request { headers: h.clone(), body: b.clone(), matching_rules: m, generators: g, ..Request::default() }, &h, &b, &n2, &add, &rules, &gens)?,
        1 => part(Response { headers: h.clone(), body: b.clone(), matching_rules: m, generators: g, ..Response::default() }, &h, &b, &n2, &add, &rules, &gens)?,
        2 => part(HttpRequest { headers: h.clone(), body: b.clone(), matching_rules: m, generators: g, ..HttpRequest::default() }, &h, &b, &n2, &add, &rules, &gens)?,
        _ => part(HttpResponse { headers: h.clone(), body: b.clone(), matching_rules: m, generators: g, ..HttpResponse::default() }, &h, &b, &n2, &add, &rules, &gens)? } Ok(h.is_some()) }); }
  let mut r = c.rng(0x1602);
  for _ in 0..c.n(4000) { if c.stop() { return } let (m, b) = (meta(&mut r), some_body(&mut r)); let (rules, gens) = (rt_rules(&mut r), rt_gens(&mut r));
    let k: &str = *r.pick(&["contentType", "a", "new", "X-B"]); let vals: Vec<String> = (0..r.below(4)).map(|_| value(&mut r)).collect();
    c.case("message", format!("metadata {} body {} add {:?}: {:?}", smeta(&m), sb(&b), k, vals), || {
      let want = meta_ct(&m).map(|v| jtext(first(v))); let ct = part_ct(&b, &want);
      let mut x = MessageContents { contents: b.clone(), metadata: m.clone(), matching_rules: rules.clone(), generators: gens.clone() };
      let mut a = AsynchronousMessage { contents: x.clone(), ..AsynchronousMessage::default() };
      let mut o = Message { contents: b.clone(), metadata: m.clone(), matching_rules: rules.clone(), generators: gens.clone(), ..Message::default() };
      eqv!(x.lookup_content_type(), want, "contents: content type looked up"); eqv!(a.lookup_content_type(), want, "V4 message: content type looked up"); eqv!(o.lookup_content_type(), want, "message: content type looked up");
      eqv!(x.content_type(), ct, "contents: content type"); eqv!(HttpPart::content_type(&a), ct, "V4 message: content type"); eqv!(HttpPart::content_type(&o), ct, "message: content type");
      eqv!(o.message_content_type(), match own(&b) { Some(c) => Some(c), None => match meta_ct(&m) { Some(v) => ContentType::parse(jtext(v).as_str()).ok(), None => detected(&b) } }, "message_content_type");
      let y = o.as_message_content(); eqv!(smeta(&y.metadata), smeta(&m), "metadata of the contents"); eqv!(sb(&y.contents), sb(&b), "body of the contents"); ens!(y.matching_rules == rules && y.generators == gens, "rules or generators of the contents");
      o.add_header(k, vals.iter().map(|s| s.as_str()).collect()); let mut n = m.clone(); n.insert(k.to_string(), match vals.len() { 0 => Value::Null, 1 => json!(vals[0]), _ => json!(vals) }); eqv!(smeta(&o.metadata), smeta(&n), "metadata with another value"); eqv!(sb(&o.contents), sb(&b), "body after a value was added");
      accessors(&mut x, &b, &rules, &gens)?; accessors(&mut a, &b, &rules, &gens)?; accessors(&mut o, &b, &rules, &gens)?; Ok(want.is_some()) }); }
  let mut r = c.rng(0x1603);
  for i in 0..256 { let b = OptionalBody::Present(vec![i as u8, 0xff - i as u8].into(), None, None); texts(c, &b); }
  for _ in 0..c.n(4000) { if c.stop() { return } let b = some_body(&mut r); texts(c, &b); }
  for _ in 0..c.n(1500) { if c.stop() { return } let s = some_text(&mut r); let j = gen::json(&mut r, 2);
    c.case("from", format!("{:?} {}", s, j), || { let want = if s.is_empty() { OptionalBody::Empty } else { OptionalBody::Present(s.clone().into(), None, None) }; eqv!(sb(&OptionalBody::from(s.as_str())), sb(&want), "body of a text"); eqv!(sb(&OptionalBody::from(s.clone())), sb(&want), "body of an owned text");
      let w = OptionalBody::Present(j.to_string().into(), ContentType::parse("application/json;charset=UTF-8").ok(), None); eqv!(sb(&OptionalBody::from(&j)), sb(&w), "body of JSON"); eqv!(sb(&OptionalBody::from(j.clone())), sb(&w), "body of owned JSON"); Ok(!s.is_empty()) }); }
  let mut r = c.rng(0x1604);
  for i in 0..c.n(3000) { if c.stop() { return } let (rules, gens) = (gen_rules(&mut r), rt_gens(&mut r)); let cat = r.pick(&[GeneratorCategory::METHOD, GeneratorCategory::PATH, GeneratorCategory::HEADER, GeneratorCategory::QUERY, GeneratorCategory::BODY, GeneratorCategory::BODY, GeneratorCategory::BODY, GeneratorCategory::STATUS, GeneratorCategory::METADATA]).clone();
    c.case("generators", format!("{:?} {:?} {:?}", cat, rules, gens), || { let got = match i % 3 { 0 => Request { matching_rules: rules.clone(), generators: gens.clone(), ..Request::default() }.build_generators(&cat), 1 => HttpResponse { matching_rules: rules.clone(), generators: gens.clone(), ..HttpResponse::default() }.build_generators(&cat), _ => MessageContents { matching_rules: rules.clone(), generators: gens.clone(), ..MessageContents::default() }.build_generators(&cat) };
      let want = built(&rules, &gens, &cat); eqv!(gen::canon_gens(&got), gen::canon_gens(&want), "generators"); Ok(!want.is_empty()) }); }
}
fn texts(c: &mut Ctx, b: &OptionalBody) { c.case("text", sb(b), || {
  eqv!(b.value_as_string(), text_of(b), "value as text"); eqv!(b.display_string(), shown(b), "display text");
  #[allow(deprecated)] { eqv!(b.str_value(), utf(b).unwrap_or_default(), "str_value"); }
  let want = match b { OptionalBody::Present(x, Some(c), _) => format!("Present({} bytes, {})", x.len(), c), OptionalBody::Present(x, None, _) => format!("Present({} bytes)", x.len()), OptionalBody::Missing => "Missing".into(), OptionalBody::Empty => "Empty".into(), OptionalBody::Null => "Null".into() };
  eqv!(b.to_string(), want, "summary"); Ok(b.is_present()) }); }
