//! C19 requests, responses and message contents and their JSON forms
use crate::fw::*;
use crate::gen;
use crate::gens;
use crate::inter::{cj, jval, query, some_text};
use crate::rulesj;
use bytes::Bytes;
use pact_models::bodies::OptionalBody;
use pact_models::content_types::{detect_content_type_from_bytes, detect_content_type_from_string, ContentType, ContentTypeHint};
use pact_models::generators::{generators_to_json, Generators};
use pact_models::http_parts::HttpPart;
use pact_models::json_utils;
use pact_models::matchingrules::{matchers_to_json, Category, MatchingRuleCategory, MatchingRules, RuleList};
use pact_models::message::Message;
use pact_models::path_exp::DocPath;
use pact_models::request::Request;
use pact_models::response::Response;
use pact_models::v4::http_parts::{self, HttpRequest, HttpResponse};
use pact_models::v4::message_parts::MessageContents;
use pact_models::PactSpecification;
use serde_json::{json, Map, Value};
use std::collections::HashMap;

pub type H = Option<HashMap<String, Vec<String>>>;
const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(x: &[u8]) -> String { x.chunks(3).map(|c| { let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32; (0..4).map(|i| if i > c.len() { '=' } else { B64[(n >> (18 - 6 * i)) as usize & 63] as char }).collect::<String>() }).collect() }
/// the bytes of a canonical, padded BASE64 text
pub fn unb64(s: &str) -> Option<Vec<u8>> {
  let t = s.trim_end_matches('='); if s.len() % 4 != 0 || s.len() - t.len() > 2 { return None; }
  let mut o = vec![]; let (mut n, mut k) = (0u32, 0);
  for b in t.bytes() { n = n << 6 | B64.iter().position(|x| *x == b)? as u32; k += 6; if k >= 8 { k -= 8; o.push((n >> k) as u8); n &= (1 << k) - 1; } }
  if b64(&o) == s { Some(o) } else { None }
}
pub fn jtext(v: &Value) -> String { match v { Value::String(s) => s.clone(), Value::Null => String::new(), v => v.to_string() } }
fn pct(s: &str) -> Option<ContentType> { ContentType::parse(s).ok() }
/// a content type that reads back from its text
fn printable(c: &ContentType) -> bool { pct(&c.to_string()).as_ref() == Some(c) }
fn json_ct(c: &ContentType) -> bool { c.main_type == "application" && (c.sub_type.starts_with("json") || c.sub_type == "graphql" || c.suffix.as_deref() == Some("json")) }
fn text_ct(c: &ContentType) -> bool { c.main_type == "text" || json_ct(c) || (c.main_type == "application" && (c.sub_type == "xml" || c.suffix.as_deref() == Some("xml") || c.sub_type == "x-www-form-urlencoded")) }
fn head_ct(h: &H) -> Option<ContentType> { h.as_ref()?.iter().find(|x| x.0.to_lowercase() == "content-type").and_then(|x| x.1.first()).and_then(|v| pct(v)) }
/// the type a body has: its own, that of the headers, or what it looks like
fn calc(b: &OptionalBody, h: &H) -> Option<ContentType> { match b { OptionalBody::Present(x, c, _) => c.clone().or_else(|| head_ct(h)).or_else(|| detect_content_type_from_bytes(x)), _ => head_ct(h) } }
fn set_ct(b: &OptionalBody, c: Option<ContentType>) -> OptionalBody { match b { OptionalBody::Present(x, None, h) => OptionalBody::Present(x.clone(), c, *h), b => b.clone() } }
fn hint_text(h: ContentTypeHint) -> &'static str { match h { ContentTypeHint::BINARY => "BINARY", ContentTypeHint::TEXT => "TEXT", ContentTypeHint::DEFAULT => "DEFAULT" } }
fn jparse(x: &[u8]) -> Option<Value> { serde_json::from_slice(x).ok() }
/// the V4 JSON of a body
fn v4j(b: &OptionalBody) -> Option<Value> {
  match b {
    OptionalBody::Present(x, c, h) => { let ct = c.clone().unwrap_or_default(); let utf = std::str::from_utf8(x).ok();
      let enc = (json!(b64(x)), json!("base64")); let (v, e) = if json_ct(&ct) { jparse(x).map(|v| (v, json!(false))).unwrap_or(enc) } else if *h == Some(ContentTypeHint::BINARY) || !text_ct(&ct) { enc } else { utf.map(|s| (json!(s), json!(false))).unwrap_or(enc) };
      let mut m = Map::new(); m.insert("content".into(), v); m.insert("contentType".into(), json!(ct.to_string())); if let Some(h) = h { m.insert("contentTypeHint".into(), json!(hint_text(*h))); } m.insert("encoded".into(), e); Some(Value::Object(m)) }
    OptionalBody::Empty => Some(json!({ "content": "" })), _ => None }
}
/// whether V4 JSON can tell the body apart from others
fn v4_ok(b: &OptionalBody) -> bool { match b { OptionalBody::Null => false, OptionalBody::Present(x, c, _) => { let c = c.clone().unwrap_or_default(); !x.is_empty() && printable(&c) && !(json_ct(&c) && jparse(x).map_or(false, |v| v.is_null() || v == json!(""))) } _ => true } }
/// JSON is printed again; a body without a type has the unknown one
fn reprinted(b: &OptionalBody) -> OptionalBody { match b { OptionalBody::Present(x, c, h) => { let c = c.clone().unwrap_or_default(); let x = if json_ct(&c) { jparse(x).map(|v| Bytes::from(v.to_string())).unwrap_or(x.clone()) } else { x.clone() }; OptionalBody::Present(x, Some(c), *h) } b => b.clone() } }
/// the body a V4 document has under a name
fn v4b(j: &Value, n: &str, h: &H) -> OptionalBody {
  let m = match j.get(n) { None => return OptionalBody::Missing, Some(Value::Null) => return OptionalBody::Null, Some(Value::Object(m)) => m, Some(v) => return OptionalBody::Present(v.to_string().into(), None, None) };
  let v = match m.get("content") { None => return OptionalBody::Missing, Some(Value::Null) => return OptionalBody::Null, Some(v) => v };
  let ct = match m.get("contentType") { Some(t) => pct(&jtext(t)), None => head_ct(h) };
  let (enc, scheme) = match m.get("encoded") { Some(Value::String(s)) => (true, s.to_lowercase()), Some(Value::Bool(b)) => (*b, String::new()), Some(v) => (true, v.to_string()), None => (false, String::new()) };
  let raw = jtext(v).into_bytes();
  let x = if enc { if scheme == "base64" { unb64(&jtext(v)).unwrap_or(raw) } else { raw } } else if ct.as_ref().map_or(false, json_ct) { if *v == json!("") { vec![] } else { v.to_string().into_bytes() } } else { raw };
  if x.is_empty() { return OptionalBody::Empty; }
  let hint = m.get("contentTypeHint").map(|h| match h.as_str() { Some("BINARY") => ContentTypeHint::BINARY, Some("TEXT") => ContentTypeHint::TEXT, _ => ContentTypeHint::DEFAULT });
  let c = ct.unwrap_or_else(|| detect_content_type_from_bytes(&x).unwrap_or_default()); OptionalBody::Present(x.into(), Some(c), hint)
}
/// the body a V2 or V3 document has under a name
fn b3(j: &Value, n: &str, h: &H) -> OptionalBody {
  match j.get(n) { None => OptionalBody::Missing, Some(Value::Null) => OptionalBody::Null,
    Some(Value::String(s)) => { if s.is_empty() { return OptionalBody::Empty; }
      let c = head_ct(h).unwrap_or_else(|| detect_content_type_from_string(s).unwrap_or_default());
      if json_ct(&c) { let doc = jparse(s.as_bytes()).map_or(false, |v| v.is_string() || v.is_object()); OptionalBody::Present(if doc { s.clone().into() } else { json!(s).to_string().into() }, Some(c), None) }
      else if text_ct(&c) { OptionalBody::Present(s.clone().into(), Some(c), None) } else { OptionalBody::Present(unb64(s).map(Bytes::from).unwrap_or(s.clone().into()), None, None) } }
    Some(v) => OptionalBody::Present(v.to_string().into(), None, None) }
}
const SINGLE: [&str; 9] = ["date", "accept-datetime", "if-modified-since", "if-unmodified-since", "expires", "retry-after", "last-modified", "set-cookie", "user-agent"];
fn single(n: &str) -> bool { SINGLE.contains(&n.to_lowercase().as_str()) }
fn parse_header(n: &str, v: &str) -> Vec<String> { if single(n) { vec![v.trim().to_string()] } else { v.split(',').map(|x| x.trim().to_string()).collect() } }
fn hf(j: &Value) -> H { match j.get("headers") { Some(Value::Object(m)) => Some(m.iter().map(|(k, v)| (k.clone(), match v { Value::String(s) => parse_header(k, s), Value::Array(a) => a.iter().map(|x| match x { Value::String(s) => s.clone(), x => x.to_string() }).collect(), v => vec![v.to_string()] })).collect()), _ => None } }

pub fn sb(b: &OptionalBody) -> String { match b { OptionalBody::Present(x, c, h) => format!("{:?} {:?} {:?}", String::from_utf8_lossy(x), c.as_ref().map(|c| c.to_string()), h), b => format!("{:?}", b) } }
/// everything a body holds, by bytes
fn cb(b: &OptionalBody) -> String { match b { OptionalBody::Present(x, c, h) => format!("{:?} {:?} {:?}", &x[..], c, h), b => format!("{:?}", b) } }
fn sm<V: std::fmt::Debug>(m: &Option<HashMap<String, V>>) -> String { match m { None => "-".into(), Some(m) => { let mut v: Vec<String> = m.iter().map(|(k, v)| format!("{:?}: {:?}", k, v)).collect(); v.sort(); format!("{{{}}}", v.join(", ")) } } }
pub fn rt_rules(r: &mut Rng) -> MatchingRules {
  let mut m = MatchingRules::default();
  for _ in 0..r.below(3) { let k = r.pick(&gen::CATS).clone(); let mut x = MatchingRuleCategory::empty(k.clone());
    let n = if k == Category::PATH { 1 } else { 1 + r.below(3) };
    for _ in 0..n { let p = match k { Category::PATH | Category::METHOD | Category::STATUS => DocPath::empty(), Category::HEADER | Category::QUERY => rulesj::field(&rulesj::name(r)), _ => gen::path(r, 3) };
      let l = gen::rules(r, 1); if x.rules.keys().any(|q| q.tokens() == p.tokens()) { continue; } x.rules.insert(p, l); }
    let x = rulesj::kept_cat(&x); if !x.rules.is_empty() { m.rules.insert(k, x); } }
  m
}
/// rules as V2 can write them
pub fn rt_rules2(r: &mut Rng) -> MatchingRules { let mut m = rt_rules(r); m.rules.retain(|k, _| matches!(k, Category::PATH | Category::HEADER | Category::QUERY | Category::BODY)); for c in m.rules.values_mut() { c.rules = c.rules.drain().map(|(p, l)| (p, RuleList::new(l.rules[0].clone()))).collect(); } m }
pub fn rt_gens(r: &mut Rng) -> Generators {
  let mut g = Generators::default();
  for _ in 0..r.below(4) { let (cat, n, _) = r.pick(&gens::CATNAMES).clone(); let x = gen::generator(r, 0);
    match n { "method" | "path" | "status" => g.add_generator(&cat, x), "header" | "query" => { let mut f = some_text(r); if f.is_empty() { f = "x".into(); } g.add_generator_with_subcategory(&cat, rulesj::field(&f), x) } _ => g.add_generator_with_subcategory(&cat, gen::path(r, 3), x) } }
  g
}
pub fn same_rules(a: &MatchingRules, b: &MatchingRules, why: &str) -> Result<(), String> { eqv!(rulesj::flat(a), rulesj::flat(b), format!("rules {}", why)); Ok(()) }
pub fn same_gens(a: &Generators, b: &Generators, why: &str) -> Result<(), String> { eqv!(gens::flat(a), gens::flat(b), format!("generators {}", why)); Ok(()) }
const TYPES: [&str; 20] = ["application/json", "application/json;charset=UTF-8", "application/hal+json", "application/graphql", "application/json-rpc", "text/plain", "text/json", "text/html; charset=utf-8", "text/xml", "application/xml", "application/atom+xml", "application/x-www-form-urlencoded", "application/octet-stream", "application/pdf", "image/png", "image/svg+xml", "audio/x", "application/x", "multipart/form-data; boundary=ab", "*/*"];
fn ct_text(r: &mut Rng) -> String { match r.below(12) { 0 => some_text(r), 1 => { let t = r.pick(&TYPES).to_string(); r.perturb(&t) } 2 => r.pick(&TYPES).to_uppercase(), _ => r.pick(&TYPES).to_string() } }
fn ctype(r: &mut Rng) -> Option<ContentType> { let t = ct_text(r); pct(&t).filter(printable) }
fn header_value(r: &mut Rng) -> String { match r.below(5) { 0 => r.pick(&["", " ", ",", "a,b", " a , b ", ",a,,b,", "Mon, 02 Jan 2006", "W/\"a,b\"", "text/plain, */*"]).to_string(), 1 => gen::word(r), _ => some_text(r) } }
fn header_name(r: &mut Rng) -> String { match r.below(6) { 0 => { let s = r.pick(&SINGLE).to_string(); match r.below(3) { 0 => s.to_uppercase(), 1 => r.perturb(&s), _ => s } } 1 => r.pick(&["Accept", "X-A", "x-a", "Set-Cookie", "User-Agent", "Date", "ETag", "", "Ä", "İf-match"]).to_string(), _ => some_text(r) } }
/// headers with at most one content type
pub fn headers(r: &mut Rng) -> H {
  if r.chance(1, 4) { return None; }
  let mut m = HashMap::new(); for _ in 0..r.below(4) { let k = header_name(r); if k.to_lowercase() == "content-type" { continue; } let n = r.below(3) + if r.chance(1, 8) { 0 } else { 1 }; m.insert(k, (0..n).map(|_| header_value(r)).collect()); }
  if r.chance(1, 2) { let n = if r.chance(1, 10) { r.below(3) } else { 1 }; m.insert(r.pick(&["Content-Type", "content-type", "CONTENT-TYPE", "Content-type"]).to_string(), (0..n).map(|_| ct_text(r)).collect()); }
  Some(m)
}
fn content(r: &mut Rng) -> Vec<u8> {
  match r.below(12) { 0 | 1 => jval(r).to_string().into_bytes(), 2 => serde_json::to_vec_pretty(&gen::json(r, 2)).unwrap(), 3 => { let n = r.below(40); (0..n).map(|_| r.below(256) as u8).collect() } 4 => { let n = r.below(12); let x: Vec<u8> = (0..n).map(|_| r.below(256) as u8).collect(); b64(&x).into_bytes() } 5 => json!(some_text(r)).to_string().into_bytes(),
    6 => r.pick(&["null", "\"\"", "true", " {} ", "[]", "1e3", "{\"a\":1,\"a\":2}", "<a/>", "<?xml version='1.0'?><a/>", "<html></html>", "abcd", "AAAA", "QQ==", "QR==", "{", "\"", " "]).as_bytes().to_vec(), 7 => json!({ "a": some_text(r), "b": [jval(r)] }).to_string().into_bytes(), _ => some_text(r).into_bytes() }
}
pub fn body(r: &mut Rng) -> OptionalBody { match r.below(8) { 0 => OptionalBody::Missing, 1 => OptionalBody::Empty, 2 if r.chance(1, 2) => OptionalBody::Null, _ => { let c = if r.chance(1, 2) { ctype(r) } else { None }; OptionalBody::Present(content(r).into(), c, if r.chance(1, 3) { Some(*r.pick(&[ContentTypeHint::BINARY, ContentTypeHint::TEXT, ContentTypeHint::DEFAULT])) } else { None }) } } }
fn method(r: &mut Rng) -> String { match r.below(4) { 0 => some_text(r), 1 => "ß".into(), _ => r.pick(&["GET", "get", "Post", "PATCH", "delete"]).to_string() } }
fn status(r: &mut Rng) -> u16 { *r.pick(&[200, 0, 65535, 404, 100, 256, 999]) }
pub fn obj(v: Vec<(&str, Option<Value>)>) -> Value { Value::Object(v.into_iter().filter_map(|(k, v)| v.map(|v| (k.to_string(), v))).collect()) }
fn rj(m: &MatchingRules, s: PactSpecification) -> Option<Value> { if rulesj::flat(m).is_empty() { None } else { Some(matchers_to_json(m, &s)) } }
fn gj(g: &Generators, s: PactSpecification) -> Option<Value> { if gens::flat(g).is_empty() { None } else { Some(generators_to_json(g, &s)) } }
fn via(j: &Value) -> Value { serde_json::from_str(&j.to_string()).unwrap() }
const V4: PactSpecification = PactSpecification::V4;
fn v4_shared(h: &H, b: &OptionalBody, m: &MatchingRules, g: &Generators) -> Vec<(&'static str, Option<Value>)> { vec![("headers", h.as_ref().map(|h| json!(h))), ("body", v4j(&set_ct(b, calc(b, h)))), ("matchingRules", rj(m, V4)), ("generators", gj(g, V4))] }
fn same_shared(h: (&H, &H), b: (&OptionalBody, &OptionalBody), m: (&MatchingRules, &MatchingRules), g: (&Generators, &Generators), j: &Value) -> Result<(), String> {
  let t = format!("after {}", j); eqv!(h.0, h.1, format!("headers {}", t)); eqv!(cb(b.0), cb(b.1), format!("body {}", t)); same_rules(m.0, m.1, &t)?; same_gens(g.0, g.1, &t)
}
fn show_req(q: &HttpRequest) -> String { format!("{:?} {:?} query {} headers {} body {} rules {:?} generators {:?}", q.method, q.path, sm(&q.query), sm(&q.headers), sb(&q.body), rulesj::flat(&q.matching_rules), gens::flat(&q.generators)) }
pub fn rt_req(r: &mut Rng) -> HttpRequest { HttpRequest { method: method(r), path: some_text(r), query: query(r), headers: headers(r), body: body(r), matching_rules: rt_rules(r), generators: rt_gens(r) } }
pub fn rt_res(r: &mut Rng) -> HttpResponse { HttpResponse { status: status(r), headers: headers(r), body: body(r), matching_rules: rt_rules(r), generators: rt_gens(r) } }
pub fn metadata(r: &mut Rng) -> HashMap<String, Value> { let mut m = HashMap::new(); for _ in 0..r.below(3) { let k = some_text(r); if ["contenttype", "content-type"].contains(&k.to_lowercase().as_str()) { continue; } m.insert(k, jval(r)); } if r.chance(1, 2) { m.insert("contentType".into(), if r.chance(1, 16) { jval(r) } else { json!(ct_text(r)) }); } m }
pub fn rt_msg(r: &mut Rng) -> MessageContents { MessageContents { contents: body(r), metadata: metadata(r), matching_rules: rt_rules(r), generators: rt_gens(r) } }
fn meta_headers(m: &HashMap<String, Value>) -> H { m.get("contentType").map(|v| HashMap::from([("Content-Type".to_string(), vec![jtext(v)])])) }
/// what is read back; None when that is not the same for all such values
pub fn back_req(q: &HttpRequest) -> Option<HttpRequest> { let b = set_ct(&q.body, calc(&q.body, &q.headers)); if v4_ok(&b) { Some(HttpRequest { method: q.method.to_uppercase(), body: reprinted(&b), ..q.clone() }) } else { None } }
pub fn back_res(q: &HttpResponse) -> Option<HttpResponse> { let b = set_ct(&q.body, calc(&q.body, &q.headers)); if v4_ok(&b) { Some(HttpResponse { body: reprinted(&b), ..q.clone() }) } else { None } }
pub fn back_msg(q: &MessageContents) -> Option<MessageContents> { let b = set_ct(&q.contents, calc(&q.contents, &meta_headers(&q.metadata))); if v4_ok(&b) { Some(MessageContents { contents: reprinted(&b), ..q.clone() }) } else { None } }
pub fn req_json(q: &HttpRequest) -> Value { let mut v = vec![("method", Some(json!(q.method.to_uppercase()))), ("path", Some(json!(q.path))), ("query", q.query.as_ref().map(|q| json!(q)))]; v.extend(v4_shared(&q.headers, &q.body, &q.matching_rules, &q.generators)); obj(v) }
pub fn res_json(q: &HttpResponse) -> Value { let mut v = vec![("status", Some(json!(q.status)))]; v.extend(v4_shared(&q.headers, &q.body, &q.matching_rules, &q.generators)); obj(v) }
pub fn msg_json(q: &MessageContents) -> Value { obj(vec![("contents", v4j(&set_ct(&q.contents, calc(&q.contents, &meta_headers(&q.metadata))))), ("metadata", if q.metadata.is_empty() { None } else { Some(json!(q.metadata)) }), ("matchingRules", rj(&q.matching_rules, V4)), ("generators", gj(&q.generators, V4))]) }
pub fn same_req(a: &HttpRequest, w: &HttpRequest, j: &Value) -> Result<(), String> { eqv!(a.method, w.method, "method"); eqv!(a.path, w.path, "path"); eqv!(a.query, w.query, format!("query after {}", j)); same_shared((&a.headers, &w.headers), (&a.body, &w.body), (&a.matching_rules, &w.matching_rules), (&a.generators, &w.generators), j) }
pub fn same_res(a: &HttpResponse, w: &HttpResponse, j: &Value) -> Result<(), String> { eqv!(a.status, w.status, "status"); same_shared((&a.headers, &w.headers), (&a.body, &w.body), (&a.matching_rules, &w.matching_rules), (&a.generators, &w.generators), j) }
fn cm(m: &HashMap<String, Value>) -> String { crate::inter::cmap(m, |k| format!("{:?}", k), cj) }
pub fn same_msg(a: &MessageContents, w: &MessageContents, j: &Value) -> Result<(), String> { eqv!(cm(&a.metadata), cm(&w.metadata), format!("metadata after {}", j)); same_shared((&None, &None), (&a.contents, &w.contents), (&a.matching_rules, &w.matching_rules), (&a.generators, &w.generators), j) }

fn v4_parts(c: &mut Ctx, r: &mut Rng) {
  let q = rt_req(r);
  c.case("V4 request", show_req(&q), || {
    let j = q.to_json(); eqv!(j, req_json(&q), "to_json"); eqv!(q.content_type().map(|c| c.to_string()), calc(&q.body, &q.headers).map(|c| c.to_string()), "content_type");
    if let Some(w) = back_req(&q) { let b = HttpRequest::from_json(&via(&j)).map_err(|e| format!("reading {}: {}", j, e))?; same_req(&b, &w, &j)?; eqv!(b.to_json(), j, "written again"); }
    let v3 = q.as_v3_request(); eqv!(format!("{:?}", (&v3.method, &v3.path, cb(&v3.body), sm(&v3.query), sm(&v3.headers))), format!("{:?}", (&q.method, &q.path, cb(&q.body), sm(&q.query), sm(&q.headers))), "as_v3_request"); same_rules(&v3.matching_rules, &q.matching_rules, "as_v3_request")?; same_gens(&v3.generators, &q.generators, "as_v3_request")?; same_req(&v3.as_v4_request(), &q, &json!("as_v4_request"))?;
    Ok(q.body.is_present())
  });
  let q = rt_res(r);
  c.case("V4 response", format!("{} headers {} body {} rules {:?} generators {:?}", q.status, sm(&q.headers), sb(&q.body), rulesj::flat(&q.matching_rules), gens::flat(&q.generators)), || {
    let j = q.to_json(); eqv!(j, res_json(&q), "to_json"); eqv!(q.content_type().map(|c| c.to_string()), calc(&q.body, &q.headers).map(|c| c.to_string()), "content_type");
    if let Some(w) = back_res(&q) { let b = HttpResponse::from_json(&via(&j)).map_err(|e| format!("reading {}: {}", j, e))?; same_res(&b, &w, &j)?; eqv!(b.to_json(), j, "written again"); }
    let v3 = q.as_v3_response(); eqv!(format!("{:?}", (v3.status, cb(&v3.body), sm(&v3.headers))), format!("{:?}", (q.status, cb(&q.body), sm(&q.headers))), "as_v3_response"); same_rules(&v3.matching_rules, &q.matching_rules, "as_v3_response")?; same_gens(&v3.generators, &q.generators, "as_v3_response")?; same_res(&v3.as_v4_response(), &q, &json!("as_v4_response"))?;
    Ok(q.body.is_present())
  });
  let q = rt_msg(r);
  c.case("V4 contents", format!("{} metadata {} rules {:?} generators {:?}", sb(&q.contents), cm(&q.metadata), rulesj::flat(&q.matching_rules), gens::flat(&q.generators)), || {
    let j = q.to_json(); eqv!(j, msg_json(&q), "to_json"); eqv!(q.message_content_type().map(|c| c.to_string()), calc(&q.contents, &meta_headers(&q.metadata)).map(|c| c.to_string()), "message_content_type");
    if let Some(w) = back_msg(&q) { let b = MessageContents::from_json(&via(&j)).map_err(|e| format!("reading {}: {}", j, e))?; same_msg(&b, &w, &j)?; eqv!(b.to_json(), j, "written again"); }
    Ok(q.contents.is_present())
  });
}
fn header_doc(r: &mut Rng) -> Value { if r.chance(1, 12) { return jval(r); } let mut m = Map::new(); for _ in 0..r.below(4) { let k = header_name(r); if k.to_lowercase() == "content-type" { continue; } m.insert(k, match r.below(6) { 0 => jval(r), 1 | 2 => { let n = r.below(3); Value::Array((0..n).map(|_| if r.chance(1, 8) { jval(r) } else { json!(header_value(r)) }).collect()) } _ => json!(header_value(r)) }); }
  if r.chance(1, 2) { m.insert(r.pick(&["Content-Type", "content-type", "CONTENT-TYPE"]).to_string(), match r.below(6) { 0 => jval(r), 1 => json!([ct_text(r)]), 2 => json!([ct_text(r), "text/plain"]), 3 => json!(format!("{}, text/plain", ct_text(r))), _ => json!(ct_text(r)) }); } Value::Object(m) }
fn body_doc(r: &mut Rng) -> Value {
  if r.chance(1, 10) { return jval(r); }
  let mut m = Map::new();
  if r.chance(11, 12) { m.insert("content".into(), match r.below(6) { 0 | 1 => jval(r), 2 => json!(b64(&content(r))), 3 => json!(["", "AAAA", "QQ==", "QR==", "QQ", "{}", "\"a\"", "null", "<a/>"][r.below(9)]), _ => json!(some_text(r)) }); }
  if r.chance(2, 3) { m.insert("contentType".into(), if r.chance(1, 12) { jval(r) } else { json!(ct_text(r)) }); }
  if r.chance(2, 3) { m.insert("encoded".into(), match r.below(8) { 0 => json!(true), 1 | 2 => json!(false), 3 => json!(r.pick(&["BASE64", "Base64", "json", "JSON", "", "hex"])), 4 => jval(r), _ => json!("base64") }); }
  if r.chance(1, 2) { m.insert("contentTypeHint".into(), match r.below(6) { 0 => jval(r), 1 => json!("text"), 2 => json!(some_text(r)), _ => json!(r.pick(&["BINARY", "TEXT", "DEFAULT"])) }); }
  Value::Object(m)
}
fn doc3_body(r: &mut Rng) -> Value { match r.below(4) { 0 => jval(r), 1 => json!(b64(&content(r))), 2 => match String::from_utf8(content(r)) { Ok(s) => json!(s), Err(_) => json!(some_text(r)) }, _ => json!(some_text(r)) } }
fn up(j: &Value) -> String { match j.get("method") { None => "GET".into(), Some(Value::String(s)) => s.to_uppercase(), Some(v) => v.to_string().to_uppercase() } }
fn pathv(j: &Value) -> String { match j.get("path") { None => "/".into(), Some(Value::String(s)) => s.clone(), Some(v) => v.to_string() } }
fn statusv(j: &Value) -> Option<u16> { match j.get("status") { None => Some(200), Some(v) => v.as_u64().filter(|n| *n <= 65535).map(|n| n as u16) } }
fn documents(c: &mut Ctx, r: &mut Rng) {
  // documents of any shape, V4
  let mut m = Map::new(); let (ru, ge) = (rt_rules(r), rt_gens(r)); let bad = r.chance(1, 10);
  if r.chance(3, 4) { m.insert("method".into(), if r.chance(1, 8) { jval(r) } else { json!(method(r)) }); } if r.chance(3, 4) { m.insert("path".into(), if r.chance(1, 8) { jval(r) } else { json!(some_text(r)) }); }
  if r.chance(1, 2) { let x = match r.below(4) { 0 => jval(r), 1 => json!("a=b&a&c=%20"), _ => { let mut q = Map::new(); for _ in 0..r.below(3) { let v = match r.below(3) { 0 => jval(r), 1 => json!([some_text(r), null, 1, ""]), _ => json!(some_text(r)) }; q.insert(some_text(r), v); } Value::Object(q) } }; m.insert("query".into(), x); }
  if r.chance(3, 4) { m.insert("headers".into(), header_doc(r)); } if r.chance(1, 2) { m.insert("status".into(), match r.below(8) { 0 => jval(r), 1 => json!(r.lit_num()), 2 => json!(65536), 3 => json!(-1), 4 => json!(200.0), 5 => json!("200"), 6 => json!(65535), _ => json!(status(r)) }); }
  if r.chance(1, 2) { m.insert("metadata".into(), if r.chance(1, 10) { jval(r) } else { json!(metadata(r)) }); }
  if bad { m.insert("matchingRules".into(), json!({ "body": { "$": { "matchers": [{ "match": "nope" }] } } })); } else if r.chance(1, 2) { m.insert("matchingRules".into(), matchers_to_json(&ru, &V4)); } if r.chance(1, 2) { m.insert("generators".into(), generators_to_json(&ge, &V4)); }
  if r.chance(1, 12) { m.insert(some_text(r), jval(r)); }
  let has = |m: &Map<String, Value>, k: &str| m.contains_key(k);
  let wr = if has(&m, "matchingRules") { ru.clone() } else { MatchingRules::default() }; let wg = if has(&m, "generators") { ge.clone() } else { Generators::default() };
  let mut m4 = m.clone(); for k in ["body", "contents"] { if r.chance(5, 6) { m4.insert(k.into(), body_doc(r)); } } let d = Value::Object(m4);
  c.case("V4 document", d.to_string(), || {
    let h = hf(&d); eqv!(json_utils::headers_from_json(&d), h, "headers_from_json");
    for n in ["body", "contents"] { eqv!(cb(&http_parts::body_from_json(&d, n, &h)), cb(&v4b(&d, n, &h)), n); }
    let q = HttpRequest::from_json(&d).ok(); eqv!(q.is_some(), !bad, "request readable");
    if let Some(q) = q { same_req(&q, &HttpRequest { method: up(&d), path: pathv(&d), query: d.get("query").and_then(|q| pact_models::query_strings::v3_query_from_json(q, &V4)), headers: h.clone(), body: v4b(&d, "body", &h), matching_rules: wr.clone(), generators: wg.clone() }, &d)?; }
    let st = statusv(&d); let q = HttpResponse::from_json(&d).ok(); eqv!(q.is_some(), !bad && st.is_some(), "response readable");
    if let Some(q) = q { same_res(&q, &HttpResponse { status: st.unwrap(), headers: h.clone(), body: v4b(&d, "body", &h), matching_rules: wr.clone(), generators: wg.clone() }, &d)?; }
    let q = MessageContents::from_json(&d).ok(); eqv!(q.is_some(), !bad, "contents readable");
    if let Some(q) = q { let md: HashMap<String, Value> = match d.get("metadata") { Some(Value::Object(m)) => m.iter().map(|(k, v)| (k.clone(), v.clone())).collect(), _ => HashMap::new() }; let mh = meta_headers(&md); same_msg(&q, &MessageContents { contents: v4b(&d, "contents", &mh), metadata: md, matching_rules: wr.clone(), generators: wg.clone() }, &d)?; }
    for v in [json!(1), json!([]), json!("x"), Value::Null] { ens!(MessageContents::from_json(&v).is_err(), "contents from {}", v); }
    Ok(d["body"].is_object())
  });
  // and V2, V3
  let mut m3 = m; for k in ["body", "contents"] { if r.chance(5, 6) { m3.insert(k.into(), doc3_body(r)); } } let d = Value::Object(m3); let spec = *r.pick(&[PactSpecification::V1, PactSpecification::V1_1, PactSpecification::V2, PactSpecification::V3]); let old = r.chance(1, 4); let d = if old { let mut o = d.as_object().unwrap().clone(); if let Some(v) = o.remove("matchingRules") { o.insert("requestMatchingRules".into(), v.clone()); o.insert("responseMatchingRules".into(), v); } Value::Object(o) } else { d };
  c.case("document", format!("{:?} {}", spec, d), || {
    let h = hf(&d); for n in ["body", "contents"] { eqv!(cb(&json_utils::body_from_json(&d, n, &h)), cb(&b3(&d, n, &h)), n); }
    let q = Request::from_json(&d, &spec).ok(); eqv!(q.is_some(), !bad, "request readable");
    let wq = d.get("query").and_then(|q| if spec == PactSpecification::V3 { pact_models::query_strings::v3_query_from_json(q, &spec) } else { pact_models::query_strings::query_from_json(q, &spec) });
    if let Some(q) = q { same_req(&q.as_v4_request(), &HttpRequest { method: up(&d), path: pathv(&d), query: wq, headers: h.clone(), body: b3(&d, "body", &h), matching_rules: wr.clone(), generators: wg.clone() }, &d)?; }
    let st = statusv(&d); let q = Response::from_json(&d, &spec).ok(); eqv!(q.is_some(), !bad && st.is_some(), "response readable");
    if let Some(q) = q { same_res(&q.as_v4_response(), &HttpResponse { status: st.unwrap(), headers: h.clone(), body: b3(&d, "body", &h), matching_rules: wr.clone(), generators: wg.clone() }, &d)?; }
    Ok(d.get("body").map_or(false, |b| b.is_string()))
  });
}
/// headers and a body that V2 and V3 can write
fn headers3(r: &mut Rng) -> H {
  let mut h = headers(r)?; let t = |s: &str| s.trim().to_string();
  for (k, v) in h.iter_mut() { if k.to_lowercase() == "content-type" { v.truncate(1); if v.is_empty() { v.push("text/plain".into()); } v[0] = t(&v[0].replace(',', "")); } else if single(k) { v.truncate(1); if v.is_empty() { v.push(String::new()); } v[0] = t(&v[0]); } else { if v.is_empty() { v.push("1".into()); } for x in v.iter_mut() { *x = t(&x.replace(',', "")); } } }
  Some(h)
}
/// the body a V3 document with one type (None: no type, the type is that of the contents) comes back with
fn back3(x: &[u8], h: Option<&ContentType>) -> Option<Vec<u8>> {
  if x.is_empty() { return None; } let utf = std::str::from_utf8(x).ok();
  let js = |strings: bool| { let v = jparse(x)?; if v.is_null() { return None; } if let Value::String(s) = &v { if !strings || s.is_empty() || jparse(s.as_bytes()).map_or(false, |v| v.is_string() || v.is_object()) { return None; } } Some(v.to_string().into_bytes()) };
  match h { Some(c) if json_ct(c) => js(true), Some(c) if text_ct(c) => utf.map(|_| x.to_vec()), Some(_) => Some(x.to_vec()), None => { let c = detect_content_type_from_string(utf?)?; if json_ct(&c) { js(false) } else if text_ct(&c) { Some(x.to_vec()) } else { None } } }
}
fn ob(b: &OptionalBody) -> String { match b { OptionalBody::Present(x, _, _) => format!("{:?}", &x[..]), b => format!("{:?}", b) } }
fn v3_parts(c: &mut Ctx, r: &mut Rng) {
  let spec = *r.pick(&[PactSpecification::V1, PactSpecification::V1_1, PactSpecification::V2, PactSpecification::V3, PactSpecification::V3, PactSpecification::V3]); let v3 = spec == PactSpecification::V3;
  let h = headers3(r); let ct = head_ct(&h); let mut b = body(r); if let OptionalBody::Present(x, t, hint) = &b { b = OptionalBody::Present(x.clone(), if t.is_some() { ct.clone() } else { None }, *hint); }
  let q = if v3 { query(r) } else { query(r).map(|q| q.into_iter().filter(|x| !x.0.is_empty() && x.0.is_ascii() && !x.1.is_empty() && x.1.iter().all(|v| v.as_ref().map_or(true, |v| v.is_ascii()))).collect::<HashMap<_, _>>()).filter(|q| !q.is_empty()) };
  let (m, g) = if v3 { (rt_rules(r), rt_gens(r)) } else { (rt_rules2(r), Generators::default()) };
  let req = Request { method: method(r), path: some_text(r), query: q, headers: h.clone(), body: b.clone(), matching_rules: m.clone(), generators: g.clone() };
  let res = Response { status: status(r), headers: h.clone(), body: b.clone(), matching_rules: m.clone(), generators: g.clone() };
  let wb = match &b { OptionalBody::Present(x, _, _) => back3(x, ct.as_ref()).map(|x| format!("{:?}", &x[..])), b => Some(format!("{:?}", b)) };
  // an unreadable type in the headers is no type
  let wh = json!(h.as_ref().map(|h| h.iter().map(|(k, v)| (k.clone(), v.join(", "))).collect::<HashMap<_, _>>()));
  c.case("request", format!("{:?} {}", spec, show_req(&req.as_v4_request())), || {
    let j = req.to_json(&spec); eqv!(j["method"], json!(req.method.to_uppercase()), "method"); eqv!(j["path"], json!(req.path), "path"); eqv!(j["headers"], wh, "headers"); eqv!(j.get("headers").is_some(), h.is_some(), "headers written"); eqv!(j.get("query").is_some(), req.query.is_some(), "query written");
    eqv!(j.get("matchingRules").cloned(), rj(&m, spec), "rules"); eqv!(j.get("generators").cloned(), gj(&g, spec), "generators");
    let x = Request::from_json(&via(&j), &spec).map_err(|e| format!("reading {}: {}", j, e))?;
    eqv!(x.method, req.method.to_uppercase(), "method"); eqv!(x.path, req.path, "path"); eqv!(x.query, req.query, format!("query after {}", j)); eqv!(x.headers, h, format!("headers after {}", j)); if let Some(w) = &wb { eqv!(ob(&x.body), *w, format!("body after {}", j)); } same_rules(&x.matching_rules, &m, &j.to_string())?; same_gens(&x.generators, &g, &j.to_string())?;
    Ok(b.is_present() && wb.is_some())
  });
  c.case("response", format!("{:?} {} headers {} body {}", spec, res.status, sm(&h), sb(&b)), || {
    let j = res.to_json(&spec); eqv!(j["status"], json!(res.status), "status"); eqv!(j["headers"], wh, "headers"); eqv!(j.get("headers").is_some(), h.is_some(), "headers written"); eqv!(j.get("matchingRules").cloned(), rj(&m, spec), "rules"); eqv!(j.get("generators").cloned(), gj(&g, spec), "generators");
    let x = Response::from_json(&via(&j), &spec).map_err(|e| format!("reading {}: {}", j, e))?;
    eqv!(x.status, res.status, "status"); eqv!(x.headers, h, format!("headers after {}", j)); if let Some(w) = &wb { eqv!(ob(&x.body), *w, format!("body after {}", j)); } same_rules(&x.matching_rules, &m, &j.to_string())?; same_gens(&x.generators, &g, &j.to_string())?;
    Ok(b.is_present() && wb.is_some())
  });
  // messages
  let mut md = metadata(r); md.remove("contentType"); let t = if r.chance(2, 3) { Some(ct_text(r)) } else { None }; if let Some(t) = &t { md.insert(r.pick(&["contentType", "content-type", "Content-Type", "CONTENTTYPE"]).to_string(), json!(t)); }
  let ct = t.as_ref().and_then(|t| pct(t)); let mut b = body(r); if let OptionalBody::Present(x, t, hint) = &b { b = OptionalBody::Present(x.clone(), if t.is_some() { ct.clone() } else { None }, *hint); }
  let (m, g) = (rt_rules(r), rt_gens(r)); let q = Message { description: some_text(r), contents: b.clone(), metadata: md.clone(), matching_rules: m.clone(), generators: g.clone(), ..Message::default() };
  let ok = t.is_none() || ct.as_ref().map_or(false, printable);
  let wb = match &b { OptionalBody::Present(x, _, _) => if ok { back3(x, ct.as_ref()).map(|x| format!("{:?}", &x[..])) } else { None }, b => Some(format!("{:?}", b)) };
  c.case("message", format!("{:?} {} metadata {} rules {:?} generators {:?}", q.description, sb(&b), cm(&md), rulesj::flat(&m), gens::flat(&g)), || {
    let j = q.to_json(&PactSpecification::V3); let x = Message::from_json(0, &via(&j), &PactSpecification::V3).map_err(|e| format!("reading {}: {}", j, e))?;
    eqv!(x.description, q.description, "description"); eqv!(cm(&x.metadata), cm(&md), format!("metadata after {}", j)); if let Some(w) = &wb { eqv!(ob(&x.contents), *w, format!("contents after {}", j)); if let (OptionalBody::Present(_, c, _), Some(t)) = (&x.contents, &ct) { eqv!(c.as_ref(), Some(t), "content type"); } } same_rules(&x.matching_rules, &m, &j.to_string())?; same_gens(&x.generators, &g, &j.to_string())?;
    for s in gens::SPECS { if s != PactSpecification::V3 { ens!(Message::from_json(0, &j, &s).is_err(), "read with {:?}", s); } }
    let mc = q.as_message_content(); eqv!(cb(&mc.contents), cb(&b), "as_message_content"); eqv!(cm(&mc.metadata), cm(&md), "as_message_content"); same_rules(&mc.matching_rules, &m, "as_message_content")?; same_gens(&mc.generators, &g, "as_message_content")?;
    Ok(b.is_present() && wb.is_some())
  });
}
fn helpers(c: &mut Ctx, r: &mut Rng) {
  let b = body(r); let t = ctype(r); let s = some_text(r); let v = jval(r); let (n, h) = (header_name(r), header_value(r));
  c.case("body", format!("{} with {:?}, {:?}, {}", sb(&b), t.as_ref().map(|t| t.to_string()), s, v), || {
    let p = match &b { OptionalBody::Present(x, c, h) => Some((x.clone(), c.clone(), *h)), _ => None };
    eqv!(b.is_present(), p.is_some(), "is_present"); eqv!(b.value(), p.as_ref().map(|p| p.0.clone()), "value"); eqv!(b.content_type(), p.as_ref().and_then(|p| p.1.clone()), "content_type"); eqv!(b.has_content_type(), b.content_type().is_some(), "has_content_type");
    let text = p.as_ref().map_or(false, |p| match p.2 { Some(h) => h == ContentTypeHint::TEXT, None => p.1.as_ref().map_or(false, text_ct) });
    eqv!(b.value_as_string(), if text { p.as_ref().and_then(|p| String::from_utf8(p.0.to_vec()).ok()) } else { None }, "value_as_string"); if let (true, Some(s)) = (text, b.value_as_string()) { eqv!(b.display_string(), s, "display_string"); }
    eqv!(cb(&b.with_content_type(t.clone())), cb(&match &p { Some(p) => OptionalBody::Present(p.0.clone(), t.clone(), p.2), None => b.clone() }), "with_content_type");
    eqv!(cb(&b.with_content_type_if_not_set(t.clone())), cb(&set_ct(&b, t.clone())), "with_content_type_if_not_set");
    if let Some(t) = &t { let mut x = b.clone(); x.set_content_type(t); eqv!(cb(&x), cb(&b.with_content_type(Some(t.clone()))), "set_content_type"); }
    eqv!(b.to_v4_json(), v4j(&b).unwrap_or(Value::Null), "to_v4_json");
    let w = if s.is_empty() { OptionalBody::Empty } else { OptionalBody::Present(s.clone().into(), None, None) }; eqv!(cb(&OptionalBody::from(s.as_str())), cb(&w), "from &str"); eqv!(cb(&OptionalBody::from(s.clone())), cb(&w), "from String");
    eqv!(cb(&OptionalBody::from(&v)), cb(&OptionalBody::Present(v.to_string().into(), pct("application/json;charset=utf-8"), None)), "from JSON"); eqv!(OptionalBody::from(v.clone()), OptionalBody::from(&v), "from JSON");
    Ok(p.is_some())
  });
  c.case("header", format!("{:?} {:?}", n, h), || { eqv!(pact_models::headers::parse_header(&n, &h), parse_header(&n, &h), "parse_header"); Ok(true) });
  let hs = headers3(r);
  c.case("headers", sm(&hs), || { if let Some(h) = &hs { let j = json_utils::headers_to_json(h); eqv!(json_utils::headers_from_json(&json!({ "headers": j })), hs, format!("headers after {}", j));
      let q = HttpRequest { headers: hs.clone(), ..HttpRequest::default() }; for (k, v) in h { for n in [k.clone(), k.to_uppercase(), k.to_lowercase()] { if h.keys().filter(|x| x.to_lowercase() == n.to_lowercase()).count() == 1 { eqv!(q.lookup_header_value(&n), Some(v.join(", ")), "lookup_header_value"); ens!(q.has_header(&n), "has_header"); } } } } Ok(hs.is_some()) });
}
pub fn c19(c: &mut Ctx) {
  let mut r = c.rng(19);
  for s in ["BINARY", "TEXT", "DEFAULT"] { c.case("hint", s.into(), || { let h = ContentTypeHint::try_from(s).map_err(|e| e.to_string())?; eqv!(h.to_string(), s, "display"); eqv!(hint_text(h), s, "value"); ens!(ContentTypeHint::try_from(s.to_lowercase().as_str()).is_err(), "lower case"); Ok(true) }); }
  c.case("defaults", "empty documents".into(), || { let d = json!({}); let q = HttpRequest::from_json(&d).map_err(|e| e.to_string())?; eqv!(q, HttpRequest::default(), "request"); let q = HttpResponse::from_json(&d).map_err(|e| e.to_string())?; eqv!(q, HttpResponse::default(), "response"); let q = Request::from_json(&d, &PactSpecification::V2).map_err(|e| e.to_string())?; eqv!(q, Request::default(), "request"); let q = Response::from_json(&d, &PactSpecification::V2).map_err(|e| e.to_string())?; eqv!(q, Response::default(), "response"); eqv!(HttpRequest::default().method, "GET", "method"); eqv!(HttpRequest::default().path, "/", "path"); eqv!(HttpResponse::default().status, 200, "status"); Ok(true) });
  for _ in 0..c.n(4000) { if c.stop() { return; } v4_parts(c, &mut r); documents(c, &mut r); v3_parts(c, &mut r); helpers(c, &mut r); }
}
