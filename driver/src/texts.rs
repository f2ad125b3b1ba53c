//! C06 query strings
use crate::fw::*;
use pact_models::query_strings::*;
use pact_models::PactSpecification;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};

type Q = HashMap<String, Vec<Option<String>>>;
type B = BTreeMap<String, Vec<Option<String>>>;
fn b(q: &Q) -> B { q.iter().map(|(k, v)| (k.clone(), v.clone())).collect() }
fn hexv(c: u8) -> Option<u8> { match c { b'0'..=b'9' => Some(c - b'0'), b'a'..=b'f' => Some(c - b'a' + 10), b'A'..=b'F' => Some(c - b'A' + 10), _ => None } }
/// what a text decodes to: %xx is a byte, + a space, everything else itself; an escape that is not one is kept whole
fn dec(s: &str) -> Option<String> {
  let c: Vec<char> = s.chars().collect(); let mut out: Vec<u8> = vec![]; let mut i = 0;
  let put = |out: &mut Vec<u8>, ch: char| out.extend(ch.to_string().bytes());
  while i < c.len() {
    if c[i] == '%' {
      let hx = |k: usize| c.get(k).and_then(|x| u8::try_from(*x as u32).ok()).and_then(hexv);
      match (c.get(i + 1), c.get(i + 2)) {
        (Some(x), Some(y)) => { match (hx(i + 1), hx(i + 2)) { (Some(a), Some(b)) => out.push(a * 16 + b), _ => { put(&mut out, '%'); put(&mut out, *x); put(&mut out, *y); } } i += 3; }
        (Some(x), None) => { put(&mut out, '%'); put(&mut out, *x); i += 2; }
        _ => { out.push(b'%'); i += 1; } }
    } else { put(&mut out, if c[i] == '+' { ' ' } else { c[i] }); i += 1; }
  }
  String::from_utf8(out).ok()
}
fn enc_ascii(s: &str) -> String { s.bytes().map(|b| match b { b' ' => "+".into(), b'-' | b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' => (b as char).to_string(), _ => format!("%{:02x}", b) }).collect() }
fn parse(q: &str) -> Option<B> {
  if q.is_empty() { return None; }
  let mut m = B::new(); let or = |s: &str| dec(s).unwrap_or_else(|| s.to_string());
  for kv in q.split('&').filter(|kv| !kv.is_empty()) { let (n, v) = match kv.find('=') { Some(i) => (&kv[..i], Some(or(&kv[i + 1..]))), None => (kv, None) }; m.entry(or(n)).or_default().push(v); }
  Some(m)
}
fn kept(q: &B) -> B { q.iter().filter(|(k, v)| !k.is_empty() && !v.is_empty()).map(|(k, v)| (k.clone(), v.clone())).collect() }
fn v2(q: &Q) -> Result<bool, String> {
  let want = kept(&b(q)); let s = build_query_string(q.clone());
  ens!(s.is_empty() == want.is_empty(), "{:?} builds {:?}", q, s);
  // names in order, the values of a name in their order
  if s.is_ascii() || !s.is_empty() { let names: Vec<String> = s.split('&').map(|kv| dec(kv.split('=').next().unwrap()).unwrap_or_default()).collect(); let wn: Vec<String> = want.iter().flat_map(|(k, v)| v.iter().map(move |_| k.clone())).collect(); if !want.is_empty() { eqv!(names, wn, format!("names in {:?}", s)); } }
  let p = parse_query_string(&s).map(|m| b(&m)).unwrap_or_default();
  eqv!(p, want, format!("parsed back from {:?}", s));
  // the same entries in another map
  let mut q2 = Q::new(); let mut es: Vec<_> = q.iter().collect(); es.sort(); for (k, v) in es { q2.insert(k.clone(), v.clone()); } eqv!(build_query_string(q2), s, "text depends on the map");
  for v in [PactSpecification::Unknown, PactSpecification::V1, PactSpecification::V1_1, PactSpecification::V2] {
    let j = query_to_json(q.clone(), &v); eqv!(j, json!(s), "V2 JSON"); eqv!(query_from_json(&j, &v).map(|m| b(&m)).unwrap_or_default(), want, "from V2 JSON");
    eqv!(v3_query_from_json(&j, &v).map(|m| b(&m)).unwrap_or_default(), want, "from text in V3 JSON"); }
  Ok(!want.is_empty())
}
fn v3(q: &Q) -> Result<bool, String> {
  for v in [PactSpecification::V3, PactSpecification::V4] {
    let j = query_to_json(q.clone(), &v);
    let want: serde_json::Map<String, Value> = q.iter().map(|(k, v)| (k.clone(), json!(v))).collect(); eqv!(j, Value::Object(want), "V3 JSON");
    eqv!(v3_query_from_json(&j, &v).map(|m| b(&m)), Some(b(q)), "from V3 JSON"); }
  Ok(!q.is_empty())
}
fn from_json(j: &Value) -> Result<bool, String> {
  let want: Option<B> = match j { Value::String(s) => parse(s), Value::Object(m) => Some(m.iter().map(|(k, v)| (k.clone(), match v { Value::String(s) => vec![Some(s.clone())], Value::Array(a) => a.iter().map(|x| match x { Value::Null => None, Value::String(s) => Some(s.clone()), x => Some(x.to_string()) }).collect(), _ => vec![] })).collect()), _ => None };
  for v in [PactSpecification::V3, PactSpecification::V4] { eqv!(v3_query_from_json(j, &v).map(|m| b(&m)), want, "v3_query_from_json"); }
  eqv!(query_from_json(j, &PactSpecification::V2).map(|m| b(&m)), j.as_str().and_then(parse), "query_from_json");
  Ok(want.is_some())
}
pub fn c06(c: &mut Ctx) {
  let al: Vec<char> = "abZ09-_.~%&=+ /?#[]'\"<>;:@,!*()\\\n\t\0\u{1}\u{7f}2fF".chars().collect(); let ual: Vec<char> = "a%&=+ 9eE é❤😀Ā\u{80}\u{7ff}\u{800}\u{ffff}\u{10000}".chars().collect();
  for i in 0..128u8 { let s = (i as char).to_string(); c.case("ascii", format!("{:?}", s), || { eqv!(encode_query(&s), enc_ascii(&s), "encoded"); eqv!(decode_query(&encode_query(&s)), Ok(s.clone()), "decoded"); Ok(true) }); }
  for i in 0..=255u8 { for t in [format!("%{:02x}", i), format!("%{:02X}", i), format!("é%{:02x}", i), format!("%c3%{:02x}", i), format!("%{}", i as char), format!("%4{}", i as char), format!("%{}4", i as char)] { c.case("escape", format!("{:?}", t), || { eqv!(decode_query(&t).ok(), dec(&t), "decoded"); Ok(true) }); } }
  // every short text over the characters that matter
  let small: Vec<char> = "%4fg+&=aé".chars().collect(); let mut front: Vec<String> = vec![String::new()];
  for _ in 0..if c.thorough { 6 } else { 4 } { let mut nx = vec![]; for f in &front { for ch in &small { let mut s = f.clone(); s.push(*ch); nx.push(s); } }
    for s in &nx { if c.stop() { return; } c.case("exhaustive", format!("{:?}", s), || { eqv!(decode_query(s).ok(), dec(s), "decoded"); eqv!(parse_query_string(s).map(|m| b(&m)), parse(s), "parsed"); Ok(true) }); } front = nx; }
  for s in ["é", "❤", "aé", "文件.txt"] { c.case("non-ascii value", format!("{:?}", s), || v2(&Q::from([("a".to_string(), vec![Some(s.to_string())])]))); }
  let mut r = c.rng(6);
  let ascii = |r: &mut Rng| -> String { let s = r.string(&al, 8); s.chars().filter(|c| c.is_ascii()).collect() };
  for _ in 0..c.n(15000) { if c.stop() { return; }
    let s = if r.chance(1, 2) { r.string(&ual, 10) } else { r.string(&al, 14) };
    c.case("text", format!("{:?}", s), || { eqv!(decode_query(&s).ok(), dec(&s), "decoded"); eqv!(parse_query_string(&s).map(|m| b(&m)), parse(&s), "parsed");
      let e = encode_query(&s); ens!(e.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'+' || b == b'%'), "{:?} encodes to {:?}", s, e);
      if s.is_ascii() { eqv!(e, enc_ascii(&s), "encoded"); eqv!(decode_query(&e), Ok(s.clone()), "decoded after encoding"); } Ok(true) });
    let mut q = Q::new(); for _ in 0..r.below(5) { let n = if r.chance(1, 3) { r.string(&ual, 4) } else { ascii(&mut r) }; let k = r.below(4); q.insert(n, (0..k).map(|_| if r.chance(1, 4) { None } else { Some(ascii(&mut r)) }).collect()); }
    c.case("map", format!("{:?}", b(&q)), || v2(&q));
    let mut q = q; if r.chance(1, 2) { q.insert(r.string(&ual, 5), vec![Some(r.string(&ual, 5)), None]); }
    c.case("map v3", format!("{:?}", b(&q)), || v3(&q));
    let j = match r.below(4) { 0 => crate::gen::json(&mut r, 2), 1 => json!(s), _ => { let mut m = serde_json::Map::new(); for _ in 0..r.below(4) { m.insert(r.string(&ual, 3), crate::gen::json(&mut r, 2)); } Value::Object(m) } };
    c.case("json", j.to_string(), || from_json(&j));
  }
}
