//! C15 content types
use crate::fw::*;
use pact_models::content_types::{detect_content_type_from_bytes, detect_content_type_from_string, ContentType};
use std::collections::BTreeMap;
use std::str::FromStr;

fn tok(c: char) -> bool { c.is_ascii_alphanumeric() || "!#$%&'*+-.^_`|~".contains(c) }
#[derive(Clone, Debug, PartialEq)]
struct T { main: String, sub: String, attrs: BTreeMap<String, String>, suffix: Option<String> }
fn of(c: &ContentType) -> T { T { main: c.main_type.clone(), sub: c.sub_type.clone(), attrs: c.attributes.clone(), suffix: c.suffix.clone() } }
fn to(t: &T) -> ContentType { ContentType { main_type: t.main.clone(), sub_type: t.sub.clone(), attributes: t.attrs.clone(), suffix: t.suffix.clone() } }
fn any() -> T { T { main: "*".into(), sub: "*".into(), attrs: BTreeMap::new(), suffix: None } }
/// type "/" subtype ["+" suffix] *( ";" *SP name "=" ( token / quoted string ) ), names in lower case
fn read(s: &str) -> Option<T> {
  if s == "*/*" { return Some(any()) }
  let c: Vec<char> = s.chars().collect(); let mut i = 0; while i < c.len() && tok(c[i]) { i += 1; }
  if i == 0 || i >= c.len() || c[i] != '/' { return None } let main: String = c[..i].iter().collect(); i += 1; let b = i; while i < c.len() && tok(c[i]) { i += 1; }
  let sub: String = c[b..i].iter().collect(); if i < c.len() && (c[i] != ';' || i == b) { return None }
  // the suffix is what follows the last plus (not one the subtype begins with)
  let (sub, suffix) = match sub.rfind('+') { Some(p) if p > 0 => (sub[..p].to_string(), Some(sub[p + 1..].to_string())), _ => (sub, None) };
  let mut attrs = BTreeMap::new(); i += 1;
  while i < c.len() {
    if c[i] == ' ' { i += 1; continue }
    let b = i; while i < c.len() && tok(c[i]) { i += 1; } if i == b || i >= c.len() || c[i] != '=' { return None } let name: String = c[b..i].iter().collect::<String>().to_ascii_lowercase(); i += 1;
    let value: String = if i < c.len() && c[i] == '"' {
      let b = i + 1; i = b; while i < c.len() && (c[i] != '"' || i == b) { if (c[i] as u32) < 32 || c[i] == '\u{7f}' { return None } i += 1; } if i >= c.len() { return None }
      let v = c[b..i].iter().collect(); i += 1; while i < c.len() && c[i] == ' ' { i += 1; } if i < c.len() && c[i] != ';' { return None } i += 1; v
    } else { let b = i; while i < c.len() && tok(c[i]) { i += 1; } if i < c.len() && (c[i] != ';' || i == b) { return None } let v = c[b..i].iter().collect(); i += 1; v };
    let value = if name == "charset" { value.to_ascii_lowercase() } else { value }; attrs.insert(name, value);
  }
  Some(T { main: main.to_ascii_lowercase(), sub: sub.to_ascii_lowercase(), attrs, suffix: suffix.map(|s| s.to_ascii_lowercase()) })
}
fn print(t: &T) -> String {
  let mut s = format!("{}/{}", t.main, t.sub); if let Some(x) = &t.suffix { s.push('+'); s.push_str(x); }
  for (k, v) in &t.attrs { s.push(';'); s.push_str(k); s.push('='); if v.chars().all(tok) { s.push_str(v) } else { s.push('"'); s.push_str(v); s.push('"') } } s
}
fn strict(t: &T) -> bool { ["application", "text"].contains(&t.main.as_str()) && t.sub == "xml" }
fn xml(t: &T) -> bool { ["application", "text"].contains(&t.main.as_str()) && (t.sub == "xml" || t.suffix.as_deref() == Some("xml")) }
fn json(t: &T) -> bool { t.main == "application" && (t.sub.starts_with("json") || t.sub == "graphql" || t.suffix.as_deref() == Some("json")) }
fn form(t: &T) -> bool { t.main == "application" && t.sub == "x-www-form-urlencoded" }
fn text(t: &T) -> bool { t.main == "text" || xml(t) || json(t) || form(t) }
fn base(t: &T) -> T { T { main: t.main.clone(), sub: t.suffix.clone().unwrap_or(t.sub.clone()), attrs: BTreeMap::new(), suffix: None } }
fn equivalent(a: &T, b: &T) -> bool { (a.attrs.is_empty() || a.attrs == b.attrs) && ((strict(a) && strict(b)) || (a.main == b.main && a.sub == b.sub && a.suffix == b.suffix)) }
fn plain(m: &str, s: &str) -> T { T { main: m.into(), sub: s.into(), attrs: BTreeMap::new(), suffix: None } }
fn word_char(c: char) -> bool { thread_local! { static W: regex::Regex = regex::Regex::new(r"^\w$").unwrap(); } c.is_ascii_alphanumeric() || c == '_' || (!c.is_ascii() && W.with(|w| w.is_match(c.encode_utf8(&mut [0; 4])))) }
fn looks(s: &str) -> T {
  let t = s.trim_start(); let up = s.to_uppercase(); let up = up.trim_start();
  if t.strip_prefix("<?xml").map(|r| r.trim_start().starts_with("version")).unwrap_or(false) { return plain("application", "xml") }
  if up.starts_with("<!DOCTYPE") || up.starts_with("<HTML>") { return plain("text", "html") }
  let mut c = t.chars(); let (a, b) = (c.next(), c.next());
  if a == Some('<') && b.map(word_char).unwrap_or(false) { return plain("application", "xml") }
  let j = ["true", "false", "null", "\"", "["].iter().any(|p| t.starts_with(p)) || a.map(|c| c.is_ascii_digit()).unwrap_or(false)
    || t.strip_prefix('{').map(|r| { let r = r.trim_start(); let mut c = r.chars(); match c.next() { Some('}') => true, Some('"') => c.next().map(word_char).unwrap_or(false), _ => false } }).unwrap_or(false);
  if j { plain("application", "json") } else { plain("text", "plain") }
}
fn head(b: &[u8]) -> Option<String> {
  let h = &b[..b.len().min(32)]; if let Ok(s) = std::str::from_utf8(h) { return Some(s.to_string()) }
  if b.len() <= 32 { return None }
  // a character that is cut off by the limit does not count
  for cut in 1..4 { if let Ok(s) = std::str::from_utf8(&h[..32 - cut]) { let f = h[32 - cut]; let need = if f >= 0xf0 { 4 } else if f >= 0xe0 { 3 } else { 2 };
    let more = std::str::from_utf8(&h[32 - cut..]); return if need > cut && matches!(more, Err(e) if e.error_len().is_none()) { Some(s.to_string()) } else { None } } }
  None
}
const MAINS: &[&str] = &["application", "text", "image", "audio", "font", "video", "multipart", "*", "message", "x", "Application", "TEXT", "text1", "model"];
const SUBS: &[&str] = &["json", "xml", "plain", "html", "graphql", "x-www-form-urlencoded", "json-rpc", "jsonp", "hal", "*", "atom", "svg", "jpeg", "octet-stream", "X", "ld", "vnd.a.b", "html+x", "", "Json", "soap", "jso", "xmlx", "form-data", "ntriples"];
const SUFFIXES: &[&str] = &["json", "xml", "JSON", "xmlx", "gzip", "", "json5", "zip"];
fn word(r: &mut Rng, v: &[&str]) -> String { let s = r.pick(v).to_string(); if r.chance(1, 12) { r.perturb(&s) } else { s } }
fn value(r: &mut Rng) -> String { match r.below(5) { 0 => r.pick(&["utf-8", "UTF-8", "utf-16", "ISO-8859-1", "a b", "a;b", "1/2", "x=y", "é", "a,b", "(c)", "\"q", "a@b", "<x>", "https://x/y?z", "\\", "a=b;c=\\", ":"]).to_string(), 1 => r.string(&['a', 'B', '1', ' ', ';', '/', '=', ',', ':', '"', '\\', 'é', '*', '+'], 5), 2 => r.string(&['!', '#', '$', '%', '&', '\'', '*', '+', '-', '.', '^', '_', '`', '|', '~', '(', ')', '<', '>', '@', '[', ']', '{', '}', '?'], 3), _ => r.string(&['a', 'B', '1', '-', '.', '_'], 6) } }
/// a type as text, with the spaces, letters and quotes that are allowed
fn source(r: &mut Rng) -> String {
  let mut s = format!("{}/{}", word(r, MAINS), word(r, SUBS)); if r.chance(1, 3) { s.push('+'); s.push_str(&word(r, SUFFIXES)); }
  for _ in 0..*r.pick(&[0, 0, 1, 1, 2, 3]) { s.push(';'); for _ in 0..*r.pick(&[0, 1, 1, 2]) { s.push(' '); }
    s.push_str(&word(r, &["charset", "Charset", "boundary", "a", "B", "q", "version", "profile"])); s.push('='); let v = value(r); if v.chars().all(tok) && r.chance(3, 4) { s.push_str(&v) } else { s.push('"'); s.push_str(&v); s.push('"'); if r.chance(1, 5) { s.push(' ') } } }
  match r.below(12) { 0 => s.push(';'), 1 => s = r.perturb(&s), _ => () } s
}
fn some(r: &mut Rng) -> T { let n = *r.pick(&[0, 0, 0, 1, 2]); T { main: r.pick(MAINS).to_string(), sub: word(r, SUBS), attrs: (0..n).map(|_| (r.pick(&["charset", "a", "b"]).to_string(), r.pick(&["utf-8", "x", "y z", ""]).to_string())).collect(), suffix: if r.chance(1, 3) { Some(word(r, SUFFIXES)) } else { None } } }
fn near(r: &mut Rng, t: &T) -> T { let mut n = t.clone(); match r.below(7) { 0 => n.attrs.clear(), 1 => n.suffix = some(r).suffix, 2 => n.sub = word(r, SUBS), 3 => n.main = r.pick(MAINS).to_string(), 4 => { n.attrs.insert("a".into(), "x".into()); } 5 => return some(r), _ => () } n }
const STARTS: &[&str] = &["<?xml version", "<?xml", "<?xml  version=\"1.0\"?><a/>", "<?xml\nversion", "<?XML version", "<!DOCTYPE html>", "<!doctype", "<html>", "<HTML>", "<html lang", "<a", "<a:b", "< a", "<1", "<_", "<é", "<-", "</a>", "<", "<!--", "true", "false", "null", "truex", "tru", "True", "1", "-1", "0.5", "\"", "\"abc\"", "\"é", "{}", "{ }", "{\"a\"", "{ \"a\": 1}", "{\"\"", "{\"é\":1}", "{\"-", "{a", "[", "[1", " [", "x[", "hello", "", "{\n\t\"a\"", "{", "'a'", "٣", "<!DOCTYP", "<htm", "<html", "x<a", "1a", "nul"];
fn contents(r: &mut Rng) -> String { let mut s = String::new(); for _ in 0..*r.pick(&[0, 0, 1, 2, 5]) { s.push(*r.pick(&[' ', '\n', '\t', '\r', '\u{a0}', '\u{2003}', '\u{b}', '\u{85}'])); } let st: &str = *r.pick(STARTS); s.push_str(st); if r.chance(1, 2) { let n = r.below(40); s.push_str(&r.string(&['a', ' ', 'é', '漢', '😀', '\n', '"', '<', '>', '{', '1'], n)); } if r.chance(1, 8) { s = r.perturb(&s); } s }

pub fn c15(c: &mut Ctx) {
  let mut r = c.rng(0x1501);
  for s in ["application/json", "application/hal+json; charset=UTF-8", "*/*", "a/b;c=\"d e\"", "text/plain;a=\"b;c=d\"", "", "/", "a/", "a/b+", "a/+b", "a/b;", "a/b;c", "a/b;c=", "a/b;c=d;c=e", "image/svg+xml", "a/b; charset=utf-8; x=Y"] { parse(c, s); }
  for _ in 0..c.n(6000) { if c.stop() { return } let s = source(&mut r); parse(c, &s); }
  let mut r = c.rng(0x1502);
  for _ in 0..c.n(6000) { if c.stop() { return } let t = some(&mut r); let o = near(&mut r, &t);
    c.case("kinds", format!("{} and {}", print(&t), print(&o)), || { let (x, y) = (to(&t), to(&o));
      eqv!(x.is_json(), json(&t), "is_json"); eqv!(x.is_xml(), xml(&t), "is_xml"); eqv!(x.is_strict_xml(), strict(&t), "is_strict_xml"); eqv!(x.is_text(), text(&t), "is_text"); eqv!(x.is_binary(), !text(&t), "is_binary"); eqv!(x.is_form_urlencoded(), form(&t), "is_form_urlencoded");
      eqv!(x.is_unknown(), t.main == "*" || t.sub == "*", "is_unknown"); eqv!(of(&x.base_type()), base(&t), "base type"); eqv!(x.is_equivalent_to(&y), equivalent(&t, &o), "is_equivalent_to"); eqv!(y.is_equivalent_to(&x), equivalent(&o, &t), "is_equivalent_to, the other way"); eqv!(x.to_string(), print(&t), "as text"); let s: String = (&x).into(); eqv!(s, print(&t), "into a String"); Ok(t != o) }); }
  let mut r = c.rng(0x1503);
  for s in STARTS { detect(c, s); }
  for _ in 0..c.n(6000) { if c.stop() { return } let s = contents(&mut r); detect(c, &s); }
  for _ in 0..c.n(4000) { if c.stop() { return } let s = contents(&mut r); let mut b = s.into_bytes(); if r.chance(1, 3) { let n = b.len(); b.truncate(r.below(n + 1)); } if r.chance(1, 4) && !b.is_empty() { let i = r.below(b.len()); b[i] = r.below(256) as u8; } bytes(c, &b); }
}
fn parse(c: &mut Ctx, s: &str) {
  c.case("parse", format!("{:?}", s), || { let want = read(s); let got = ContentType::parse(s); eqv!(got.as_ref().ok().map(of), want, "parsed"); eqv!(ContentType::from_str(s).ok().map(|c| of(&c)), want, "from_str");
    let d = want.clone().unwrap_or(any()); eqv!(of(&ContentType::from(s)), d, "from &str"); eqv!(of(&ContentType::from(s.to_string())), d, "from String"); eqv!(of(&ContentType::from(&s.to_string())), d, "from &String");
    if let Ok(x) = got { ens!(x == *s, "not equal to the text it was read from"); let p = x.to_string(); eqv!(p, print(&of(&x)), "as text");
      if x.attributes.values().all(|v| !v.is_empty()) { eqv!(ContentType::parse(p.as_str()).ok().map(|c| of(&c)), want, "printed and parsed again"); } Ok(true) } else { let a = ContentType::default(); ens!(a != *s, "equal to a text that is no type"); Ok(false) } });
}
fn detect(c: &mut Ctx, s: &str) { c.case("detect", format!("{:?}", s), || { eqv!(detect_content_type_from_string(s).map(|c| of(&c)), Some(looks(s)), "from a text"); Ok(!s.is_empty()) }); bytes(c, s.as_bytes()); }
fn bytes(c: &mut Ctx, b: &[u8]) { c.case("detect-bytes", format!("{:?} {:?}", String::from_utf8_lossy(b), b), || { eqv!(detect_content_type_from_bytes(b).map(|c| of(&c)), head(b).map(|s| looks(&s)), "from bytes"); Ok(!b.is_empty()) }); }
