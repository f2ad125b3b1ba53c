//! C23 matching rule definition expressions: own lexer and own grammar
use crate::fw::*;
use crate::gen::canon_def;
use either::Either;
use pact_models::expression_parser::DataType;
use pact_models::generators::Generator;
use pact_models::matchingrules::expressions::{is_matcher_def, parse_matcher_def, MatchingReference, MatchingRuleDefinition, ValueType};
use pact_models::matchingrules::MatchingRule;

#[derive(Clone, Debug, PartialEq)]
enum K { Word(String), Str, Int, Num(usize), Dec, Part, Bool, Null, Sym(char), Bad }
#[derive(Clone, Debug)]
struct T { k: K, s: String, at: usize, end: usize }
/// the tokens of the text; the first character that starts none ends the list
fn tokens(v: &str) -> Vec<T> {
  let b = v.as_bytes(); let mut out: Vec<T> = vec![]; let mut i = 0;
  let digits = |mut j: usize| { while j < b.len() && b[j].is_ascii_digit() { j += 1; } j };
  while i < b.len() {
    if matches!(b[i], b' ' | b'\t' | b'\n' | 12) { i += 1; continue; }
    let (k, end) = match b[i] {
      c @ (b'(' | b')' | b',' | b'$') => (K::Sym(c as char), i + 1),
      c if c.is_ascii_alphabetic() => { let mut j = i; while j < b.len() && b[j].is_ascii_alphabetic() { j += 1; }
        (match &v[i..j] { "true" | "false" => K::Bool, "null" => K::Null, w => K::Word(w.to_string()) }, j) }
      b'\'' => { let mut j = i + 1; while j < b.len() && b[j] != b'\'' { if b[j] == b'\\' { j += 1; } j += 1; } if j < b.len() { (K::Str, j + 1) } else { (K::Bad, i + 1) } }
      b'-' | b'0'..=b'9' => { let s = if b[i] == b'-' { i + 1 } else { i }; let j = digits(s);
        if j == s { (K::Bad, i + 1) } else {
          let f = if j < b.len() && b[j] == b'.' { digits(j + 1) } else { 0 };
          if j == s + 1 && f > j + 1 { (K::Dec, f) }
          else if s > i { (if v[i..j].parse::<i64>().is_ok() { K::Int } else { K::Bad }, j) }
          else { (v[i..j].parse::<u64>().ok().map(|n| K::Num(n as usize)).unwrap_or(K::Bad), j) } } }
      b'.' => { let j = digits(i + 1); if j > i + 1 { (K::Part, j) } else { (K::Bad, i + 1) } }
      _ => (K::Bad, i + 1) };
    let bad = k == K::Bad; out.push(T { k, s: if bad { String::new() } else { v[i..end].to_string() }, at: i, end });
    if bad { break; } i = end;
  }
  out
}
/// the contents of a string literal
fn unescape(s: &str) -> Option<String> {
  let c: Vec<char> = s[1..s.len() - 1].chars().collect(); let mut out = String::new(); let mut i = 0;
  while i < c.len() {
    if c[i] != '\\' || i + 1 == c.len() { out.push(c[i]); i += 1; continue; }
    i += 2;
    match c[i - 1] { '\\' => out.push('\\'), 'b' => out.push('\u{8}'), 'f' => out.push('\u{c}'), 'n' => out.push('\n'), 'r' => out.push('\r'), 't' => out.push('\t'),
      'u' => { let hex: String; if *c.get(i)? == '{' { let e = (i..c.len()).find(|j| c[*j] == '}')?; hex = c[i + 1..e].iter().collect(); i = e + 1; } else { if i + 4 > c.len() { return None; } hex = c[i..i + 4].iter().collect(); i += 4; }
        if hex.is_empty() || !hex.chars().all(|h| h.is_ascii_hexdigit()) { return None; }
        let mut n: u64 = 0; for h in hex.chars() { n = n * 16 + h.to_digit(16).unwrap() as u64; if n > u32::MAX as u64 { return None; } }
        out.push(char::from_u32(n as u32).unwrap_or('\u{fffd}')); }
      x => { out.push('\\'); out.push(x); } }
  }
  Some(out)
}
struct P { t: Vec<T>, i: usize, text: String }
type Rules = Vec<Either<MatchingRule, MatchingReference>>;
impl P {
  fn next(&mut self) -> Option<T> { let t = self.t.get(self.i).cloned(); self.i += 1; t }
  fn sym(&mut self, c: char) -> Option<()> { if self.next()?.k == K::Sym(c) { Some(()) } else { None } }
  fn string(&mut self) -> Option<String> { let t = self.next()?; if t.k == K::Str { unescape(&t.s) } else { None } }
  /// the number that starts with the token: its text and if it has decimals
  fn number(&mut self, t: &T) -> Option<(String, bool)> {
    match t.k { K::Dec => Some((t.s.clone(), true)),
      K::Int | K::Num(_) => { if self.text.as_bytes().get(t.end) == Some(&b'.') { let p = self.next()?; if p.k == K::Part && p.at == t.end { Some((format!("{}{}", t.s, p.s), true)) } else { None } } else { Some((t.s.clone(), false)) } }
      _ => None }
  }
  fn primitive(&mut self, state: bool) -> Option<(String, ValueType, Option<Generator>)> {
    let t = self.next()?;
    match &t.k { K::Str => Some((unescape(&t.s)?, ValueType::String, None)), K::Null => Some((String::new(), ValueType::String, None)), K::Bool => Some((t.s.clone(), ValueType::Boolean, None)),
      K::Word(w) if w == "fromProviderState" && state => self.state(),
      _ => { let (s, d) = self.number(&t)?; Some((s, if d { ValueType::Decimal } else { ValueType::Integer }, None)) } }
  }
  fn state(&mut self) -> Option<(String, ValueType, Option<Generator>)> {
    self.sym('(')?; let e = self.string()?; self.sym(',')?; let (v, t, _) = self.primitive(false)?; self.sym(')')?;
    let d = match t { ValueType::String => DataType::STRING, ValueType::Integer => DataType::INTEGER, ValueType::Decimal => DataType::DECIMAL, ValueType::Boolean => DataType::BOOLEAN, _ => DataType::RAW };
    Some((v, t, Some(Generator::ProviderStateGenerator(e, Some(d)))))
  }
  fn rule(&mut self) -> Option<(String, ValueType, Rules, Option<Generator>)> {
    let t = self.next()?; let w = match t.k { K::Sym('$') => { let n = self.string()?; return Some((n.clone(), ValueType::Unknown, vec![Either::Right(MatchingReference { name: n })], None)); } K::Word(w) => w, _ => return None };
    if !["equalTo", "type", "number", "integer", "decimal", "datetime", "date", "time", "regex", "include", "boolean", "semver", "contentType"].contains(&w.as_str()) { return None; }
    self.sym(',')?;
    let is_state = |t: &Option<T>| t.as_ref().map(|t| t.k == K::Word("fromProviderState".into())).unwrap_or(false);
    let (v, ty, r, g) = match w.as_str() {
      "equalTo" => { let (v, t, g) = self.primitive(true)?; (v, t, MatchingRule::Equality, g) }
      "type" => { let (v, t, g) = self.primitive(true)?; (v, t, MatchingRule::Type, g) }
      "number" | "integer" | "decimal" => { let (r, ty) = match w.as_str() { "number" => (MatchingRule::Number, ValueType::Number), "integer" => (MatchingRule::Integer, ValueType::Integer), _ => (MatchingRule::Decimal, ValueType::Decimal) };
        let t = self.next(); if is_state(&t) { let (v, t, g) = self.state()?; (v, t, r, g) } else { let t = t?; let (v, d) = self.number(&t)?; if d && w == "integer" { return None; } (v, ty, r, None) } }
      "datetime" | "date" | "time" => { let f = self.string()?; self.sym(',')?;
        let (r, g) = match w.as_str() { "datetime" => (MatchingRule::Timestamp(f.clone()), Generator::DateTime(Some(f), None)), "date" => (MatchingRule::Date(f.clone()), Generator::Date(Some(f), None)), _ => (MatchingRule::Time(f.clone()), Generator::Time(Some(f), None)) };
        if is_state(&self.t.get(self.i).cloned()) { self.i += 1; let (v, t, g) = self.state()?; (v, t, r, g) } else { (self.string()?, ValueType::String, r, Some(g)) } }
      "regex" => { let f = self.string()?; self.sym(',')?; (self.string()?, ValueType::String, MatchingRule::Regex(f), None) }
      "contentType" => { let f = self.string()?; self.sym(',')?; (self.string()?, ValueType::Unknown, MatchingRule::ContentType(f), None) }
      "include" => { let v = self.string()?; (v.clone(), ValueType::String, MatchingRule::Include(v), None) }
      "semver" => { let v = self.string()?; if !is_semver(&v) { return None; } (v, ValueType::String, MatchingRule::Semver, None) }
      _ => { let t = self.next()?; if t.k != K::Bool { return None; } (t.s, ValueType::Boolean, MatchingRule::Boolean, None) }
    };
    Some((v, ty, vec![Either::Left(r)], g))
  }
  fn exp(&mut self) -> Option<(String, ValueType, Rules, Option<Generator>)> {
    let w = match self.next()?.k { K::Word(w) => w, _ => return None };
    if !START.contains(&w.as_str()) { return None; }
    self.sym('(')?;
    let plain = |r: MatchingRule| (String::new(), ValueType::Unknown, vec![Either::Left(r)], None);
    let out = match w.as_str() { "matching" => self.rule()?, "notEmpty" => { let (v, t, g) = self.primitive(true)?; (v, t, vec![Either::Left(MatchingRule::NotEmpty)], g) }
      "eachKey" => { let d = self.exp()?; plain(MatchingRule::EachKey(def(d, &self.text))) } "eachValue" => { let d = self.exp()?; plain(MatchingRule::EachValue(def(d, &self.text))) }
      w => { let n = match self.next()?.k { K::Num(n) => n, _ => return None }; plain(if w == "atLeast" { MatchingRule::MinType(n) } else { MatchingRule::MaxType(n) }) } };
    self.sym(')')?; Some(out)
  }
  fn all(&mut self) -> Option<MatchingRuleDefinition> {
    let mut d = def(self.exp()?, &self.text);
    while self.i < self.t.len() { self.sym(',')?; let e = def(self.exp()?, &self.text); d = joined(&d, &e); }
    Some(d)
  }
}
const START: [&str; 6] = ["matching", "notEmpty", "eachKey", "eachValue", "atLeast", "atMost"];
fn def(d: (String, ValueType, Rules, Option<Generator>), text: &str) -> MatchingRuleDefinition { MatchingRuleDefinition { value: d.0, value_type: d.1, rules: d.2, generator: d.3, expression: text.to_string() } }
fn rank(t: ValueType) -> usize { match t { ValueType::Unknown => 0, ValueType::Boolean => 1, ValueType::Number => 2, ValueType::Integer => 3, ValueType::Decimal => 4, ValueType::String => 5 } }
fn joined(a: &MatchingRuleDefinition, b: &MatchingRuleDefinition) -> MatchingRuleDefinition {
  MatchingRuleDefinition { value: if a.value.is_empty() { b.value.clone() } else { a.value.clone() }, value_type: if rank(a.value_type) >= rank(b.value_type) { a.value_type } else { b.value_type },
    rules: a.rules.iter().chain(b.rules.iter()).cloned().collect(), generator: match (&a.generator, &b.generator) { (None, g) => g.clone(), (g, _) => g.clone() },
    expression: if a.expression.is_empty() { b.expression.clone() } else if b.expression.is_empty() || a.expression == b.expression { a.expression.clone() } else { format!("{}, {}", a.expression, b.expression) } }
}
/// semantic version: three numbers without leading zeros, an optional pre-release and an optional build part
fn is_semver(s: &str) -> bool {
  let (s, build) = match s.split_once('+') { Some((a, b)) => (a, Some(b)), None => (s, None) };
  let (core, pre) = match s.split_once('-') { Some((a, b)) => (a, Some(b)), None => (s, None) };
  let ident = |p: &str| !p.is_empty() && p.bytes().all(|c| c.is_ascii_alphanumeric() || c == b'-'); let num = |p: &str| !p.is_empty() && p.bytes().all(|c| c.is_ascii_digit()); let zero = |p: &str| p.len() > 1 && p.starts_with('0');
  core.split('.').count() == 3 && core.split('.').all(|p| num(p) && !zero(p) && p.parse::<u64>().is_ok()) && pre.map(|p| p.split('.').all(|p| ident(p) && !(num(p) && zero(p)))).unwrap_or(true) && build.map(|p| p.split('.').all(ident)).unwrap_or(true)
}

fn sp(r: &mut Rng) -> &'static str { *r.pick(&["", "", "", " ", " ", "  ", "\t", "\n ", "\u{c}"]) }
fn strlit(r: &mut Rng) -> String {
  let mut s = String::from("'");
  for _ in 0..r.below(6) { match r.below(14) {
    0 => s += "\\'", 1 => s += "\\\\", 2 => s += *r.pick(&["\\n", "\\b", "\\f", "\\r", "\\t"]), 3 => s += &format!("\\u{:04x}", r.below(0x10000)), 4 => s += &format!("\\u{{{:X}}}", r.below(0x120000)), 5 => s += *r.pick(&["\\u{}", "\\u12", "\\u{12", "\\uxyz1", "\\u{110000}", "\\uD800", "\\u{FFFFFFFF}", "\\u{100000000}", "\\u{000041}", "\\u0041}"]), 6 => { s.push('\\'); s.push(r.weird()); } 7 => { let c = r.weird(); if c != '\'' { s.push(c); } } 8 => s += &r.lit().replace('\'', ""), 9 => s += *r.pick(&["$.a", "yyyy-MM-dd", "\\d+", "1.0.0", "(", ",", ") ", "null", "fromProviderState"]), 10 => s += "\"", _ => s += *r.pick(&["a", "b1", "é", "日", " ", "x"]) } }
  s + "'"
}
fn number(r: &mut Rng) -> String { let i = match r.below(9) { 0 => r.next().to_string(), 1 => "18446744073709551616".into(), 2 => "9223372036854775808".into(), 3 => "007".into(), 4 => r.lit_num().to_string(), 5 => r.below(1000).to_string(), _ => r.below(10).to_string() };
  let mut s = if r.chance(1, 4) { format!("-{}", i.trim_start_matches('-')) } else { i }; if r.chance(2, 5) { s += "."; if r.chance(9, 10) { s += &format!("{}", r.below(1000)); } if r.chance(1, 12) { s += ".5"; } } else if r.chance(1, 20) { s += *r.pick(&[" .5", "e5", "x", "-1", ". 5", ".)"]); } s }
fn prim(r: &mut Rng, state: bool) -> String { match r.below(if state { 8 } else { 7 }) { 0 | 1 => strlit(r), 2 => "null".into(), 3 => (*r.pick(&["true", "false", "True", "truefalse"])).into(), 4..=6 => number(r), _ => ps(r) } }
fn ps(r: &mut Rng) -> String { let p = if r.chance(1, 12) { prim(r, true) } else { prim(r, false) }; let w = if r.chance(1, 12) { *r.pick(&["fromProviderStateX", "fromproviderstate", "fromProviderStat"]) } else { "fromProviderState" }; format!("{}{}({}{}{},{}{}{})", w, sp(r), sp(r), strlit(r), sp(r), sp(r), p, sp(r)) }
fn semver(r: &mut Rng) -> String { let n = |r: &mut Rng| match r.below(8) { 0 => "01".to_string(), 1 => String::new(), 2 => "x".into(), 3 => "18446744073709551616".into(), _ => r.below(30).to_string() }; let mut s = n(r); for _ in 0..if r.chance(1, 8) { r.below(4) } else { 2 } { s += "."; s += &if r.chance(3, 4) { r.below(20).to_string() } else { n(r) }; } if r.chance(1, 3) { s += "-"; s += *r.pick(&["alpha", "alpha.1", "0", "01", "a..b", "", "0a", "é", "-"]); } if r.chance(1, 4) { s += "+"; s += *r.pick(&["b", "001", "", "a.b", "+"]); } if r.chance(1, 15) { s.insert(0, ' '); } format!("'{}'", s) }
fn matcher(r: &mut Rng) -> String {
  let w = *r.pick(&["equalTo", "type", "number", "integer", "decimal", "datetime", "date", "time", "regex", "include", "boolean", "semver", "contentType"]);
  let s = |r: &mut Rng| { let s = strlit(r); format!("{}{}{}", sp(r), s, sp(r)) };
  let args = match w { "equalTo" | "type" => prim(r, true), "number" | "integer" | "decimal" => if r.chance(1, 4) { ps(r) } else if r.chance(1, 12) { prim(r, true) } else { number(r) },
    "datetime" | "date" | "time" => format!("{},{}{}", s(r), sp(r), if r.chance(1, 3) { ps(r) } else { strlit(r) }), "regex" | "contentType" => format!("{},{}", s(r), s(r)), "include" => s(r), "semver" => if r.chance(1, 9) { strlit(r) } else { semver(r) }, _ => if r.chance(5, 6) { (*r.pick(&["true", "false"])).into() } else { prim(r, true) } };
  format!("matching{}({}{}{},{}{}{})", sp(r), sp(r), w, sp(r), sp(r), args, sp(r))
}
fn expr(r: &mut Rng, depth: usize) -> String {
  match r.below(if depth == 0 { 8 } else { 11 }) { 0..=4 => matcher(r), 5 => format!("matching({}${}{})", sp(r), sp(r), strlit(r)), 6 => { let p = prim(r, true); format!("notEmpty{}({}{}{})", sp(r), sp(r), p, sp(r)) }
    7 => { let n = if r.chance(3, 4) { r.below(100).to_string() } else { number(r) }; format!("{}{}({}{})", r.pick(&["atLeast", "atMost"]), sp(r), n, sp(r)) } k => { let e = expr(r, depth - 1); format!("{}{}({}{}{})", if k == 8 { "eachKey" } else { "eachValue" }, sp(r), sp(r), e, sp(r)) } }
}
fn text(r: &mut Rng) -> String {
  let mut s = String::from(sp(r)); let n = match r.below(6) { 0..=2 => 1, 3 | 4 => 2, _ => 3 };
  for i in 0..n { if i > 0 { s += sp(r); s += ","; s += sp(r); } let d = r.below(3); s += &expr(r, d); } s += sp(r);
  if !r.chance(1, 3) { return s; }
  const W: [&str; 36] = ["matching", "notEmpty", "eachKey", "eachValue", "atLeast", "atMost", "(", ")", ",", "'", "$", "true", "null", "1", "-1", "1.5", ".5", "type", "regex", "x", "#", "é", "日本", "''", "'a'", "fromProviderState", "\\", ".", "-", "number", "matchingx", "trues", "99999999999999999999", "\r", "\u{a0}", "😀"];
  match r.below(6) { 0 => format!("{}{}", s, r.pick(&W)), 1 => format!("{} {}", s, r.pick(&W)), 2 => r.perturb(&s),
    3 => { let ch: Vec<char> = s.chars().collect(); let i = r.below(ch.len() + 1); ch[..i].iter().chain(r.pick(&W).chars().collect::<Vec<_>>().iter()).chain(ch[i..].iter()).collect() }
    4 => { let t = tokens(&s); if t.is_empty() { return s; } let i = r.below(t.len()); let j = (i + r.below(3)).min(t.len() - 1); format!("{}{}", &s[..t[i].at], &s[if t[j].k == K::Bad { s.len() } else { t[j].end }..]) }
    _ => { let ch: Vec<char> = s.chars().collect(); let i = r.below(ch.len() + 1); ch[..i].iter().collect() } }
}
fn show(d: &MatchingRuleDefinition) -> String { canon_def(d) }
fn one(c: &mut Ctx, v: String) {
  if v.contains("\\u") && v.contains('+') { return; } // whether a sign is a hex digit is left open
  c.case("parse", format!("matching rule definition {:?}", v), move || {
    let t = tokens(&v); let starts = matches!(t.first(), Some(T { k: K::Word(w), .. }) if START.contains(&w.as_str()));
    ens!(is_matcher_def(&v) == starts, "is_matcher_def({:?}) is {}", v, !starts);
    let want = P { t, i: 0, text: v.clone() }.all();
    match (parse_matcher_def(&v), want) {
      (Ok(d), Some(w)) => { ens!(show(&d) == show(&w), "{:?} gives {} instead of {}", v, show(&d), show(&w)); Ok(true) }
      (Ok(d), None) => Err(format!("{:?} is no definition, but gives {}", v, show(&d))),
      (Err(e), Some(w)) => Err(format!("{:?} should give {}, but fails: {}", v, show(&w), e)),
      (Err(_), None) => Ok(false) }
  });
}
pub fn c23(c: &mut Ctx) {
  let mut r = c.rng(23);
  for s in ["", " ", "matching", "matching(", "matching(type", "matching(type,", "matching(type,'Name'", "matching(type,'Name')", "matching(type,'Name') #", "matching(type,'Name') )", "matching(type,'Name'),", "matching(number,1.)", "matching(number,12.5)", "matching(number,12.x)", "matching(number,12.'a')", "matching(number,-12.25)", "matching(integer,1.5)", "matching(integer,12.5)", "matching(decimal,100)",
    "matching(decimal, fromProviderState('a', 1.5))", "matching(decimal, fromProviderState('a', 100))", "matching(type,'\\'quoted\\'')", "matching(type,'a\\nb')", "notEmpty('\\\\')", "notEmpty(null)", "matching(equalTo,'')", "matching(date,'yyyy',fromProviderStateX('a','b'))", "matching(date,'yyyy', fromProviderState('a','b'))", "matching(date,'yyyy',fromProviderState ('a', 100))", "matching(type, fromProviderState('a', fromProviderState('a', 1)))",
    "atLeast(1)", "atMost(18446744073709551615)", "atMost(18446744073709551616)", "atLeast(-1)", "atLeast(1.5)", "atLeast()", "eachKey(matching($'a'))", "eachValue(eachKey(notEmpty(1))), atLeast(1), atMost(2)", "eachValue(notEmpty(1), atLeast(1))", "matching($'')", "matching($a)", "matching(semver,'1.0.0')", "matching(semver,'1.0')", "matching(boolean,True)", "matching(contentType,'a/b','c')", "type", "Matching(type,'a')", "matching (\ttype\n,\u{c}'a' ) ", "matching(type,'a'),matching(number,1),matching(date,'y','x')", "matching(type,1),matching(number,2.5)", "notEmpty(true),matching(number,3)", "é", "matching(type,é)", "matching(type,'日本' 日本", "日本matching(type,'a')", "matching(type,'a'\r)", "matching(type,'a' 'b')", "matching(type,'\\')", "matching(type,'"] { one(c, s.to_string()); }
  let types = [ValueType::Unknown, ValueType::String, ValueType::Number, ValueType::Integer, ValueType::Decimal, ValueType::Boolean];
  for a in types { for b in types { let want = if rank(a) >= rank(b) { a } else { b };
    c.case("types", format!("{:?} merged with {:?}", a, b), move || { ens!(a.merge(b) == want, "{:?} merged with {:?} is {:?} and not {:?}", a, b, a.merge(b), want); Ok(true) }); } }
  for t in types { c.case("types", format!("data type of {:?}", t), move || { let want = match t { ValueType::Unknown => DataType::RAW, ValueType::String => DataType::STRING, ValueType::Integer => DataType::INTEGER, ValueType::Boolean => DataType::BOOLEAN, _ => DataType::DECIMAL }; let d: DataType = t.into(); ens!(d == want, "{:?} has data type {:?} and not {:?}", t, d, want); Ok(true) }); }
  for _ in 0..c.n(40000) { if c.stop() { return; }
    let s = text(&mut r); one(c, s);
    let (a, b) = (crate::gen::definition(&mut r, 1), crate::gen::definition(&mut r, 1));
    c.case("merge", format!("{} merged with {}", show(&a), show(&b)), move || { let (got, want) = (a.merge(&b), joined(&a, &b)); ens!(show(&got) == show(&want), "gives {} instead of {}", show(&got), show(&want)); Ok(true) });
  }
}
