//! C07 the values generators produce
use crate::fw::*;
use crate::gen;
use chrono::{DateTime, Duration, Local, NaiveDateTime, TimeZone};
use pact_models::generators::{GenerateValue, Generator, NoopVariantMatcher, UuidFormat, VariantMatcher, generate_ascii_string, generate_decimal, generate_hexadecimal};
use pact_models::matchingrules::MatchingRuleCategory;
use pact_models::path_exp::DocPath;
use serde_json::{json, Map, Value};
use std::collections::{BTreeSet, HashMap};

type M = Box<dyn VariantMatcher + Send + Sync>;
type Ctxt = HashMap<&'static str, Value>;
fn m() -> M { NoopVariantMatcher.boxed() }
fn text(g: &Generator, c: &Ctxt) -> Result<String, String> { GenerateValue::<String>::generate_value(g, &"was".to_string(), c, &m()).map_err(|e| e.to_string()) }
fn js(g: &Generator, v: &Value, c: &Ctxt) -> Result<Value, String> { GenerateValue::<Value>::generate_value(g, v, c, &m()).map_err(|e| e.to_string()) }
fn small(g: &Generator, c: &Ctxt) -> Result<u16, String> { GenerateValue::<u16>::generate_value(g, &7, c, &m()).map_err(|e| e.to_string()) }
fn list(g: &Generator, v: Vec<String>, c: &Ctxt) -> Result<Vec<String>, String> { GenerateValue::<Vec<String>>::generate_value(g, &v, c, &m()).map_err(|e| e.to_string()) }
/// a value of each JSON type
fn place(r: &mut Rng) -> Value { match r.below(6) { 0 => Value::Null, 1 => json!(true), 2 => json!(12), 3 => json!("was"), 4 => json!([1]), _ => json!({ "a": 1 }) } }
fn st(v: Value) -> Result<String, String> { match v { Value::String(s) => Ok(s), v => Err(format!("{} is not a text", v)) } }
fn ints(c: &mut Ctx, r: &mut Rng) {
  let lim = |r: &mut Rng| -> i32 { match r.below(9) { 0 => i32::MAX, 1 => i32::MIN, 2 => 0, 3 => 65535 + r.range(-2, 2) as i32, 4 => r.range(-3, 3) as i32, 5 => r.next() as i32, 6 => r.lit_num() as i32, 7 => i32::MAX - 1, _ => r.range(-100, 700) as i32 } };
  let a = lim(r); let b = if r.chance(1, 2) { a.saturating_add(r.range(-1, 3) as i32) } else { lim(r) };
  let g = Generator::RandomInt(a, b); let e = Ctxt::new();
  c.case("integer", format!("RandomInt({}, {})", a, b), move || {
    let close = (b as i64 - a as i64) < 4; let mut seen: BTreeSet<i64> = BTreeSet::new(); let mut seen16: BTreeSet<i64> = BTreeSet::new();
    let (lo, hi) = (a.max(0), b.min(65535));
    for k in 0..if close { 120 } else { 6 } {
      if a > b { ens!(text(&g, &e).is_err() && js(&g, &json!(1), &e).is_err() && small(&g, &e).is_err(), "there is a value with min > max"); }
      else {
        let s = text(&g, &e)?; let n: i64 = s.parse().map_err(|_| format!("{:?} is not an integer", s))?; ens!(n >= a as i64 && n <= b as i64 && s == n.to_string(), "text {:?} is not between {} and {}", s, a, b); seen.insert(n);
        let v = match k % 3 { 0 => js(&g, &json!(1), &e)?, 1 => js(&g, &json!([]), &e)?, _ => js(&g, &Value::Null, &e)? };
        ens!(v.as_i64().map_or(false, |n| n >= a as i64 && n <= b as i64), "value {} is not an integer between {} and {}", v, a, b); seen.insert(v.as_i64().unwrap());
        let s = st(js(&g, &json!("1"), &e)?)?; ens!(s.parse::<i64>().map_or(false, |n| n >= a as i64 && n <= b as i64), "JSON text {:?} is not between {} and {}", s, a, b);
        let v = list(&g, vec!["1".into(), "2".into()], &e)?; ens!(v.len() == 1 && v[0].parse::<i64>().map_or(false, |n| n >= a as i64 && n <= b as i64), "list {:?} is not one number between {} and {}", v, a, b);
        match small(&g, &e) { Ok(n) => { ens!(lo <= hi && n as i32 >= lo && n as i32 <= hi, "u16 {} is not between {} and {}", n, a, b); seen16.insert(n as i64); } Err(w) => ens!(lo > hi, "no u16 although there are numbers between {} and {}: {}", a, b, w) }
      }
    }
    if close && a <= b { for n in a as i64..=b as i64 { ens!(seen.contains(&n), "{} is never generated in {} values", n, 240); if lo <= hi && n >= lo as i64 && n <= hi as i64 && hi - lo < 2 { ens!(seen16.contains(&n), "{} is never generated as u16", n); } } }
    Ok(a <= b)
  });
}
fn decimal_ok(s: &str, n: usize) -> bool {
  let digits = s.chars().filter(char::is_ascii_digit).count(); let dots = s.chars().filter(|c| *c == '.').count();
  match n { 0 => s.is_empty(), 1 => s.len() == 1 && digits == 1, _ => { s.len() == n + 1 && digits == n && dots == 1 && !s.starts_with('.') && !s.ends_with('.') && (!s.starts_with('0') || s.as_bytes()[1] == b'.') } }
}
fn strings(c: &mut Ctx, r: &mut Rng) {
  let e = Ctxt::new(); let n = match r.below(10) { 0 => 0u16, 1 => 1, 2 => 2, 3 => 3, 4 => 17 + r.below(30) as u16, 5 => r.below(400) as u16, 6 => 16, 7 => r.lit_num().min(3000) as u16, _ => 4 + r.below(8) as u16 };
  let pl = place(r); let p = pl.clone(); let e1 = e.clone();
  c.case("decimal", format!("RandomDecimal({}) for {}", n, p), move || { let g = Generator::RandomDecimal(n); let k = n as usize; let mut all = BTreeSet::new();
    for _ in 0..12 {
      let s = generate_decimal(k); ens!(decimal_ok(&s, k), "{:?} is not a decimal of {} digits", s, k); all.insert(s);
      let s = text(&g, &e1)?; ens!(decimal_ok(&s, k), "text {:?} is not a decimal of {} digits", s, k);
      match js(&g, &p, &e1) {
        Ok(Value::Number(v)) => { ens!(p.is_number() && k > 0, "a number {} is generated for {}", v, p); let f = v.as_f64().unwrap(); ens!(f >= 0.0 && (k > 250 || f < 10f64.powi(k as i32)), "number {} is not a decimal of {} digits", v, k); if k < 12 && k > 2 { let s = format!("{:?}", f); ens!(s.chars().filter(char::is_ascii_digit).count() <= k, "number {} has more than {} digits", s, k); } }
        Ok(Value::String(s)) => ens!(!p.is_number() && decimal_ok(&s, k), "JSON text {:?} for {} is not a decimal of {} digits", s, p, k),
        Ok(v) => ens!(k > 300 && v.is_null(), "{} generated", v),
        Err(w) => ens!(p.is_number() && k == 0, "no decimal: {}", w) } }
    if n >= 8 { ens!(all.len() > 1, "always the same decimal {:?}", all); ens!(n < 10 || all.iter().map(|s| s.find('.')).collect::<BTreeSet<_>>().len() > 1, "the point is always at the same place: {:?}", all); }
    Ok(n > 0) });
  let p = pl.clone(); let e1 = e.clone();
  c.case("hexadecimal", format!("RandomHexadecimal({}) for {}", n, p), move || { let g = Generator::RandomHexadecimal(n); let k = n as usize; let mut all = BTreeSet::new(); let mut seen = BTreeSet::new();
    for i in 0..12 { let s = match i % 3 { 0 => generate_hexadecimal(k), 1 => text(&g, &e1)?, _ => st(js(&g, &p, &e1)?)? };
      ens!(s.len() == k && s.chars().all(|c| c.is_ascii_digit() || ('A'..='F').contains(&c)), "{:?} is not {} upper case hexadecimal digits", s, k); seen.extend(s.chars()); all.insert(s); }
    if n >= 8 { ens!(all.len() > 1, "always the same digits {:?}", all); } if n >= 40 { ens!(seen.len() == 16, "only the digits {:?} occur in {} digits", seen, 12 * k); } Ok(n > 0) });
  let p = pl.clone(); let e1 = e.clone();
  c.case("string", format!("RandomString({}) for {}", n, p), move || { let g = Generator::RandomString(n); let k = n as usize; let mut all = BTreeSet::new();
    for i in 0..8 { let s = match i % 3 { 0 => generate_ascii_string(k), 1 => text(&g, &e1)?, _ => st(js(&g, &p, &e1)?)? };
      ens!(s.len() == k && s.chars().all(|c| c.is_ascii_alphanumeric()), "{:?} is not {} ASCII letters and digits", s, k); all.insert(s); }
    if n >= 8 { ens!(all.len() > 1, "always the same text {:?}", all); } Ok(n > 0) });
  let f = match r.below(5) { 0 => None, 1 => Some(UuidFormat::Simple), 2 => Some(UuidFormat::LowerCaseHyphenated), 3 => Some(UuidFormat::UpperCaseHyphenated), _ => Some(UuidFormat::Urn) }; let p = pl.clone(); let e1 = e.clone();
  c.case("uuid", format!("Uuid({:?}) for {}", f, p), move || { let g = Generator::Uuid(f); let mut all = BTreeSet::new();
    for i in 0..3 { let s = match i { 0 => text(&g, &e1)?, 1 => st(js(&g, &p, &e1)?)?, _ => list(&g, vec![], &e1)?.concat() };
      let t = match f { Some(UuidFormat::Urn) => s.strip_prefix("urn:uuid:").ok_or(format!("{:?} is not a URN", s))?, _ => s.as_str() };
      let hy = !matches!(f, Some(UuidFormat::Simple)); let up = matches!(f, Some(UuidFormat::UpperCaseHyphenated));
      let groups: Vec<&str> = t.split('-').collect(); if hy { ens!(groups.iter().map(|g| g.len()).collect::<Vec<_>>() == [8, 4, 4, 4, 12], "{:?} is not hyphenated", s); } else { ens!(t.len() == 32, "{:?} is not a simple UUID", s); }
      let hex = groups.concat(); ens!(hex.chars().all(|c| c.is_ascii_digit() || (if up { 'A'..='F' } else { 'a'..='f' }).contains(&c)), "{:?} has other characters", s);
      ens!(hex.as_bytes()[12] == b'4' && b"89abAB".contains(&hex.as_bytes()[16]), "{:?} is not a version 4 UUID", s); all.insert(hex.to_lowercase()); }
    ens!(all.len() == 3, "the same UUID twice: {:?}", all); Ok(true) });
}
fn booleans(c: &mut Ctx, r: &mut Rng) {
  let p = place(r); let e = Ctxt::new();
  c.case("boolean", format!("RandomBoolean for {}", p), move || { let g = Generator::RandomBoolean; let (mut t, mut f, mut t2, mut f2) = (0, 0, 0, 0);
    for _ in 0..120 { match js(&g, &p, &e)? { Value::Bool(true) => t += 1, Value::Bool(false) => f += 1, v => return Err(format!("{} is not a boolean", v)) } match text(&g, &e)?.as_str() { "true" => t2 += 1, "false" => f2 += 1, v => return Err(format!("{:?} is not a boolean", v)) } }
    ens!(t > 0 && f > 0 && t2 > 0 && f2 > 0, "not every boolean occurs"); Ok(true) });
}
/// a regular expression and whether it is anchored
fn pattern(r: &mut Rng, depth: usize) -> String {
  let n = 1 + r.below(3); let mut s = String::new();
  for _ in 0..n {
    match r.below(if depth == 0 { 6 } else { 8 }) { 0 => s += *r.pick(&["\\d", "\\w", "[a-f]", "[0-9A-F]", "\\s", "[^a]", "."]), 1 => s += *r.pick(&["\\$", "\\^", "\\\\", "\\.", "\\/", "\\-"]), 2 => s += &gen::word(r), 3 => s += *r.pick(&["/", "-", "é", " ", ":"]), 4 | 5 => s += *r.pick(&["a", "b", "1"]),
      6 => { let p = pattern(r, depth - 1); s += "("; if r.chance(1, 3) { s += "?:" } s += &p; if r.chance(1, 2) { s += "|"; s += &pattern(r, depth - 1); } s += ")" } _ => { let p = pattern(r, depth - 1); s += "(?:"; s += &p; s += ")" } }
    if r.chance(1, 3) { s += *r.pick(&["?", "*", "+", "{2}", "{1,3}", "{0,1}"]); }
  }
  s
}
fn regexes(c: &mut Ctx, r: &mut Rng) {
  let fixed = ["\\d+\\$", "^\\d+\\$", "^a", "a$", "^a$", "\\\\$", "^\\\\\\$", "\\^a", "", "^", "$", "^$", "a{2}", "(a|b)$", "$a", "a^b", "[", "(", "\\b", "\\$", "\\\\\\\\$", "^\\d{4}-\\d{2}$"];
  let (pre, body, post) = if r.chance(1, 6) { (false, r.pick(&fixed).to_string(), false) } else { (r.chance(1, 3), pattern(r, 2), r.chance(1, 3)) };
  let re = format!("{}{}{}", if pre { "^" } else { "" }, body, if post { "$" } else { "" }); let p = place(r); let e = Ctxt::new();
  c.case("regex", format!("Regex({:?}) for {}", re, p), move || { let g = Generator::Regex(re.clone());
    let free = |s: &str| !s.contains("\\b") && !s.contains('.') && !s.contains("[^") && s.is_ascii(); // the generator reads expressions as ASCII and has no word boundaries
    let want = regex::Regex::new(&format!("^(?:{})$", re)); let inner = { let t = re.strip_prefix('^').unwrap_or(&re); let n = t.chars().rev().skip(1).take_while(|c| *c == '\\').count(); if t.ends_with('$') && n % 2 == 0 { t[..t.len() - 1].to_string() } else { t.to_string() } };
    let anchors = { let mut esc = false; let mut a = false; let mut set = false; for c in inner.chars() { if esc { esc = false; continue; } match c { '\\' => esc = true, '[' => set = true, ']' => set = false, '^' | '$' if !set => a = true, _ => {} } } a };
    let mut some = false;
    for i in 0..4 { let v = match i % 2 { 0 => text(&g, &e), _ => js(&g, &p, &e).and_then(st) };
      match (v, &want) { (Ok(s), Ok(w)) => { some = true; ens!(w.is_match(&s), "{:?} does not match", s); } (Err(_), Err(_)) => {} (Ok(s), Err(_)) => return Err(format!("{:?} generated from an invalid expression", s)), (Err(w), Ok(_)) => ens!(anchors || !free(&re), "no value: {}", w) } }
    Ok(some) });
}
/// strings for the mock server cases
fn urls(c: &mut Ctx, r: &mut Rng) {
  let ex = r.pick(&["http://localhost:1234/path", "http://localhost:1234/path/path", "/path", "", "http://a/é/path?q=$1", "http://h/pacts/for-verification"]).to_string();
  let re = r.pick(&[".*(/path)$", ".*(\\/pacts\\/for-verification)$", "http://[^/]*(/.*)", "(/path)", "/path", "(nothing)", "(x)?/path", ".*", "[", "", "(/p)(ath)", "http://localhost:1234(.*)", "(a)|path"]).to_string();
  let url = r.pick(&["http://192.168.2.1:2345/p", "http://127.0.0.1:38055", "", "http://$1/${a}", "é$0"]).to_string();
  let ms = match r.below(7) { 0 => None, 1 => Some(json!(url)), 2 => Some(json!({ "port": 1 })), 3 => Some(json!({ "href": url, "port": 1 })), 4 => Some(json!({ "url": url, "href": "http://other" })), 5 => Some(json!({ "url": url, "port": 1 })), _ => Some(json!([url])) };
  let mut cx = Ctxt::new(); if let Some(v) = &ms { cx.insert("mockServer", v.clone()); } if r.chance(1, 3) { cx.insert("providerState", json!({ "mockServer": { "url": "no" }, "url": "no" })); } cx.insert("url", json!("http://no"));
  let p = place(r);
  c.case("url", format!("MockServerURL({:?}, {:?}) with {} for {}", ex, re, ms.as_ref().map(|v| v.to_string()).unwrap_or("nothing".into()), p), move || {
    let g = Generator::MockServerURL(ex.clone(), re.clone()); let known = matches!(&ms, Some(Value::Object(m)) if m.contains_key("url") || m.contains_key("href"));
    let want = if !known { None } else { regex::Regex::new(&re).ok().map(|x| match x.captures(&ex) { None => ex.clone(), Some(k) => { let w = k.get(0).unwrap(); format!("{}{}{}{}", &ex[..w.start()], url, k.get(1).map_or("", |m| m.as_str()), &ex[w.end()..]) } }) };
    for i in 0..3 { let v = match i { 0 => text(&g, &cx), 1 => js(&g, &p, &cx).and_then(st), _ => list(&g, vec!["x".into(), "y".into()], &cx).map(|v| if v.len() == 1 { v[0].clone() } else { format!("{:?}", v) }) };
      ens!(v.as_ref().ok() == want.as_ref(), "got {:?}, want {:?}", v, want); }
    ens!(small(&g, &cx).is_err(), "a u16 is generated from a URL"); Ok(want.is_some()) });
}
/// a matcher that takes the variant an item names
#[derive(Clone, Debug)]
struct ByName;
impl VariantMatcher for ByName {
  fn find_matching_variant(&self, v: &Value, vs: &Vec<(usize, MatchingRuleCategory, HashMap<DocPath, Generator>)>) -> Option<(usize, HashMap<DocPath, Generator>)> { let n = v.get("n").and_then(|n| n.as_u64())?; vs.iter().find(|(i, _, _)| *i as u64 == n).map(|(i, _, g)| (*i, g.clone())) }
  fn boxed(&self) -> M { Box::new(self.clone()) }
}
fn arrays(c: &mut Ctx, r: &mut Rng) {
  let nv = r.below(4); let mut vars = vec![]; let mut plan: Vec<Vec<(String, String)>> = vec![];
  for i in 0..nv { let mut g = HashMap::new(); let mut pl = vec![]; for f in ["a", "b", "missing"] { if r.chance(1, 2) { let val = format!("{}{}", f, i); g.insert(DocPath::root().join_field(f), Generator::ProviderStateGenerator(format!("{}-${{k}}", val), None)); pl.push((f.to_string(), format!("{}-K", val))); } } if r.chance(1, 4) { g.insert(DocPath::root().join_field("n"), Generator::ProviderStateGenerator("${no}".into(), None)); } vars.push((i, MatchingRuleCategory::empty("body"), g)); plan.push(pl); }
  let n = r.below(6); let items: Vec<Value> = (0..n).map(|_| match r.below(6) { 0 => r.pick(&[json!(1), json!(0), json!(-1.5), Value::Null, json!(false), json!(true), json!(""), json!("n"), json!([]), json!({}), json!([{"n": 0}])]).clone(), 1 => json!({ "a": 1, "b": 2 }), 2 => gen::json(r, 2), _ => json!({ "n": r.below(5), "a": r.below(3), "b": { "c": 1 } }) }).collect();
  let v = if r.chance(1, 8) { place(r) } else { Value::Array(items) };
  c.case("array", format!("{} with {} variants {:?}", v, nv, plan), move || { let g = Generator::ArrayContains(vars.clone()); let cx: Ctxt = [("k", json!("K"))].into_iter().collect();
    let got = GenerateValue::<Value>::generate_value(&g, &v, &cx, &ByName.boxed());
    let Value::Array(items) = &v else { ens!(got.is_err(), "a value {:?} although {} is not a list", got, v); return Ok(false) };
    let want: Vec<Value> = items.iter().map(|i| { let mut o = i.clone(); if let Some(n) = i.get("n").and_then(|n| n.as_u64()) { if let Some(pl) = plan.get(n as usize) { for (f, t) in pl { if let Some(x) = o.get_mut(f) { *x = json!(t); } } } } o }).collect();
    eqv!(got.map_err(|e| e.to_string())?, Value::Array(want.clone()), "generated list"); ens!(text(&g, &cx).is_err() && small(&g, &cx).is_err(), "a text or number is generated by ArrayContains");
    Ok(want != *items) });
}
fn dates(c: &mut Ctx, r: &mut Rng) {
  let secs = r.range(-2_000_000_000, 6_000_000_000); let base: DateTime<Local> = Local.timestamp_opt(secs, (r.below(1000) as u32) * 1_000_000).unwrap(); let kind = r.below(3);
  // pattern and its chrono form; None when it can not be used
  let pats: &[(&str, Option<&str>, usize)] = &[("yyyy-MM-dd", Some("%Y-%m-%d"), 3), ("dd/MM/yy", Some("%d/%m/%y"), 3), ("HH:mm:ss", Some("%H:%M:%S"), 2), ("yyyy-MM-dd'T'HH:mm:ss.SSSZ", Some("%Y-%m-%dT%H:%M:%S.%3f%z"), 2), ("hh:mm a", Some("%I:%M %p"), 2), ("EEE, d MMM yyyy", Some("%a, %d %b %Y"), 3), ("yyyy'%'MM", Some("%Y%%%m"), 3), ("", None, 0), ("SSSS", None, 0), ("'", None, 0), ("yyyy{", None, 0), ("HH:mm:ss.SSSSSSSSSSSS", None, 0)];
  let pat = if r.chance(1, 4) { None } else { Some(*r.pick(pats)) };
  let exprs: &[(&str, i64, i64, bool)] = &[("+1 day", 1, 0, true), ("+ 2 weeks", 14, 0, true), ("-3 days", -3, 0, true), ("now", 0, 0, true), ("yesterday", -1, 0, true), ("tomorrow", 1, 0, true), ("today + 10 days", 10, 0, true), ("", 0, 0, true), ("+1 fortnight", 0, 0, false), ("rubbish", 0, 0, false)];
  let texprs: &[(&str, i64, i64, bool)] = &[("+1 hour", 0, 3600, true), ("- 30 minutes", 0, -1800, true), ("now", 0, 0, true), ("", 0, 0, true), ("+1 hour + 5 seconds", 0, 3605, true), ("+1 day", 0, 0, false)];
  let dtexprs: &[(&str, i64, i64, bool)] = &[("+1 day", 1, 0, true), ("+1 day @ +1 hour", 1, 3600, true), ("-1 day @ now", -1, 0, true), ("now @ -10 minutes", 0, -600, true), ("", 0, 0, true), ("x @ +1 hour", 0, 0, false), ("now @ x", 0, 0, false)];
  let ex = if r.chance(1, 4) { None } else { Some(*r.pick(match kind { 0 => exprs, 1 => texprs, _ => dtexprs })) };
  let mut cx = Ctxt::new(); let key = ["baseDate", "baseTime", "baseDateTime"][kind]; let bad = r.chance(1, 12); let shape = r.below(3);
  cx.insert(key, if bad { r.pick(&[json!("no date"), json!(5), Value::Null]).clone() } else { match shape { 0 => json!(base.to_rfc3339()), 1 => json!(base.to_string()), _ => json!(base.with_timezone(&chrono::Utc).to_rfc3339()) } });
  for k in ["baseDate", "baseTime", "baseDateTime"] { if k != key && r.chance(1, 2) { cx.insert(k, json!("2001-02-03T04:05:06+00:00")); } }
  let p = place(r); let (f, x) = (pat.map(|p| p.0.to_string()), ex.map(|e| e.0.to_string()));
  let g = match kind { 0 => Generator::Date(f, x), 1 => Generator::Time(f, x), _ => Generator::DateTime(f, x) };
  c.case("date", format!("{:?} from {} for {}", g, cx[key], p), move || {
    let at = ex.map_or(base, |e| base + Duration::days(e.1) + Duration::seconds(e.2)); let naive: NaiveDateTime = at.naive_local();
    let need = if kind == 0 { 3 } else { 2 };
    let want = if bad || ex.map_or(false, |e| !e.3) { None } else { match pat { None => Some(match kind { 0 => naive.date().format("%Y-%m-%d").to_string(), 1 => naive.format("%H:%M:%S").to_string(), _ => at.format("%Y-%m-%dT%H:%M:%S.%3f%z").to_string() }), Some((_, Some(k), n)) if n >= need => Some(at.format(k).to_string()), _ => None } };
    for i in 0..3 { let v = match i { 0 => text(&g, &cx), 1 => js(&g, &p, &cx).and_then(st), _ => list(&g, vec![], &cx).map(|v| v.concat()) }; ens!(v.as_ref().ok() == want.as_ref(), "got {:?}, want {:?}", v, want); }
    ens!(small(&g, &cx).is_err(), "a u16 is generated"); Ok(want.is_some()) });
  // without a base: now
  if r.chance(1, 20) { let kind = r.below(3); c.case("now", format!("kind {}", kind), move || { let g = match kind { 0 => Generator::Date(Some("yyyy-MM-dd".into()), None), 1 => Generator::Time(Some("HH:mm".into()), None), _ => Generator::DateTime(Some("yyyy-MM-dd HH:mm".into()), None) }; let fm = ["%Y-%m-%d", "%H:%M", "%Y-%m-%d %H:%M"][kind];
    let a = Local::now().format(fm).to_string(); let t = text(&g, &Ctxt::new())?; let v = st(js(&g, &Value::Null, &Ctxt::new())?)?; let b = Local::now().format(fm).to_string(); ens!((t == a || t == b) && (v == a || v == b), "{:?} and {:?} are not the present time {:?}", t, v, b); Ok(true) }); }
  // any pattern gives a value or an error
  let pat = match r.below(3) { 0 => r.string(&['y', 'M', 'd', 'H', 'h', 'm', 's', 'S', 'a', 'E', 'Z', 'X', 'z', 'V', 'W', 'w', 'D', 'F', 'u', 'k', 'K', 'n', 'A', 'N', 'G', 'L', 'x', '\'', '%', '-', ':', 'é', 'Y', 'e', 'c', 'O', 'Q', 'p', '[', ']'], 8), 1 => { let ch = *r.pick(&['y', 'M', 'S', 'n', 'H', 'E', 'Z', 'X', 'V', 'A']); ch.to_string().repeat(1 + r.below(12)) } _ => gen::text(r) };
  let ex = match r.below(4) { 0 => None, 1 => Some(format!("{} {} {}", r.pick(&["+", "-", "now +", "now @ +"]), r.lit_num(), r.pick(&["days", "months", "years", "weeks", "hours", "seconds", "ms"]))), 2 => Some(r.perturb("now @ +1 hour")), _ => None };
  c.case("pattern", format!("{:?} {:?}", pat, ex), move || { let mut some = false; for g in [Generator::Date(Some(pat.clone()), None), Generator::Time(Some(pat.clone()), None), Generator::DateTime(Some(pat.clone()), None)] { let a = text(&g, &Ctxt::new()); let b = js(&g, &Value::Null, &Ctxt::new()); some |= a.is_ok(); ens!(a.is_ok() == b.is_ok(), "{:?} and {:?}", a, b); } let _ = &ex; Ok(some) });
}
fn others(c: &mut Ctx, r: &mut Rng) {
  // the first text of a list, or an empty one; generators without a number
  let v: Vec<String> = (0..r.below(3)).map(|_| gen::text(r)).collect(); let cx: Ctxt = [("k", json!(r.below(70000))), ("t", json!("é"))].into_iter().collect();
  c.case("list", format!("{:?} {:?}", v, cx["k"]), move || { let g = Generator::ProviderStateGenerator("x-${k}${t}".into(), None); eqv!(list(&g, v.clone(), &cx)?, vec![format!("x-{}é", cx["k"])], "list");
    let g = Generator::ProviderStateGenerator("${k}".into(), None); eqv!(small(&g, &cx).ok().map(|n| n as u64), Some(cx["k"].as_u64().unwrap()).filter(|n| *n <= 65535), "u16");
    for g in [Generator::Uuid(None), Generator::RandomBoolean, Generator::RandomString(3), Generator::RandomDecimal(3), Generator::RandomHexadecimal(3), Generator::Regex("\\d".into()), Generator::ProviderStateGenerator("${t}".into(), None)] { ens!(small(&g, &cx).is_err(), "a u16 from {:?}", g); }
    let mut o = Map::new(); o.insert("k".into(), json!("v")); ens!(js(&Generator::ArrayContains(vec![]), &Value::Object(o), &cx).is_err(), "a value for an object"); Ok(true) });
}
pub fn c07(c: &mut Ctx) {
  let mut r = c.rng(7);
  for i in 0..c.n(4000) {
    if c.stop() { return; }
    ints(c, &mut r); regexes(c, &mut r); urls(c, &mut r); arrays(c, &mut r); dates(c, &mut r); others(c, &mut r);
    if i % 2 == 0 { strings(c, &mut r); } if i % 40 == 0 { booleans(c, &mut r); }
  }
}
