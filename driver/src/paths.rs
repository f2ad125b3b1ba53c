//! C01 path expressions round trip, C02 path parser totality, C03 path weight
use crate::fw::*;
use pact_models::path_exp::{DocPath, PathToken};

pub fn alphabet() -> Vec<char> { "abZ_019$.*[]'\\\"-:#@ /~é²Ⅷ漢😀\n\t%+!\u{0}".chars().collect() }
fn is_ident(s: &str) -> bool { let mut c = s.chars(); match c.next() { Some(x) => (x == '_' || x.is_ascii_alphabetic()) && c.all(|y| y == '_' || y.is_ascii_alphanumeric()), None => false } }
pub fn render_tok(t: &PathToken) -> String { match t { PathToken::Root => "$".into(), PathToken::Field(f) => if is_ident(f) { format!(".{}", f) } else { format!("['{}']", f.replace('\\', "\\\\").replace('\'', "\\'")) }, PathToken::Index(i) => format!("[{}]", i), PathToken::Star => ".*".into(), PathToken::StarIndex => "[*]".into() } }
pub fn render(t: &[PathToken]) -> String { t.iter().map(render_tok).collect() }
fn build(t: &[PathToken]) -> DocPath { let mut p = DocPath::root(); for x in &t[1..] { p.push(x.clone()); } p }

/// what must hold of any path that is said to hold the given steps
fn path_is(p: &DocPath, want: &[PathToken], what: &str) -> Result<bool, String> {
  eqv!(p.tokens().as_slice(), want, format!("{}: steps", what));
  eqv!(p.len(), want.len(), format!("{}: len", what));
  let s = p.to_string();
  eqv!(String::from(p), s, format!("{}: into String", what));
  if want.is_empty() { return Ok(false); }
  let q = DocPath::new(s.clone()).map_err(|e| format!("{}: printed as {:?} which does not parse: {}", what, s, e))?;
  eqv!(q.tokens().as_slice(), want, format!("{}: steps of the parsed text {:?}", what, s));
  ens!(q == *p, "{}: {:?} parses to a path not equal to the one printed", what, s);
  let v = serde_json::to_value(p).map_err(|e| format!("{}: serialise {}", what, e))?;
  let d: DocPath = serde_json::from_value(v.clone()).map_err(|e| format!("{}: {} does not deserialise: {}", what, v, e))?;
  eqv!(d.tokens().as_slice(), want, format!("{}: steps after serialisation", what));
  let fields: Vec<&str> = want.iter().filter_map(|t| if let PathToken::Field(f) = t { Some(f.as_str()) } else { None }).collect();
  eqv!(p.first_field(), fields.first().copied(), "first_field");
  eqv!(p.last_field(), fields.last().copied(), "last_field");
  eqv!(p.last(), want.last().cloned(), "last");
  eqv!(p.is_root(), want == [PathToken::Root], "is_root");
  eqv!(p.is_wildcard(), want.last() == Some(&PathToken::Star), "is_wildcard");
  eqv!(p.to_vec(), want.iter().map(|t| match t { PathToken::Root => "$".to_string(), PathToken::Field(f) => f.clone(), PathToken::Index(i) => i.to_string(), PathToken::Star => "*".into(), PathToken::StarIndex => "[*]".into() }).collect::<Vec<_>>(), "to_vec");
  Ok(want.len() > 1)
}
fn ops(base: &[PathToken], t: &PathToken, other: &[PathToken]) -> Result<bool, String> {
  let p = build(base);
  path_is(&p, base, "built")?;
  path_is(&DocPath::from_tokens(base.to_vec()), base, "from_tokens")?;
  let mut w = base.to_vec(); w.push(t.clone());
  let mut q = p.clone(); q.push(t.clone()); path_is(&q, &w, "push")?;
  let mut q = p.clone();
  match t {
    PathToken::Field(f) => {
      q.push_field(f.clone()); path_is(&q, &w, "push_field")?;
      let mut wj = base.to_vec(); if wj.last() == Some(&PathToken::Star) { wj.pop(); } wj.push(t.clone());
      path_is(&p.join_field(f.clone()), &wj, "join_field")?;
      let jt = if f == "*" { PathToken::Star } else if f == "[*]" { PathToken::StarIndex } else if let Ok(n) = f.parse::<usize>() { PathToken::Index(n) } else { t.clone() };
      let mut wj = base.to_vec(); wj.push(jt); path_is(&p.join(f.clone()), &wj, "join")?;
    }
    PathToken::Index(i) => {
      q.push_index(*i); path_is(&q, &w, "push_index")?;
      let mut wj = base.to_vec(); if matches!(wj.last(), Some(PathToken::Star | PathToken::StarIndex)) { wj.pop(); } wj.push(t.clone());
      path_is(&p.join_index(*i), &wj, "join_index")?;
      path_is(&p.join(i.to_string()), &w, "join index text")?;
    }
    PathToken::Star => { q.push_star(); path_is(&q, &w, "push_star")?; path_is(&p.join("*"), &w, "join *")?; }
    PathToken::StarIndex => { q.push_star_index(); path_is(&q, &w, "push_star_index")?; path_is(&p.join("[*]"), &w, "join [*]")?; }
    PathToken::Root => {}
  }
  let o = build(other); let mut q = p.clone(); q.push_path(&o);
  let mut w = base.to_vec(); w.extend(other.iter().filter(|t| **t != PathToken::Root).cloned());
  path_is(&q, &w, "push_path")?;
  match p.parent() { None => ens!(base.len() <= 1, "no parent for {:?}", base), Some(x) => { ens!(base.len() > 1, "parent of {:?}", base); path_is(&x, &base[..base.len() - 1], "parent")?; } }
  for n in [0, 1, 2, base.len() - 1, base.len(), base.len() + 3] {
    let k = base.len().saturating_sub(n); let want = if k == 0 { vec![PathToken::Root] } else { base[..k].to_vec() };
    path_is(&p.drop(n), &want, "drop")?;
  }
  Ok(true)
}
pub fn rand_tok(r: &mut Rng, al: &[char], field: bool) -> PathToken {
  match r.below(if field { 5 } else { 4 }) { 0 => PathToken::Index(match r.below(5) { 0 => usize::MAX, 1 => r.next() as usize, 2 => r.lit_num() as usize, _ => r.below(12) }), 1 => PathToken::Star, 2 => PathToken::StarIndex,
    _ => { let s = r.string(al, 6); PathToken::Field(if s.is_empty() { "a".into() } else { s }) } }
}
fn rand_path(r: &mut Rng, al: &[char], max: usize) -> Vec<PathToken> { let n = r.below(max + 1); let mut v = vec![PathToken::Root]; for _ in 0..n { v.push(rand_tok(r, al, true)); } v }
pub fn interesting_toks() -> Vec<PathToken> {
  let mut v: Vec<PathToken> = ["a", "_a9", "a b", "'", "\\", "\\'", "'\\", "a\\", "0", "9a", "*", "[*]", "$", "a.b", "]", "['x']", "é", "²", "a-b", "\n", "😀", "+1", "\"", "a\n"].iter().map(|s| PathToken::Field(s.to_string())).collect();
  v.extend([PathToken::Index(0), PathToken::Index(7), PathToken::Index(usize::MAX), PathToken::Star, PathToken::StarIndex]); v
}
pub fn c01(c: &mut Ctx) {
  let ts = interesting_toks(); let al = alphabet();
  for a in &ts { for b in &ts {
    let base = vec![PathToken::Root, a.clone()];
    let d = format!("base {:?} step {:?}", base, b);
    c.case("ops", d, || ops(&base, b, &base));
  } }
  // every field name of up to 3 characters over a small alphabet
  let small: Vec<char> = "a0'\\]. é".chars().collect();
  let mut names: Vec<String> = vec![String::new()]; let mut all = vec![];
  for _ in 0..3 { let mut nx = vec![]; for n in &names { for ch in &small { let mut s = n.clone(); s.push(*ch); nx.push(s); } } all.extend(nx.iter().cloned()); names = nx; }
  for n in all { if c.stop() { return; } let t = PathToken::Field(n.clone()); c.case("name", format!("{:?}", n), || ops(&[PathToken::Root, t.clone(), PathToken::Index(1)], &t, &[PathToken::Root])); }
  let mut r = c.rng(1);
  for _ in 0..c.n(20000) { if c.stop() { return; }
    let base = rand_path(&mut r, &al, 6); let t = rand_tok(&mut r, &al, true); let o = rand_path(&mut r, &al, 3);
    c.case("random", format!("base {:?} step {:?} other {:?}", base, t, o), || ops(&base, &t, &o));
  }
}

/// the steps a text is written with, by the grammar: $ or a leading name, then .name .* ['text'] [index] [*]
fn reference(s: &str) -> Option<Vec<PathToken>> {
  let c: Vec<char> = s.chars().collect(); let name = |x: char| x.is_alphabetic() || x.is_numeric() || "_-:#@".contains(x);
  let mut out = vec![]; let mut i = 1;
  if c.is_empty() { return Some(out); }
  out.push(PathToken::Root);
  if c[0] != '$' { if !(c[0].is_alphabetic() || c[0].is_numeric()) { return None; } while i < c.len() && name(c[i]) { i += 1; } out.push(PathToken::Field(c[..i].iter().collect())); if i < c.len() && c[i] != '.' && c[i] != '[' { return None; } }
  while i < c.len() {
    if c[i] == '.' {
      if c.get(i + 1) == Some(&'*') { out.push(PathToken::Star); i += 2; continue; }
      let j = i + 1; i = j; while i < c.len() && name(c[i]) { i += 1; }
      if i == j { return None; }
      out.push(PathToken::Field(c[j..i].iter().collect()));
    } else if c[i] == '[' {
      i += 1;
      if c.get(i) == Some(&'\'') {
        i += 1; let mut f = String::new();
        loop { match c.get(i) { None => return None, Some('\'') => break, Some('\\') => { match c.get(i + 1) { Some(x @ ('\'' | '\\')) => { f.push(*x); i += 2; } _ => { f.push('\\'); i += 1; } } } Some(x) => { f.push(*x); i += 1; } } }
        if f.is_empty() { return None; }
        out.push(PathToken::Field(f)); i += 1;
      } else if c.get(i) == Some(&'*') { out.push(PathToken::StarIndex); i += 1; }
      else { let j = i; while i < c.len() && c[i].is_ascii_digit() { i += 1; } if i == j { return None; } out.push(PathToken::Index(c[j..i].iter().collect::<String>().parse().ok()?)); }
      if c.get(i) != Some(&']') { return None; }
      i += 1;
    } else { return None; }
  }
  Some(out)
}
/// an accepted text: root step first and only there, no empty names, prints back to itself-equivalent
fn total(s: &str) -> Result<bool, String> {
  eqv!(DocPath::new(s).ok().map(|p| p.tokens().clone()), reference(s), format!("steps of {:?} (None: rejected)", s));
  match DocPath::new(s) {
    Err(_) => { ens!(DocPath::try_from(s).is_err(), "try_from accepts {:?}", s); Ok(false) }
    Ok(p) => {
      eqv!(p.to_string(), s, "text of a parsed path");
      let t = p.tokens();
      if s.is_empty() { eqv!(t.len(), 0, "steps of the empty path"); return Ok(false); }
      ens!(t.len() > 0 && t[0] == PathToken::Root, "{:?}: first step is not the root: {:?}", s, t);
      ens!(t[1..].iter().all(|x| *x != PathToken::Root), "{:?}: root step not first: {:?}", s, t);
      ens!(t.iter().all(|x| if let PathToken::Field(f) = x { !f.is_empty() } else { true }), "{:?}: empty field name: {:?}", s, t);
      let again = DocPath::new(render(t)).map_err(|e| format!("{:?}: steps {:?} print as {:?}: {}", s, t, render(t), e))?;
      eqv!(again.tokens(), t, "canonical text");
      Ok(t.len() > 1)
    }
  }
}
pub fn c02(c: &mut Ctx) {
  let small: Vec<char> = "$.*[]'\\a0".chars().collect();
  fn rec(c: &mut Ctx, al: &[char], s: &mut String, depth: usize) {
    if c.stop() { return; }
    let d = format!("{:?}", s); let t = s.clone();
    c.case("exhaustive", d, || total(&t));
    if depth == 0 { return; }
    for ch in al { s.push(*ch); rec(c, al, s, depth - 1); s.pop(); }
  }
  let depth = if c.thorough { 7 } else { 5 };
  rec(c, &small, &mut String::new(), depth);
  for p in ["$.a['", "$[", "$['a", "$[²", "$[²]", "$[99999999999999999999999]", "$[18446744073709551615]", "$[18446744073709551616]", "$.", "$..", "$['']", "$[+1]", "$[-1]", "$[1_0]", "a", "é", "9", "²", "_a", "a.b['c']", "a'", "$.a'x", "$['a'x]", "$['a\\", "$['a\\']", "$['\\\\']", "$[1.2]", "$[*", "$[*]x", "$.*x", "$.a\u{0}", "$ .a", " $.a"] { c.case("listed", format!("{:?}", p), || total(p)); }
  // every text over the grammar's own shapes must be accepted with exactly the steps it shows
  let mut r = c.rng(2); let al = alphabet();
  for _ in 0..c.n(30000) { if c.stop() { return; }
    let mut s = r.string(&al, 12); if r.chance(2, 3) { s.insert(0, '$'); }
    let t = s.clone(); c.case("random", format!("{:?}", s), || total(&t));
    let p = rand_path(&mut r, &al, 5); let s: Vec<char> = render(&p).chars().collect();
    let mut m = s.clone(); match r.below(4) { 0 => { m.truncate(r.below(m.len() + 1)); } 1 => { let i = r.below(m.len()); m[i] = *r.pick(&al); } 2 => { let i = r.below(m.len() + 1); m.insert(i, *r.pick(&al)); } _ => { let i = r.below(m.len()); m.remove(i); } }
    let m: String = m.into_iter().collect();
    c.case("mutated", format!("{:?}", m), || total(&m));
    // accepted alternative spellings
    let mut text = String::from("$"); let mut want = vec![PathToken::Root];
    for t in &p[1..] { match t {
      PathToken::Field(f) if !f.is_empty() && r.chance(1, 2) => { text.push_str(&format!("['{}']", f.replace('\\', "\\\\").replace('\'', "\\'"))); want.push(t.clone()); }
      PathToken::Field(_) => { let n: String = (0..1 + r.below(5)).map(|_| *r.pick(&['a', 'Z', '0', '_', '-', ':', '#', '@', 'é', '漢'])).collect(); text.push_str(&format!(".{}", n)); want.push(PathToken::Field(n)); }
      PathToken::Index(i) => { text.push_str(&format!("[{}{}]", if r.chance(1, 4) { "00" } else { "" }, i)); want.push(t.clone()); }
      x => { text.push_str(&render_tok(x)); want.push(t.clone()); } } }
    c.case("spelling", format!("{:?}", text), || { let q = DocPath::new(text.as_str()).map_err(|e| format!("not accepted: {}", e))?; eqv!(q.tokens(), &want, "steps"); Ok(want.len() > 1) });
  }
}

fn tw(f: &str, t: &PathToken) -> u128 { match t { PathToken::Root => if f == "$" { 2 } else { 0 }, PathToken::Field(n) => if n == f { 2 } else { 0 }, PathToken::Index(i) => if f.parse::<usize>() == Ok(*i) { 2 } else { 0 }, PathToken::StarIndex => if f == "[*]" || f.parse::<usize>().is_ok() { 1 } else { 0 }, PathToken::Star => 1 } }
fn weight(t: &[PathToken], p: &[&str]) -> Result<bool, String> {
  let d = DocPath::from_tokens(t.to_vec());
  let (w, n) = d.path_weight(p);
  eqv!(n, t.len(), "number of steps reported");
  let want: u128 = if p.len() < t.len() { 0 } else { let mut a: u128 = 1; for (x, f) in t.iter().zip(p) { a = a.saturating_mul(tw(f, x)); } a };
  eqv!(w, want.min(usize::MAX as u128) as usize, "weight");
  eqv!(d.matches_path(p), want > 0, "matches_path");
  eqv!(d.matches_path_exactly(p), want > 0 && p.len() == t.len(), "matches_path_exactly");
  Ok(want > 0)
}
pub fn c03(c: &mut Ctx) {
  let toks = vec![PathToken::Root, PathToken::Field("a".into()), PathToken::Field("1".into()), PathToken::Field("*".into()), PathToken::Index(1), PathToken::Index(usize::MAX), PathToken::Star, PathToken::StarIndex];
  let frags = ["$", "a", "A", "1", "01", "+1", "-1", "18446744073709551615", "18446744073709551616", "*", "[*]", "", "é", "b"];
  for t in &toks { for f in frags { let v = vec![PathToken::Root, t.clone()]; c.case("single", format!("{:?} vs {:?}", t, f), || { weight(&v, &["$", f])?; weight(&[t.clone()], &[f]) }); } }
  for a in &toks { for b in &toks { for f in frags { for g in frags { let v = vec![PathToken::Root, a.clone(), b.clone()];
    c.case("pair", format!("{:?} vs {:?}", v, ["$", f, g]), || { weight(&v, &["$", f, g])?; weight(&v, &["$", f])?; weight(&v, &["$", f, g, "x"]) }); } } } }
  let mut r = c.rng(3); let al = alphabet();
  for _ in 0..c.n(30000) { if c.stop() { return; }
    let n = r.below(7); let mut t = vec![PathToken::Root]; let mut p: Vec<String> = vec!["$".into()];
    for _ in 0..n { let x = if r.chance(1, 4) { rand_tok(&mut r, &al, true) } else { r.pick(&toks[1..]).clone() }; p.push(if r.chance(5, 6) { match &x { PathToken::Field(f) => f.clone(), PathToken::Index(i) => i.to_string(), PathToken::StarIndex => if r.chance(1, 2) { "[*]".into() } else { r.below(9).to_string() }, _ => r.pick(&frags).to_string() } } else { r.pick(&frags).to_string() }); t.push(x); }
    match r.below(6) { 0 => { p.pop(); } 1 => p.push("z".into()), 2 => { let i = r.below(p.len()); p[i] = r.perturb(&p[i]); } 3 => { if let Some(PathToken::Index(i)) = t.last() { let n = p.len(); p[n - 1] = format!("{}", (*i as u64) ^ (1u64 << r.below(64))); } } _ => {} }
    let ps: Vec<&str> = p.iter().map(|s| s.as_str()).collect();
    c.case("random", format!("{:?} vs {:?}", t, ps), || weight(&t, &ps));
  }
  // long paths: the product of the step weights no longer fits a machine word
  for len in [31usize, 32, 33, 62, 63, 64, 65, 66, 127, 128, 129, 200, 500] {
    let t: Vec<PathToken> = std::iter::once(PathToken::Root).chain((1..len).map(|_| PathToken::Field("a".into()))).collect();
    let mut p: Vec<&str> = vec!["a"; len]; p[0] = "$";
    c.case("long", format!("{} steps", len), || weight(&t, &p));
    p[len - 1] = "b"; c.case("long", format!("{} steps, last differs", len), || weight(&t, &p));
    let mut t2 = t.clone(); t2[len / 2] = PathToken::Star; p[len - 1] = "a";
    c.case("long", format!("{} steps, star inside", len), || { weight(&t2, &p)?;
      let (w1, w2) = (DocPath::from_tokens(t.clone()).path_weight(&p).0, DocPath::from_tokens(t2.clone()).path_weight(&p).0); ens!(w1 >= w2, "exact {} lighter than wildcard {}", w1, w2); Ok(true) });
  }
}
