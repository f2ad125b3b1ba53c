//! C04 selection of the best rules for a path, C05 adding and merging rules
use crate::fw::*;
use crate::gen;
use pact_models::matchingrules::{Category, MatchingRule, MatchingRuleCategory, MatchingRules, RuleList, RuleLogic};
use pact_models::path_exp::{DocPath, PathToken};
use std::collections::BTreeMap;

/// the rules a category should hold: path text -> (steps, rules, logic, cascaded)
#[derive(Clone, Debug, PartialEq)]
pub struct L { pub rules: Vec<String>, pub logic: RuleLogic, pub cascaded: bool }
pub type M = BTreeMap<String, (Vec<PathToken>, L)>;
fn show(r: &MatchingRule) -> String { gen::canon(r) }
pub fn lv(l: &RuleList) -> L { L { rules: l.rules.iter().map(show).collect(), logic: l.rule_logic, cascaded: l.cascaded } }
pub fn mv(c: &MatchingRuleCategory) -> M { c.rules.iter().map(|(k, v)| (k.to_string(), (k.tokens().clone(), lv(v)))).collect() }
fn empty() -> L { L { rules: vec![], logic: RuleLogic::And, cascaded: false } }
fn sw(f: &str, t: &PathToken) -> u128 { match t { PathToken::Root => if f == "$" { 2 } else { 0 }, PathToken::Field(n) => if n == f { 2 } else { 0 }, PathToken::Index(i) => if f.parse::<usize>() == Ok(*i) { 2 } else { 0 }, PathToken::StarIndex => if f == "[*]" || f.parse::<usize>().is_ok() { 1 } else { 0 }, PathToken::Star => 1 } }
fn weight(t: &[PathToken], p: &[&str]) -> u128 { if p.len() < t.len() { return 0; } let mut w: u128 = 1; for (x, f) in t.iter().zip(p) { w = (w * sw(f, x)).min(usize::MAX as u128); } w }
fn best(m: &M, p: &[&str]) -> L {
  let mut b: Option<(u128, &String, L)> = None;
  for (k, (t, l)) in m { let w = weight(t, p); if w == 0 { continue; } let s = (w * t.len() as u128).min(usize::MAX as u128);
    if b.as_ref().map_or(true, |(s0, k0, _)| s > *s0 || (s == *s0 && k > *k0)) { b = Some((s, k, L { cascaded: t.len() != p.len(), ..l.clone() })); } }
  b.map(|x| x.2).unwrap_or_else(empty)
}
fn collection(c: &Category) -> bool { matches!(c, Category::HEADER | Category::QUERY | Category::BODY | Category::CONTENTS | Category::METADATA) }
fn type_like(s: &str) -> bool { s == "Type" || s.starts_with("MinType(") || s.starts_with("MaxType(") || s.starts_with("MinMaxType(") }
fn select(c: &MatchingRuleCategory, p: &[&str]) -> Result<bool, String> {
  let m = mv(c); let n = c.name.clone();
  let mat: M = if collection(&n) { m.iter().filter(|(_, (t, _))| weight(t, p) > 0).map(|(k, v)| (k.clone(), v.clone())).collect() } else { m.clone() };
  let want = if matches!(n, Category::BODY | Category::METADATA) { best(&m, p) } else { mat.values().next().map(|v| v.1.clone()).unwrap_or_else(empty) };
  eqv!(lv(&c.select_best_matcher(p)), want, "select_best_matcher");
  // the same entries in a map with another hash order
  for _ in 0..4 { let mut d = MatchingRuleCategory::empty(n.clone()); for (k, v) in c.rules.iter() { d.rules.insert(k.clone(), v.clone()); } eqv!(lv(&d.select_best_matcher(p)), want, "select_best_matcher on an equal category"); }
  let f = c.resolve_matchers_for_path(p);
  eqv!(f.name, n, "name"); eqv!(mv(&f), mat, "resolve_matchers_for_path");
  eqv!(c.matcher_is_defined(p), !mat.is_empty(), "matcher_is_defined");
  eqv!(lv(&c.as_rule_list()), m.values().next().map(|v| v.1.clone()).unwrap_or_else(empty), "as_rule_list");
  let mut rs = MatchingRules::default(); rs.rules.insert(n.clone(), c.clone()); let pv = p.to_vec();
  eqv!(rs.matcher_is_defined(n.clone(), &pv), !mat.is_empty(), "MatchingRules::matcher_is_defined");
  eqv!(rs.resolve_matchers(n.clone(), &pv).map(|c| mv(&c)), Some(mat.clone()), "resolve_matchers");
  eqv!(rs.type_matcher_defined(n.clone(), &pv), mat.values().any(|v| v.1.rules.iter().any(|x| type_like(x))), "type_matcher_defined");
  eqv!(lv(&rs.resolve_body_matchers_by_path(&pv)), if n == Category::BODY { best(&m, p) } else { empty() }, "resolve_body_matchers_by_path");
  let wild = match n {
    Category::BODY => m.values().any(|(t, _)| weight(t, p) > 0 && t.len() == p.len() && t.last() == Some(&PathToken::Star)),
    Category::HEADER | Category::QUERY => m.values().any(|(t, _)| p.len() == 1 && t.iter().find_map(|x| if let PathToken::Field(f) = x { Some(f.as_str()) } else { None }) == Some(p[0]) && t.last() == Some(&PathToken::Star)),
    _ => m.values().any(|(t, _)| t.last() == Some(&PathToken::Star)) };
  eqv!(rs.wildcard_matcher_is_defined(n.clone(), &pv), wild, "wildcard_matcher_is_defined");
  for o in gen::CATS.iter().filter(|o| **o != n) { ens!(!rs.matcher_is_defined(o.clone(), &pv), "matcher defined in {:?}", o); ens!(rs.resolve_matchers(o.clone(), &pv).is_none(), "resolve_matchers for {:?}", o); ens!(!rs.type_matcher_defined(o.clone(), &pv), "type matcher for {:?}", o); ens!(!rs.wildcard_matcher_is_defined(o.clone(), &pv), "wildcard matcher for {:?}", o); }
  Ok(!mat.is_empty())
}
fn tok(r: &mut Rng) -> PathToken { match r.below(7) { 0 => PathToken::Index(r.below(2)), 1 => PathToken::Star, 2 => PathToken::StarIndex, 3 => PathToken::Field(r.pick(&["1", "*", "a b", "é"]).to_string()), _ => PathToken::Field(r.pick(&["a", "b"]).to_string()) } }
pub fn c04(c: &mut Ctx) {
  let cats = gen::CATS;
  // every pair of short paths against every short document path
  let toks = [PathToken::Field("a".into()), PathToken::Index(0), PathToken::Star, PathToken::StarIndex];
  let mut paths: Vec<Vec<PathToken>> = vec![vec![], vec![PathToken::Root]];
  for a in &toks { paths.push(vec![PathToken::Root, a.clone()]); for b in &toks { paths.push(vec![PathToken::Root, a.clone(), b.clone()]); } }
  let docs: Vec<Vec<&str>> = vec![vec!["$"], vec!["$", "a"], vec!["$", "0"], vec!["$", "a", "0"], vec!["$", "a", "a"], vec!["$", "0", "a"], vec!["$", "a", "0", "x"], vec!["a"], vec![]];
  let mk = |n: &Category, ps: &[Vec<PathToken>]| { let mut c = MatchingRuleCategory::empty(n.clone()); for (i, p) in ps.iter().enumerate() { let d = if p.is_empty() { DocPath::empty() } else { DocPath::from_tokens(p.clone()) }; c.rules.insert(d, RuleList { rules: vec![MatchingRule::Regex(format!("r{}", i))], rule_logic: if i % 2 == 1 { RuleLogic::Or } else { RuleLogic::And }, cascaded: false }); } c };
  for n in [Category::BODY, Category::METADATA, Category::HEADER, Category::STATUS] { for (i, a) in paths.iter().enumerate() { for b in &paths[i..] { for d in &docs { if c.stop() { return; }
    let x = mk(&n, &[a.clone(), b.clone()]); c.case("pair", format!("{:?}: {:?} {:?} for {:?}", n, a, b, d), || select(&x, d)); } } } }
  let mut r = c.rng(4);
  for _ in 0..c.n(12000) { if c.stop() { return; }
    let n = r.pick(&cats).clone(); let k = r.below(7); let depth = if r.chance(1, 40) { 70 } else { 5 };
    let doc: Vec<String> = std::iter::once("$".to_string()).chain((0..r.below(depth)).map(|_| r.pick(&["a", "b", "0", "1", "*", "é", "a b"]).to_string())).collect();
    let mut x = MatchingRuleCategory::empty(n.clone());
    for _ in 0..k {
      let len = 1 + r.below(depth + 1); let mut p = vec![PathToken::Root];
      for j in 1..len { p.push(if r.chance(4, 5) && j < doc.len() { match r.below(3) { 0 => PathToken::Star, 1 => if doc[j].parse::<usize>().is_ok() { PathToken::Index(doc[j].parse().unwrap()) } else { PathToken::Field(doc[j].clone()) }, _ => PathToken::Field(doc[j].clone()) } } else { tok(&mut r) }); }
      let d = if r.chance(1, 20) { DocPath::empty() } else { DocPath::from_tokens(p) };
      x.rules.insert(d, gen::rules(&mut r, 1));
    }
    let d: Vec<&str> = if r.chance(1, 10) { doc[1..].iter().map(|s| s.as_str()).collect() } else { doc.iter().map(|s| s.as_str()).collect() };
    c.case("random", format!("{:?} {:?} for {:?}", n, mv(&x), d), || select(&x, &d));
  }
}

fn merged(a: &M, b: &M) -> M { let mut m = a.clone(); for (k, (t, l)) in b { match m.get_mut(k) { Some(x) => x.1.rules.extend(l.rules.iter().cloned()), None => { m.insert(k.clone(), (t.clone(), l.clone())); } } } m }
type R = BTreeMap<Category, M>;
fn rv(r: &MatchingRules) -> Result<R, String> { let mut o = R::new(); for (k, v) in &r.rules { ens!(*k == v.name, "category {:?} filed under {:?}", v.name, k); o.insert(k.clone(), mv(v)); } Ok(o) }
fn m_or(r: &R, c: &Category) -> M { r.get(c).cloned().unwrap_or_default() }
fn lists(a: &RuleList, b: &RuleList, x: &MatchingRule) -> Result<bool, String> {
  let (la, lb) = (lv(a), lv(b));
  let mut y = a.clone(); y.add_rule(x); let mut w = la.clone(); w.rules.push(show(x)); eqv!(lv(&y), w, "RuleList::add_rule");
  let mut y = a.clone(); y.add_rules(b); let mut w = la.clone(); w.rules.extend(lb.rules.clone()); eqv!(lv(&y), w, "RuleList::add_rules");
  eqv!(lv(&a.and_rules(b)), w, "RuleList::and_rules"); eqv!(lv(a), la, "and_rules changed the list");
  let mut seen: Vec<String> = vec![]; for s in &w.rules { if !seen.contains(s) { seen.push(s.clone()); } }
  eqv!(lv(&y.remove_duplicates()).rules, seen, "remove_duplicates"); eqv!(y.remove_duplicates().rule_logic, a.rule_logic, "logic");
  eqv!(a.is_empty(), la.rules.is_empty(), "is_empty");
  eqv!(a.type_matcher_defined(), la.rules.iter().any(|s| type_like(s)), "type_matcher_defined");
  eqv!(a.has_non_type_matchers(), la.rules.iter().any(|s| !type_like(s)), "has_non_type_matchers");
  let vl = |s: &String| s == "Values" || s.starts_with("EachValue(");
  eqv!(a.values_matcher_defined(), la.rules.iter().any(vl), "values_matcher_defined");
  for b in [true, false] { let mut w = la.clone(); w.cascaded = b; eqv!(lv(&a.as_cascaded(b)), w, "as_cascaded"); }
  eqv!(lv(&a.filter(|r| r.is_type_matcher())).rules, la.rules.iter().filter(|s| type_like(s)).cloned().collect::<Vec<_>>(), "filter"); eqv!(a.filter(|_| true).rule_logic, a.rule_logic, "filter logic");
  let s = show(x);
  eqv!(x.is_type_matcher(), type_like(&s), "is_type_matcher"); eqv!(x.is_values_matcher(), vl(&s), "is_values_matcher"); eqv!(x.is_length_type_matcher(), type_like(&s) && s != "Type", "is_length_type_matcher");
  eqv!(x.can_cascade(), !(vl(&s) || s.starts_with("EachKey(")), "can_cascade"); eqv!(show(&x.for_single_item()), if type_like(&s) { "Type".to_string() } else { s.clone() }, "for_single_item");
  eqv!(lv(&RuleList::new(x.clone())), L { rules: vec![s], ..empty() }, "RuleList::new"); eqv!(lv(&RuleList::equality()), L { rules: vec!["Equality".into()], ..empty() }, "equality");
  eqv!(lv(&RuleList::empty(RuleLogic::Or)), L { logic: RuleLogic::Or, ..empty() }, "empty"); eqv!(lv(&RuleList::default()), empty(), "default");
  Ok(!la.rules.is_empty())
}
fn cat_ops(a: &MatchingRuleCategory, b: &MatchingRuleCategory, p: &DocPath, x: &MatchingRule, lg: RuleLogic) -> Result<bool, String> {
  let (ma, mb) = (mv(a), mv(b));
  let mut y = a.clone(); y.add_rules(b.clone()); eqv!(y.name, a.name, "name"); eqv!(mv(&y), merged(&ma, &mb), "category add_rules");
  let mut y = a.clone(); y.add_rule(p.clone(), x.clone(), lg); let mut w = ma.clone();
  w.entry(p.to_string()).or_insert((p.tokens().clone(), L { logic: lg, ..empty() })).1.rules.push(show(x));
  eqv!(mv(&y), w, "category add_rule"); eqv!(y.name, a.name, "name");
  let y = a.rename(b.name.clone()); eqv!(y.name, b.name, "rename: name"); eqv!(mv(&y), ma, "rename: rules");
  eqv!(a.is_empty(), ma.is_empty(), "is_empty"); eqv!(a.is_not_empty(), !ma.is_empty(), "is_not_empty");
  eqv!(a.type_matcher_defined(), ma.values().any(|v| v.1.rules.iter().any(|s| type_like(s))), "type_matcher_defined");
  eqv!(a.values_matcher_defined(), ma.values().any(|v| v.1.rules.iter().any(|s| s == "Values" || s.starts_with("EachValue("))), "values_matcher_defined");
  let k = ma.keys().next().cloned(); let f = a.filter(|(p, _)| Some(p.to_string()) != k); let mut w = ma.clone(); if let Some(k) = k { w.remove(&k); } eqv!(mv(&f), w, "filter"); eqv!(f.name, a.name, "filter name");
  let e = MatchingRuleCategory::empty(a.name.clone()); ens!(e.name == a.name && e.rules.is_empty(), "empty"); let e = MatchingRuleCategory::equality(a.name.clone()); eqv!(mv(&e), M::from([(String::new(), (vec![], L { rules: vec!["Equality".into()], ..empty() }))]), "equality"); eqv!(e.name, a.name, "equality name");
  Ok(!ma.is_empty() || !mb.is_empty())
}
fn all_ops(a: &MatchingRules, b: &MatchingRules, x: &Category, y: &Category) -> Result<bool, String> {
  let (ra, rb) = (rv(a)?, rv(b)?);
  let chk = |m: &MatchingRules, f: &dyn Fn(&Category) -> M, w: &str| -> Result<(), String> { let v = rv(m)?; for c in gen::CATS.iter() { eqv!(m_or(&v, c), f(c), format!("{}: {:?}", w, c)); } Ok(()) };
  let mut m = a.clone(); m.merge(b); chk(&m, &|c| merged(&m_or(&ra, c), &m_or(&rb, c)), "merge")?; eqv!(rv(b)?, rb, "merge changed the other rules");
  let mut m = a.clone(); let cb = b.rules_for_category(x.clone()).unwrap_or_else(|| MatchingRuleCategory::empty(x.clone())); m.add_rules(y.clone(), cb); chk(&m, &|c| if c == y { merged(&m_or(&ra, c), &m_or(&rb, x)) } else { m_or(&ra, c) }, "add_rules")?;
  let mut m = a.clone(); { let k = m.add_category(x.clone()); eqv!(k.name, *x, "add_category name"); eqv!(mv(k), m_or(&ra, x), "add_category rules"); k.add_rule(DocPath::root(), MatchingRule::Semver, RuleLogic::Or); }
  chk(&m, &|c| { let mut w = m_or(&ra, c); if c == x { w.entry("$".into()).or_insert((vec![PathToken::Root], L { logic: RuleLogic::Or, ..empty() })).1.rules.push("Semver".into()); } w }, "add_category")?;
  for _ in 0..3 { let m = a.clone().rename(x.clone(), y.clone()); chk(&m, &|c| if x == y { m_or(&ra, c) } else if c == y { merged(&m_or(&ra, y), &m_or(&ra, x)) } else if c == x { M::new() } else { m_or(&ra, c) }, "rename")?; }
  let m = a.rename(x.clone(), y.clone()); ens!(x == y || !m.rules.contains_key(x), "rename kept the old category");
  eqv!(a.rules_for_category(x.clone()).map(|c| mv(&c)), ra.get(x).cloned(), "rules_for_category");
  eqv!(a.is_empty(), ra.values().all(|m| m.is_empty()), "is_empty"); eqv!(a.is_not_empty(), !a.is_empty(), "is_not_empty");
  let mut cs: Vec<Category> = a.categories().into_iter().collect(); cs.sort(); eqv!(cs, ra.keys().cloned().collect::<Vec<_>>(), "categories");
  for c in gen::CATS.iter() { let s = c.to_string(); eqv!(Category::from(s.as_str()), *c, "category from text"); eqv!(Category::from(s.to_uppercase()), *c, "category from upper case text"); eqv!(a.rules_for_category(s.as_str()).map(|c| mv(&c)), ra.get(c).cloned(), "rules_for_category by text"); }
  Ok(!ra.is_empty() || !rb.is_empty())
}
fn rand_cat(r: &mut Rng, n: Category) -> MatchingRuleCategory { let mut c = MatchingRuleCategory::empty(n); for _ in 0..r.below(4) { let d = match r.below(5) { 0 => DocPath::empty(), 1 => DocPath::root(), 2 => DocPath::from_tokens(vec![PathToken::Root, PathToken::Star]), 3 => DocPath::from_tokens(vec![PathToken::Root, PathToken::Field("a".into())]), _ => gen::path(r, 3) }; let mut l = gen::rules(r, 1); if r.chance(1, 6) { l.rules.clear(); } c.rules.insert(d, l); } c }
fn rand_rules(r: &mut Rng) -> MatchingRules { let mut m = MatchingRules::default(); for _ in 0..r.below(5) { let n = r.pick(&gen::CATS).clone(); let c = rand_cat(r, n.clone()); m.rules.insert(n, c); } m }
pub fn c05(c: &mut Ctx) {
  let mut r = c.rng(5);
  for i in 0..c.n(5000) { if c.stop() { return; }
    let (mut a, b, x) = (gen::rules(&mut r, 1), gen::rules(&mut r, 1), gen::rule(&mut r, 1)); if i % 9 == 0 { a.rules.clear(); }
    c.case("lists", format!("{:?} / {:?} / {}", lv(&a), lv(&b), show(&x)), || lists(&a, &b, &x));
    let (n1, n2) = (r.pick(&gen::CATS).clone(), r.pick(&gen::CATS).clone()); let (a, b) = (rand_cat(&mut r, n1), rand_cat(&mut r, n2)); let p = if r.chance(1, 2) { a.rules.keys().next().cloned().unwrap_or_else(DocPath::root) } else { gen::path(&mut r, 3) }; let lg = if r.chance(1, 2) { RuleLogic::Or } else { RuleLogic::And };
    c.case("category", format!("{:?} / {:?} / {} {} {:?}", mv(&a), mv(&b), p, show(&x), lg), || cat_ops(&a, &b, &p, &x, lg));
    let (a, b, x, y) = (rand_rules(&mut r), rand_rules(&mut r), r.pick(&gen::CATS).clone(), r.pick(&gen::CATS).clone());
    c.case("rules", format!("{:?} / {:?} / {:?} {:?}", rv(&a), rv(&b), x, y), || all_ops(&a, &b, &x, &y));
  }
}
