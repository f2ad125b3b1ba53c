//! C14 merging two pacts
use crate::fw::*;
use crate::inter::{self, some_text};
use crate::interj;
use crate::pactj::{cmd, cpl, er, head, md3, md4, pact4, plugins, same_v4, Int, Md3};
use pact_models::interaction::Interaction;
use pact_models::json_utils::json_deep_merge;
use pact_models::message::Message;
use pact_models::message_pact::MessagePact;
use pact_models::pact::{Pact, ReadWritePact};
use pact_models::plugins::PluginData;
use pact_models::provider_states::ProviderState;
use pact_models::sync_interaction::RequestResponseInteraction;
use pact_models::sync_pact::RequestResponsePact;
use pact_models::{Consumer, PactSpecification, Provider};
use std::collections::BTreeMap;

type Key = (String, Vec<String>);
fn key(i: &dyn Interaction) -> Key { (i.description(), i.provider_states().iter().map(|s| s.name.clone()).collect()) }
fn show(i: &dyn Interaction) -> String {
  if i.is_v4() { if let Some(i) = i.as_v4_http() { interj::show_http(&i) } else if let Some(i) = i.as_v4_async_message() { interj::show_asyn(&i) } else { interj::show_sync(&i.as_v4_sync_message().unwrap()) } }
  else if let Some(i) = i.as_request_response() { format!("id {:?} {}", i.id, interj::show_http(&i.as_v4_http().unwrap())) } else { let m = i.as_message().unwrap(); format!("id {:?} {} {:?}", m.id, interj::show_asyn(&m.as_v4_async_message().unwrap()), inter::cmap(&m.metadata, |k| k.clone(), inter::cj)) }
}
fn descr(r: &mut Rng) -> String { r.pick(&["a", "b", "B", "aa", "", "é", "a b", "ab", "b", "a"]).to_string() }
fn states(r: &mut Rng) -> Vec<ProviderState> { let n = r.pick(&[0, 0, 1, 1, 2]).clone(); (0..n).map(|_| ProviderState { name: r.pick(&["s", "t", "S", "ss", "", "a"]).to_string(), params: if r.chance(1, 3) { inter::map(r, |r| r.pick(&["p", "q"]).to_string(), inter::jval) } else { Default::default() } }).collect() }
fn shuffle<T>(r: &mut Rng, v: &mut Vec<T>) { for i in (1..v.len()).rev() { let j = r.below(i + 1); v.swap(i, j); } }
macro_rules! each_kind { ($i:expr, $x:ident => $e:expr) => { match $i { Int::H($x) => $e, Int::A($x) => $e, Int::S($x) => $e } } }
fn int(r: &mut Rng, k: usize, keyed: usize) -> Int { let mut i = Int::gen(r, k); let (d, s) = (descr(r), states(r)); let n = match keyed { 0 => None, 1 => Some(r.pick(&["k1", "k2", "k3", "k4", "", "K1", "k10"]).to_string()), _ => if r.chance(1, 2) { Some(r.pick(&["k1", "k2"]).to_string()) } else { None } };
  each_kind!(&mut i, x => { x.description = d; x.provider_states = s; x.key = n; }); i }
/// the same interaction of the same kind with other contents
fn like(r: &mut Rng, i: &Int) -> Int { let mut n = Int::gen(r, i.kind()); let (d, s, k) = each_kind!(i, x => (x.description.clone(), x.provider_states.clone(), x.key.clone())); let s = if r.chance(1, 4) { s.into_iter().map(|p| ProviderState { name: p.name, params: Default::default() }).collect() } else { s };
  each_kind!(&mut n, x => { x.description = d; x.provider_states = s; x.key = k; }); n }
fn ikey(i: &Int) -> Option<String> { each_kind!(i, x => x.key.clone()) }
fn same(a: &Int, b: &Int) -> bool { match (ikey(a), ikey(b)) { (Some(x), Some(y)) => x == y, _ => key(a.bx().as_ref()) == key(b.bx().as_ref()) && a.kind() == b.kind() } }
/// two pacts with some interactions in common
fn pair<T: Clone>(r: &mut Rng, mut new: impl FnMut(&mut Rng) -> T, mut like: impl FnMut(&mut Rng, &T) -> T) -> (Vec<T>, Vec<T>) {
  let (n, m) = (r.below(5), r.below(4)); let a: Vec<T> = (0..n).map(|_| new(r)).collect(); let mut b: Vec<T> = vec![]; for x in &a { match r.below(5) { 0 | 1 => (), 2 => b.push(x.clone()), _ => b.push(like(r, x)) } } for _ in 0..r.below(m + 1) { b.push(new(r)); }
  if r.chance(4, 5) { shuffle(r, &mut b); } (a, b)
}
fn sorted(t: &str, v: &[Box<dyn Interaction + Send + Sync + std::panic::RefUnwindSafe>], typed: bool) -> Result<(), String> { for w in v.windows(2) { let k = |i: &dyn Interaction| (key(i), if typed { i.type_of() } else { String::new() }); ens!(k(w[0].as_ref()) <= k(w[1].as_ref()), "{}not sorted: {:?} before {:?}", t, k(w[0].as_ref()), k(w[1].as_ref())); } Ok(()) }
fn bag(v: Vec<String>) -> Vec<String> { let mut v = v; v.sort(); v }
fn party(a: &str, b: &str) -> (Consumer, Provider) { (Consumer { name: a.into() }, Provider { name: b.into() }) }
fn names(r: &mut Rng) -> (String, String, String, String) { let (a, b) = (some_text(r), some_text(r)); match r.below(12) { 0 => { let x = r.perturb(&a); (a, b.clone(), x, b) } 1 => { let x = r.perturb(&b); (a.clone(), b, a, x) } _ => (a.clone(), b.clone(), a, b) } }
fn list(v: &[Box<dyn Interaction + Send + Sync + std::panic::RefUnwindSafe>]) -> String { v.iter().map(|i| format!("{:?} {}", key(i.as_ref()), show(i.as_ref()))).collect::<Vec<_>>().join(" | ") }
fn merged_plugins(a: &[PluginData], b: &[PluginData]) -> Vec<PluginData> {
  let mut w = a.to_vec(); for p in b { match w.iter_mut().find(|x| x.name == p.name && x.version == p.version) { Some(x) => for (k, v) in &p.configuration { let n = match x.configuration.get(k) { Some(o) => json_deep_merge(o, v), None => v.clone() }; x.configuration.insert(k.clone(), n); }, None => w.push(p.clone()) } } w
}
fn v4(c: &mut Ctx, r: &mut Rng) {
  let keyed = *r.pick(&[0, 0, 1, 2]); let kinds = r.below(2); let (a, b) = pair(r, |r| { let k = if kinds == 0 { 0 } else { r.below(3) }; int(r, k, keyed) }, like);
  let (ca, pa, cb, pb) = names(r); let (ma, mb, la, lb) = (md4(r), md4(r), plugins(r), plugins(r));
  let (x, y) = (pact4(&a, &ma, &la, &ca, &pa), pact4(&b, &mb, &lb, &cb, &pb));
  c.case("V4", format!("{:?} {:?} metadata {{{}}} plugins [{}] [{}] with {:?} {:?} metadata {{{}}} plugins [{}] [{}]", ca, pa, cmd(&ma), cpl(&la), list(&x.interactions()), cb, pb, cmd(&mb), cpl(&lb), list(&y.interactions())), || {
    let m = x.merge(&y); eqv!(m.is_ok(), ca == cb && pa == pb, "merged"); let m = match m { Ok(m) => m, Err(_) => return Ok(false) }; ens!(m.is_v4(), "not a V4 pact");
    same_v4(&er(m.as_v4_pact())?, &ca, &pa, &ma, &merged_plugins(&la, &lb), &serde_json::json!("merging"))?; let l = m.interactions(); sorted("", &l, true)?;
    let got: Vec<String> = l.iter().map(|i| show(i.as_ref())).collect(); let txt = |i: &Int| show(i.bx().as_ref());
    // the ones of the other pact that are not the same as one of this pact
    let news: Vec<&Int> = b.iter().filter(|i| !a.iter().any(|o| same(o, i))).collect(); let one = a.iter().all(|i| b.iter().filter(|o| same(i, o)).count() <= 1) && b.iter().all(|o| a.iter().filter(|i| same(i, o)).count() <= 1);
    if one { eqv!(bag(got), bag(a.iter().chain(news).map(txt).collect()), "interactions"); } else {
      let mut rest = got.clone(); for i in a.iter().chain(news) { let t = txt(i); match rest.iter().position(|x| *x == t) { Some(p) => { rest.remove(p); } None => return Err(format!("lost: {}", t)) } }
      // what is left is from the other pact too
      let mut pool: Vec<String> = b.iter().filter(|i| a.iter().any(|o| same(o, i))).map(txt).collect(); for t in rest { match pool.iter().position(|x| *x == t) { Some(p) => { pool.remove(p); } None => return Err(format!("too many: {}", t)) } }
      if keyed != 2 { for i in a.iter().chain(&b) { let n = |v: &[Int]| v.iter().filter(|o| same(o, i)).count(); let g = er(m.as_v4_pact())?.interactions.iter().filter(|o| match ikey(i) { Some(k) => o.key() == Some(k), None => key(o.to_super()) == key(i.bx().as_ref()) && o.type_of() == i.bx().type_of() }).count(); eqv!(g, n(&a).max(n(&b)), format!("times {}", txt(i))); } } }
    Ok(!a.is_empty() && !b.is_empty())
  });
  // with itself, and with no interactions
  if keyed != 2 { c.case("V4 with itself", format!("{:?} {:?} [{}]", ca, pa, list(&x.interactions())), || { let e = pact4(&[], &mb, &[], &ca, &pa); let want = bag(x.interactions().iter().map(|i| show(i.as_ref())).collect());
    for m in [er(x.merge(&x))?, er(x.merge(&e))?, er(e.merge(&x))?] { let l = m.interactions(); sorted("", &l, true)?; eqv!(bag(l.iter().map(|i| show(i.as_ref())).collect()), want, "interactions"); } Ok(a.len() > 1) }); }
}
/// what merging lists of V1 to V3 interactions gives: the texts of one class, and how many of them there are
fn joined(a: &[(Key, String)], b: &[(Key, String)], got: Vec<(Key, String)>) -> Result<(), String> {
  let mut ks: BTreeMap<Key, (Vec<String>, Vec<String>, Vec<String>)> = BTreeMap::new(); for (k, t) in a { ks.entry(k.clone()).or_default().0.push(t.clone()); } for (k, t) in b { ks.entry(k.clone()).or_default().1.push(t.clone()); } for (k, t) in got { ks.entry(k).or_default().2.push(t); }
  for (k, (x, y, z)) in ks { eqv!(z.len(), x.len().max(y.len()), format!("interactions {:?}", k)); if x.len() <= 1 && y.len() <= 1 { eqv!(z[0], if y.len() == 1 { y[0].clone() } else { x[0].clone() }, "interaction"); } else { for t in &z { ens!(x.contains(t) || y.contains(t), "from nowhere: {}", t); } for t in &y { ens!(y.len() < x.len() || z.contains(t), "lost: {}", t); } } } Ok(())
}
fn texts(v: &[Box<dyn Interaction + Send + Sync + std::panic::RefUnwindSafe>]) -> Vec<(Key, String)> { v.iter().map(|i| (key(i.as_ref()), show(i.as_ref()))).collect() }
fn rr(r: &mut Rng) -> RequestResponseInteraction { let (d, s) = (descr(r), states(r)); let mut i = interj::rr(r, &PactSpecification::V3); i.description = d; i.provider_states = s; if r.chance(3, 4) { i.request.method = r.pick(&["GET", "POST"]).to_string(); i.request.path = r.pick(&["/", "/a"]).to_string(); i.request.query = None; i.response.status = *r.pick(&[200, 201]); } i }
fn rr_like(r: &mut Rng, i: &RequestResponseInteraction) -> RequestResponseInteraction { let mut n = interj::rr(r, &PactSpecification::V3); n.description = i.description.clone(); n.provider_states = i.provider_states.clone(); n.request.method = i.request.method.clone(); n.request.path = i.request.path.clone(); n.request.query = i.request.query.clone(); n.response.status = i.response.status;
  if r.chance(1, 6) { match r.below(7) { 0 => n.request.method = r.pick(&["PUT", "get", ""]).to_string(), 1 => n.request.path += "x", 2 => n.request.query = inter::query(r), 3 => n.response.status ^= 1, 4 => n.response.status = n.response.status.wrapping_add(100), _ => for s in &mut n.provider_states { s.params.insert("p".into(), inter::jval(r)); } } } n }
fn rpact(v: &[RequestResponseInteraction], m: &Md3, a: &str, b: &str, s: PactSpecification) -> RequestResponsePact { let (consumer, provider) = party(a, b); RequestResponsePact { consumer, provider, interactions: v.to_vec(), metadata: m.clone(), specification_version: s } }
fn msg(r: &mut Rng) -> Message { let (d, s) = (descr(r), states(r)); Message { description: d, provider_states: s, ..interj::message(r) } }
fn mpact(v: &[Message], m: &Md3, a: &str, b: &str, s: PactSpecification) -> MessagePact { let (consumer, provider) = party(a, b); MessagePact { consumer, provider, messages: v.to_vec(), metadata: m.clone(), specification_version: s } }
const SPECS: [PactSpecification; 4] = [PactSpecification::V1, PactSpecification::V2, PactSpecification::V3, PactSpecification::V3];
fn v3(c: &mut Ctx, r: &mut Rng) {
  let (ca, pa, cb, pb) = names(r); let (ma, mb) = (md3(r), md3(r)); let (s, t) = (*r.pick(&SPECS), *r.pick(&SPECS)); let form = r.below(8);
  let calm = r.chance(2, 3);
  // request/response
  let (a, b) = pair(r, rr, |r, i| if calm { let mut n = rr_like(r, i); n.request.method = i.request.method.clone(); n.request.path = i.request.path.clone(); n.request.query = i.request.query.clone(); n.response.status = i.response.status; n } else { rr_like(r, i) });
  let x = rpact(&a, &ma, &ca, &pa, s); let y: Box<dyn Pact> = match form { 0 => Box::new(pact4(&b.iter().map(|i| Int::H(i.as_v4_http().unwrap())).collect::<Vec<_>>(), &md4(r), &[], &cb, &pb)),
    1 => { let k = r.below(3); let n = 1 + r.below(2); let l: Vec<Int> = (0..n).map(|_| int(r, k, 0)).collect(); Box::new(pact4(&l, &md4(r), &[], &cb, &pb)) } 2 => { let n = r.below(2); let l: Vec<Message> = (0..n).map(|_| msg(r)).collect(); Box::new(mpact(&l, &mb, &cb, &pb, t)) } _ => Box::new(rpact(&b, &mb, &cb, &pb, t)) };
  c.case("request/response", format!("{:?} {:?} {:?} {:?} [{}] with {:?} {:?} {:?} [{}]", s, ca, pa, ma, list(&x.interactions()), cb, pb, y.specification_version(), list(&y.interactions())), || {
    let o = y.interactions(); let conv: Option<Vec<RequestResponseInteraction>> = o.iter().map(|i| i.as_request_response()).collect();
    let clash = |o: &RequestResponseInteraction| a.iter().any(|i| i.description == o.description && i.provider_states == o.provider_states && (i.request.method != o.request.method || i.request.path != o.request.path || i.request.query != o.request.query || i.response.status != o.response.status));
    let ok = ca == cb && pa == pb && conv.as_ref().map_or(false, |l| !l.iter().any(clash)); let m = x.merge(y.as_ref()); eqv!(m.is_ok(), ok, "merged"); let m = match m { Ok(m) => m, Err(_) => return Ok(false) };
    let q = er(m.as_request_response_pact())?; ens!(!m.is_v4(), "a V4 pact"); head(&q, &ca, &pa, &serde_json::json!("merging"))?; eqv!(q.metadata, ma, "metadata"); eqv!(q.specification_version, s, "version"); let l = m.interactions(); ens!(l.iter().all(|i| i.is_request_response()), "kind"); sorted("", &l, false)?;
    let b: Vec<_> = conv.unwrap().into_iter().map(|i| i.boxed()).collect(); joined(&texts(&x.interactions()), &texts(&b), texts(&l))?; Ok(!a.is_empty() && !b.is_empty())
  });
  // messages
  let (a, b) = pair(r, msg, |r, i| Message { description: i.description.clone(), provider_states: i.provider_states.iter().map(|s| ProviderState { name: s.name.clone(), params: inter::map(r, some_text, inter::jval) }).collect(), ..interj::message(r) });
  let x = mpact(&a, &ma, &ca, &pa, s); let y: Box<dyn Pact> = match form { 0 => Box::new(pact4(&b.iter().map(|i| Int::A(i.as_v4_async_message().unwrap())).collect::<Vec<_>>(), &md4(r), &[], &cb, &pb)),
    1 => { let k = r.below(3); let n = 1 + r.below(2); let l: Vec<Int> = (0..n).map(|_| int(r, k, 0)).collect(); Box::new(pact4(&l, &md4(r), &[], &cb, &pb)) } 2 => { let n = r.below(2); let l: Vec<_> = (0..n).map(|_| rr(r)).collect(); Box::new(rpact(&l, &mb, &cb, &pb, t)) } _ => Box::new(mpact(&b, &mb, &cb, &pb, t)) };
  c.case("messages", format!("{:?} {:?} {:?} {:?} [{}] with {:?} {:?} {:?} [{}]", s, ca, pa, ma, list(&x.interactions()), cb, pb, y.specification_version(), list(&y.interactions())), || {
    let o = y.interactions(); let conv: Option<Vec<Message>> = o.iter().map(|i| i.as_message()).collect(); let ok = ca == cb && pa == pb && conv.is_some(); let m = x.merge(y.as_ref()); eqv!(m.is_ok(), ok, "merged"); let m = match m { Ok(m) => m, Err(_) => return Ok(false) };
    let q = er(m.as_message_pact())?; ens!(!m.is_v4(), "a V4 pact"); head(&q, &ca, &pa, &serde_json::json!("merging"))?; eqv!(q.metadata, ma, "metadata"); eqv!(q.specification_version, s, "version"); let l = m.interactions(); ens!(l.iter().all(|i| i.is_message()), "kind"); sorted("", &l, false)?;
    let b: Vec<_> = conv.unwrap().into_iter().map(|i| i.boxed()).collect(); joined(&texts(&x.interactions()), &texts(&b), texts(&l))?; Ok(!a.is_empty() && !b.is_empty())
  });
  // a V4 pact with an older one
  let (k, other): (usize, Box<dyn Pact>) = if form < 4 { (1, y) } else { let l: Vec<_> = b.iter().map(|_| rr(r)).collect(); (0, Box::new(rpact(&l, &mb, &cb, &pb, t))) }; let _ = k; let v: Vec<Int> = { let n = r.below(3); (0..n).map(|_| { let k = r.below(3); int(r, k, 0) }).collect() }; let (m4, pl) = (md4(r), plugins(r)); let x = pact4(&v, &m4, &pl, &ca, &pa);
  c.case("V4 with an older pact", format!("{:?} {:?} metadata {{{}}} plugins [{}] [{}] with {:?} {:?} [{}]", ca, pa, cmd(&m4), cpl(&pl), list(&x.interactions()), cb, pb, list(&other.interactions())), || {
    let m = x.merge(other.as_ref()); eqv!(m.is_ok(), ca == cb && pa == pb, "merged"); let m = match m { Ok(m) => m, Err(_) => return Ok(false) }; let q = er(m.as_v4_pact())?; same_v4(&q, &ca, &pa, &m4, &pl, &serde_json::json!("merging"))?; let l = m.interactions(); sorted("", &l, true)?;
    let o: Vec<Int> = other.interactions().iter().map(|i| { let i = i.as_v4().unwrap(); if let Some(i) = i.as_v4_http() { Int::H(i) } else if let Some(i) = i.as_v4_async_message() { Int::A(i) } else { Int::S(i.as_v4_sync_message().unwrap()) } }).collect();
    if o.iter().all(|i| o.iter().filter(|x| same(x, i)).count() == 1) && v.iter().all(|i| v.iter().filter(|x| same(x, i)).count() == 1) { let want: Vec<String> = v.iter().chain(o.iter().filter(|i| !v.iter().any(|x| same(x, i)))).map(|i| show(i.bx().as_ref())).collect(); eqv!(bag(l.iter().map(|i| show(i.as_ref())).collect()), bag(want), "interactions"); }
    Ok(!o.is_empty())
  });
}
pub fn c14(c: &mut Ctx) { let mut r = c.rng(14); for _ in 0..c.n(700) { if c.stop() { return; } v4(c, &mut r); v3(c, &mut r); } }
