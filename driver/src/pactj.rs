//! C24 whole pacts and their JSON forms
use crate::fw::*;
use crate::gen;
use crate::inter::{self, cj, jval, some_text};
use crate::interj::{self, same_asyn, same_http, same_sync, via};
use crate::parts::jtext;
use pact_models::interaction::Interaction;
use pact_models::json_utils::json_deep_merge;
use pact_models::message::Message;
use pact_models::message_pact::MessagePact;
use pact_models::pact::{determine_spec_version, load_pact_from_json, parse_meta_data, Pact, ReadWritePact};
use pact_models::plugins::PluginData;
use pact_models::sync_interaction::RequestResponseInteraction;
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::interaction::{interaction_from_json, V4Interaction};
use pact_models::v4::pact::V4Pact;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use pact_models::v4::V4InteractionType;
use pact_models::{Consumer, PactSpecification, Provider, PACT_RUST_VERSION};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap};
use std::panic::RefUnwindSafe;
use PactSpecification::*;

pub type Dyn = dyn V4Interaction + Send + Sync + RefUnwindSafe;
pub type Md3 = BTreeMap<String, BTreeMap<String, String>>;
const ALL: [PactSpecification; 6] = [V1, V1_1, V2, V3, V4, Unknown];
const KINDS: [V4InteractionType; 3] = [V4InteractionType::Synchronous_HTTP, V4InteractionType::Asynchronous_Messages, V4InteractionType::Synchronous_Messages];
fn ver(s: &PactSpecification) -> &'static str { match s { V1 => "1.0.0", V1_1 => "1.1.0", V2 => "2.0.0", V3 => "3.0.0", V4 => "4.0", _ => "unknown" } }
#[derive(Clone)]
pub enum Int { H(SynchronousHttp), A(AsynchronousMessage), S(SynchronousMessage) }
impl Int {
  pub fn gen(r: &mut Rng, k: usize) -> Int { let d = desc(r); let id = gen::opt(r, |r| r.pick(&["a", "b", "", "x y"]).to_string()); match k { 0 => Int::H(SynchronousHttp { description: d, id, ..interj::http(r) }), 1 => Int::A(AsynchronousMessage { description: d, id, ..interj::asyn(r) }), _ => Int::S(SynchronousMessage { description: d, id, ..interj::sync(r) }) } }
  pub fn kind(&self) -> usize { match self { Int::H(_) => 0, Int::A(_) => 1, Int::S(_) => 2 } }
  pub fn desc(&self) -> &str { match self { Int::H(i) => &i.description, Int::A(i) => &i.description, Int::S(i) => &i.description } }
  fn id(&self) -> &Option<String> { match self { Int::H(i) => &i.id, Int::A(i) => &i.id, Int::S(i) => &i.id } }
  fn json(&self) -> Value { match self { Int::H(i) => interj::http_json(i), Int::A(i) => interj::asyn_json(i), Int::S(i) => interj::sync_json(i) } }
  pub fn show(&self) -> String { match self { Int::H(i) => interj::show_http(i), Int::A(i) => interj::show_asyn(i), Int::S(i) => interj::show_sync(i) } }
  fn back(&self) -> Option<Int> { match self { Int::H(i) => interj::back_http(i).map(Int::H), Int::A(i) => interj::back_asyn(i).map(Int::A), Int::S(i) => interj::back_sync(i).map(Int::S) } }
  pub fn bx(&self) -> Box<Dyn> { match self { Int::H(i) => Box::new(i.clone()), Int::A(i) => Box::new(i.clone()), Int::S(i) => Box::new(i.clone()) } }
}
/// few descriptions, so that some are the same
fn desc(r: &mut Rng) -> String { match r.below(5) { 0 => some_text(r), 1 => "b".into(), 2 => "B".into(), 3 => "é".into(), _ => r.pick(&["a", "aa", "a b", ""]).to_string() } }
fn same_int(a: &dyn V4Interaction, w: &Int, j: &Value) -> Result<(), String> {
  match w { Int::H(w) => same_http(&a.as_v4_http().ok_or("not HTTP")?, w, j), Int::A(w) => same_asyn(&a.as_v4_async_message().ok_or("not a message")?, w, j), Int::S(w) => same_sync(&a.as_v4_sync_message().ok_or("not a synchronous message")?, w, j) }
}
fn same_dyn(a: &dyn Interaction, w: &dyn Interaction, j: &Value) -> Result<(), String> {
  eqv!(a.type_of(), w.type_of(), "type"); ens!(a.is_v4() == w.is_v4(), "is_v4");
  if let (Some(a), Some(w)) = (a.as_v4_http().filter(|_| w.is_v4()), w.as_v4_http()) { same_http(&a, &w, j) } else if let (Some(a), Some(w)) = (a.as_v4_sync_message(), w.as_v4_sync_message()) { same_sync(&a, &w, j) }
  else if let (Some(a), Some(w)) = (a.as_v4_async_message().filter(|_| w.is_v4()), w.as_v4_async_message()) { same_asyn(&a, &w, j) }
  else if let (Some(a), Some(w)) = (a.as_request_response(), w.as_request_response()) { same_rr(&a, &w, j) } else if let (Some(a), Some(w)) = (a.as_message(), w.as_message()) { same_m(&a, &w, j) } else { Err("of another kind".into()) }
}
fn same_rr(a: &RequestResponseInteraction, w: &RequestResponseInteraction, j: &Value) -> Result<(), String> { interj::same3(a, (&w.id, &w.description, &w.provider_states, &w.request, &w.response), j) }
fn same_m(a: &Message, w: &Message, j: &Value) -> Result<(), String> { eqv!(a.id, w.id, "id"); same_asyn(&a.as_v4_async_message().unwrap(), &w.as_v4_async_message().unwrap(), j) }
fn each<A, W>(n: &str, a: &[A], w: &[W], f: impl Fn(&A, &W) -> Result<(), String>) -> Result<(), String> { eqv!(a.len(), w.len(), format!("number of {}", n)); for (i, (a, w)) in a.iter().zip(w).enumerate() { f(a, w).map_err(|e| format!("{} {}: {}", n, i, e))?; } Ok(()) }
/// attributes given in one spelling only, no plugins
fn md_keys(r: &mut Rng) -> Vec<String> {
  let mut k: Vec<String> = (0..r.below(3)).map(|_| some_text(r)).filter(|k| !["plugins", "pactSpecification", "pact-specification", "pactRust", "pact-rust"].contains(&k.as_str())).collect();
  for p in [["pactSpecification", "pact-specification"], ["pactRust", "pact-rust"]] { if r.chance(2, 3) { k.push(r.pick(&p).to_string()); } } k
}
fn texts(r: &mut Rng) -> BTreeMap<String, String> { let mut m: BTreeMap<String, String> = inter::map(r, some_text, some_text).into_iter().collect(); if r.chance(1, 2) { m.insert("version".into(), if r.chance(1, 3) { some_text(r) } else { version(r) }); } if r.chance(1, 3) { m.insert("models".into(), "0.1".into()); } m }
fn version(r: &mut Rng) -> String { r.pick(&VERSIONS).0.to_string() }
/// version text, what it names strictly, what it is read as in a pact file
const VERSIONS: [(&str, Option<PactSpecification>, PactSpecification); 25] = [("1.0.0", Some(V1), V1), ("1.0", Some(V1), V1), ("1", Some(V1), V1), ("1.0.7", Some(V1), V1), ("1.1.0", Some(V1_1), V1_1), ("1.1", Some(V1_1), V1_1), ("1.2.0", None, V1), ("1.10.0", None, V1), ("2.0.0", Some(V2), V2), ("2", Some(V2), V2), ("2.1", None, V2), ("3.0.0", Some(V3), V3), ("3.0", Some(V3), V3), ("3.9.1", None, V3),
  ("4.0", Some(V4), V4), ("4", Some(V4), V4), ("4.0.0", Some(V4), V4), ("4.1.0", None, V4), ("5.0.0", None, Unknown), ("0.9", None, Unknown), ("10.0", None, Unknown), ("41", None, Unknown), ("", None, Unknown), ("unknown", None, Unknown), ("x.1", None, Unknown)];
pub fn md4(r: &mut Rng) -> BTreeMap<String, Value> { md_keys(r).into_iter().map(|k| (k, match r.below(3) { 0 => jval(r), 1 => json!(inter::jmap(r)), _ => json!(texts(r)) })).collect() }
pub fn md3(r: &mut Rng) -> Md3 { md_keys(r).into_iter().map(|k| (k, texts(r))).collect() }
fn new_name(k: &str) -> String { match k { "pact-specification" => "pactSpecification".into(), "pact-rust" => "pactRust".into(), k => k.into() } }
fn stamp<'a>(m: impl Iterator<Item = (&'a String, Value)>, s: &PactSpecification) -> Map<String, Value> {
  let mut o: Map<String, Value> = m.map(|(k, v)| (new_name(k), v)).collect(); o.insert("pactSpecification".into(), json!({ "version": ver(s) }));
  let e = o.entry("pactRust").or_insert(json!({})); if let Value::Object(m) = e { m.insert("models".into(), json!(PACT_RUST_VERSION.unwrap_or("unknown"))); } o
}
fn stamp4(m: &BTreeMap<String, Value>, s: &PactSpecification) -> Map<String, Value> { stamp(m.iter().map(|(k, v)| (k, v.clone())), s) }
fn stamp3(m: &Md3, s: &PactSpecification) -> Map<String, Value> { stamp(m.iter().map(|(k, v)| (k, json!(v))), s) }
fn to_md3(m: &Map<String, Value>) -> Md3 { m.iter().map(|(k, v)| (k.clone(), v.as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect())).collect() }
fn down(m: &BTreeMap<String, Value>) -> Md3 { m.iter().filter_map(|(k, v)| v.as_object().map(|o| (k.clone(), o.iter().map(|(k, v)| (k.clone(), jtext(v))).collect()))).collect() }
fn down_rr(m: &BTreeMap<String, Value>) -> Md3 { let mut d = down(m); if m.contains_key("pactSpecification") { d.insert("pactSpecification".into(), BTreeMap::from([("version".to_string(), "3.0.0".to_string())])); } d }
pub fn cmd(m: &BTreeMap<String, Value>) -> String { m.iter().map(|(k, v)| format!("{:?}: {}", k, cj(v))).collect::<Vec<_>>().join(", ") }
fn name(r: &mut Rng) -> String { if r.chance(1, 3) { r.pick(&["consumer", "provider", ""]).to_string() } else { some_text(r) } }
fn doc(c: &str, p: &str, k: &str, i: Vec<Value>, m: Map<String, Value>) -> Value { json!({ "consumer": { "name": c }, "provider": { "name": p }, k: i, "metadata": m }) }
pub fn plugin(r: &mut Rng) -> PluginData { PluginData { name: r.pick(&["a", "b", "é\n"]).to_string(), version: r.pick(&["1", "2"]).to_string(), configuration: inter::map(r, |r| r.pick(&["k", "l", "x y"]).to_string(), |r| if r.chance(1, 2) { json!({ "a": gen::json(r, 1), "b": gen::json(r, 1) }) } else { jval(r) }) } }
pub fn plugins(r: &mut Rng) -> Vec<PluginData> { let n = r.below(3); (0..n).map(|_| plugin(r)).collect() }
pub fn cpl(p: &[PluginData]) -> String { p.iter().map(|p| format!("{:?} {:?} {}", p.name, p.version, inter::cmap(&p.configuration, |k| k.clone(), cj))).collect::<Vec<_>>().join("; ") }
fn pl_j(p: &[PluginData]) -> Value { Value::Array(p.iter().map(|p| json!({ "name": p.name, "version": p.version, "configuration": p.configuration })).collect()) }
pub fn pact4(ints: &[Int], m: &BTreeMap<String, Value>, p: &[PluginData], a: &str, b: &str) -> V4Pact { V4Pact { consumer: Consumer { name: a.into() }, provider: Provider { name: b.into() }, interactions: ints.iter().map(|i| i.bx()).collect(), metadata: m.clone(), plugin_data: p.to_vec() } }
pub fn head(p: &dyn Pact, a: &str, b: &str, j: &Value) -> Result<(), String> { eqv!(p.consumer().name, a, format!("consumer after {}", j)); eqv!(p.provider().name, b, format!("provider after {}", j)); Ok(()) }
pub fn er<T>(x: anyhow::Result<T>) -> Result<T, String> { x.map_err(|e| e.to_string()) }
pub fn same_v4(p: &V4Pact, a: &str, b: &str, m: &BTreeMap<String, Value>, pl: &[PluginData], j: &Value) -> Result<(), String> { head(p, a, b, j)?; eqv!(cmd(&p.metadata), cmd(m), format!("metadata after {}", j)); eqv!(cpl(&p.plugin_data), cpl(pl), format!("plugins after {}", j)); eqv!(p.specification_version(), V4, "version"); Ok(()) }
fn v4(c: &mut Ctx, r: &mut Rng) {
  let n = r.below(5); let k = r.below(5); let ints: Vec<Int> = (0..n).map(|_| { let k = if k < 3 { k } else { r.below(3) }; Int::gen(r, k) }).collect();
  let (m, pl, a, b) = (md4(r), plugins(r), name(r), name(r)); let more = plugin(r); let id = r.pick(&["a", "b", "", "z"]).to_string(); let (lib, libv) = (if r.chance(1, 4) { "models".into() } else { some_text(r) }, some_text(r));
  let add = { let k = r.below(3); Int::gen(r, k) }; let s = *r.pick(&ALL);
  c.case("V4 pact", format!("{:?} {:?} metadata {{{}}} plugins [{}] interactions [{}]", a, b, cmd(&m), cpl(&pl), ints.iter().map(|i| i.show()).collect::<Vec<_>>().join(" | ")), || {
    let p = pact4(&ints, &m, &pl, &a, &b); let mut sorted: Vec<&Int> = ints.iter().collect(); sorted.sort_by(|x, y| x.desc().as_bytes().cmp(y.desc().as_bytes()));
    let mut md = stamp4(&m, &V4); if !pl.is_empty() { md.insert("plugins".into(), pl_j(&pl)); }
    let want = doc(&a, &b, "interactions", sorted.iter().map(|i| i.json()).collect(), md); let j = er(p.to_json(V4))?; eqv!(j, want, "to_json");
    let backs: Option<Vec<Int>> = sorted.iter().map(|i| i.back()).collect(); let d = via(&j);
    if let Some(bs) = &backs {
      let ps = [er(V4Pact::pact_from_json(&d, "here"))?, er(er(pact_models::v4::pact::from_json("here", &d))?.as_v4_pact())?, { let x = er(load_pact_from_json("here", &d))?; ens!(x.is_v4() && x.specification_version() == V4, "not loaded as V4"); er(x.as_v4_pact())? }];
      for q in &ps { same_v4(q, &a, &b, &stamp4(&m, &V4).into_iter().collect(), &pl, &j)?; each("interactions", &q.interactions, bs, |x, w| same_int(x.as_ref(), w, &j))?; eqv!(er(q.to_json(V4))?, j, "written again"); }
    }
    // what it says of itself
    let kinds = |k: usize| ints.iter().filter(|i| i.kind() == k).cloned().collect::<Vec<Int>>(); let mixed = (0..3).filter(|k| !kinds(*k).is_empty()).count() > 1;
    eqv!(p.has_mixed_interactions(), mixed, "has_mixed_interactions");
    for k in 0..3 { eqv!(p.has_interactions(KINDS[k].clone()), !kinds(k).is_empty(), "has_interactions"); each("filter_interactions", &p.filter_interactions(KINDS[k].clone()), &kinds(k), |x, w| same_int(x.as_v4().ok_or("not V4")?.as_ref(), w, &j))?; }
    let f = ints.iter().find(|i| i.id().as_deref() == Some(id.as_str())); let g = p.find_interaction_with_id(&id); eqv!(g.is_some(), f.is_some(), "found by id"); if let (Some(g), Some(f)) = (g, f) { same_int(g.as_ref(), f, &j)?; }
    eqv!(p.metadata(), down(&m), "metadata"); ens!(p.is_v4(), "is_v4"); eqv!(p.requires_plugins(), !pl.is_empty(), "requires_plugins"); eqv!(cpl(&p.plugin_data()), cpl(&pl), "plugin_data"); eqv!(p.default_file_name(), format!("{}-{}.json", a, b), "default_file_name");
    each("interactions()", &p.interactions(), &ints, |x, w| same_int(x.as_v4().ok_or("not V4")?.as_ref(), w, &j))?;
    for q in [p.boxed().as_v4_pact().unwrap(), p.arced().as_v4_pact().unwrap(), p.thread_safe().lock().unwrap().as_v4_pact().unwrap(), p.as_v4_pact().unwrap(), p.clone()] { same_v4(&q, &a, &b, &m, &pl, &j)?; each("copied interactions", &q.interactions, &ints, |x, w| same_int(x.as_ref(), w, &j))?; }
    let bx: Box<dyn Pact> = p.boxed(); ens!(bx.clone().eq(&bx), "a copy is not equal"); let mut o = p.clone(); o.consumer.name += "x"; let ob: Box<dyn Pact> = o.boxed(); ens!(!ob.eq(&bx), "equal to a pact of another consumer");
    // other forms
    let rr = er(p.as_request_response_pact())?; head(&rr, &a, &b, &j)?; eqv!(rr.metadata, down_rr(&m), "metadata of the request/response form"); eqv!(rr.specification_version, V3, "version"); each("request/response interactions", &rr.interactions, &kinds(0), |x, w| same_rr(x, &w.bx().as_request_response().unwrap(), &j))?;
    let mp = er(p.as_message_pact())?; head(&mp, &a, &b, &j)?; eqv!(mp.metadata, down(&m), "metadata of the message form"); eqv!(mp.specification_version, V3, "version"); each("messages", &mp.messages, &kinds(1), |x, w| same_m(x, &w.bx().as_message().unwrap(), &j))?;
    // and for other versions
    let w = if s == V4 { Some(want.clone()) } else if mixed { None } else if ints.is_empty() || ints[0].kind() == 0 { Some(doc(&a, &b, "interactions", ints.iter().map(|i| i.bx().as_request_response().unwrap().to_json(&s)).collect(), stamp3(&down_rr(&m), &s))) }
      else if ints[0].kind() == 1 && s == V3 { Some(doc(&a, &b, "messages", ints.iter().map(|i| i.bx().as_message().unwrap().to_json(&s)).collect(), stamp3(&down(&m), &s))) } else { None };
    // rules of V4 only have no older form
    let plain = s == V3 || s == V4 || ints.iter().all(|i| i.kind() != 0); if plain { eqv!(p.to_json(s).ok(), w, format!("to_json for {:?}", s)); }
    // additions
    let mut q = p.clone(); er(q.add_interaction(add.bx().as_ref()))?; let mut l = ints.clone(); l.push(add.clone()); each("interactions with one added", &q.interactions, &l, |x, w| same_int(x.as_ref(), w, &j))?; same_v4(&q, &a, &b, &m, &pl, &j)?;
    let conf = if more.configuration.is_empty() { None } else { Some(more.configuration.clone()) }; er(q.add_plugin(&more.name, &more.version, conf))?; let mut w = pl.clone();
    match w.iter_mut().find(|x| x.name == more.name && x.version == more.version) { Some(x) => for (k, v) in &more.configuration { let n = match x.configuration.get(k) { Some(o) => json_deep_merge(o, v), None => v.clone() }; x.configuration.insert(k.clone(), n); }, None => w.push(more.clone()) }
    same_v4(&q, &a, &b, &m, &w, &j)?;
    q.add_md_version(&lib, &libv); let mut m2 = m.clone(); match m2.get_mut("pactRust") { Some(Value::Object(o)) => { o.insert(lib.clone(), json!(libv)); } Some(_) => (), None => { m2.insert("pactRust".into(), json!({ lib.as_str(): libv })); } } same_v4(&q, &a, &b, &m2, &w, &j)?;
    for i in q.interactions_mut() { i.set_description("changed"); } each("changed interactions", &q.interactions, &l, |x, w| { eqv!(x.description(), "changed", "description"); eqv!(x.v4_type(), w.bx().v4_type(), "type"); Ok(()) })?;
    Ok(backs.is_some() && n > 0)
  });
}
fn versioned(m: &Md3, k: &str, v: &str) -> Md3 { let mut m = m.clone(); m.entry("pactRust".into()).or_default().insert(k.into(), v.into()); m }
fn v3(c: &mut Ctx, r: &mut Rng) {
  let s = *r.pick(&[V1, V1_1, V2, V3, V3, V3, V4]); let g = if s == V4 { V3 } else { s }; let n = r.below(4); let ints: Vec<RequestResponseInteraction> = (0..n).map(|_| RequestResponseInteraction { description: desc(r), ..interj::rr(r, &g) }).collect();
  let (m, a, b) = (md3(r), name(r), name(r)); let (lib, libv) = (some_text(r), some_text(r)); let add = { let k = r.below(3); Int::gen(r, k) };
  let ok = ints.iter().all(|i| [&i.request.matching_rules, &i.response.matching_rules].iter().all(|m| m.rules.values().all(|c| c.rules.values().all(|l| !l.rules.is_empty()))));
  if ok { c.case("pact", format!("{:?} {:?} {:?} metadata {:?} interactions [{}]", s, a, b, m, ints.iter().map(|i| format!("id {:?} {}", i.id, i.to_json(&g))).collect::<Vec<_>>().join(" | ")), || {
    let p = RequestResponsePact { consumer: Consumer { name: a.clone() }, provider: Provider { name: b.clone() }, interactions: ints.clone(), metadata: m.clone(), specification_version: g }; let j = er(p.to_json(s))?;
    if s == V4 { let mut w: Vec<&RequestResponseInteraction> = ints.iter().collect(); w.sort_by(|x, y| x.description.cmp(&y.description)); eqv!(j, doc(&a, &b, "interactions", w.iter().map(|i| i.as_v4_http().unwrap().to_json()).collect(), stamp3(&m, &s)), "to_json"); }
    else { eqv!(j, doc(&a, &b, "interactions", ints.iter().map(|i| i.to_json(&s)).collect(), stamp3(&m, &s)), "to_json"); }
    let d = via(&j); let md = to_md3(&stamp3(&m, &s));
    if s != V4 {
      let x = er(load_pact_from_json("here", &d))?; ens!(!x.is_v4() && x.as_message_pact().is_err(), "of another kind"); for q in [er(RequestResponsePact::from_json("here", &d))?, er(x.as_request_response_pact())?] {
        head(&q, &a, &b, &j)?; eqv!(q.metadata, md, "metadata read"); eqv!(q.specification_version, s, "version read"); eqv!(q.spec_version(), s, "spec_version"); let js = d["interactions"].as_array().unwrap();
        each("interactions read", &q.interactions, js, |x, w| same_rr(x, &RequestResponseInteraction::from_json(0, w, &s).unwrap(), w))?; each("interactions read", &q.interactions, &ints, |x, w| { eqv!(x.description, w.description, "description"); Ok(()) })?; eqv!(parse_meta_data(&d), md, "parse_meta_data");
      } }
    for q in [p.as_request_response_pact().unwrap(), p.boxed().as_request_response_pact().unwrap(), p.arced().as_request_response_pact().unwrap(), p.thread_safe().lock().unwrap().as_request_response_pact().unwrap()] { head(&q, &a, &b, &j)?; eqv!(q.metadata, m, "metadata"); eqv!(q.specification_version, g, "version"); each("interactions", &q.interactions, &ints, |x, w| same_rr(x, w, &j))?; }
    let v = er(p.as_v4_pact())?; same_v4(&v, &a, &b, &m.iter().map(|(k, v)| (k.clone(), json!(v))).collect(), &[], &j)?; each("V4 interactions", &v.interactions, &ints, |x, w| same_dyn(x.to_super(), &w.as_v4_http().unwrap(), &j))?;
    eqv!(p.metadata(), m, "metadata"); ens!(!p.is_v4() && !p.requires_plugins() && p.plugin_data().is_empty() && p.as_message_pact().is_err(), "kind"); eqv!(p.default_file_name(), format!("{}-{}.json", a, b), "default_file_name"); each("interactions()", &p.interactions(), &ints, |x, w| same_dyn(x.as_ref(), w, &j))?;
    let mut q = p.clone(); let x = q.add_interaction(add.bx().as_ref()); eqv!(x.is_ok(), add.kind() == 0, "added"); let mut l = ints.clone(); if let Int::H(h) = &add { l.push(h.as_request_response().unwrap()); } each("interactions with one added", &q.interactions, &l, |x, w| same_rr(x, w, &j))?;
    ens!(q.add_plugin("a", "1", None).is_err(), "plugin added"); q.add_md_version(&lib, &libv); eqv!(q.metadata, versioned(&m, &lib, &libv), "add_md_version"); for i in q.interactions_mut() { i.set_description("changed"); } ens!(q.interactions.iter().all(|i| i.description == "changed"), "set_description");
    Ok(n > 0)
  }); }
  let s = *r.pick(&[V1, V1_1, V2, V3, V3, V3, V4, Unknown]); let ints: Vec<Message> = (0..r.below(4)).map(|_| Message { description: desc(r), ..interj::message(r) }).collect();
  c.case("message pact", format!("{:?} {:?} {:?} metadata {:?} messages [{}]", s, a, b, m, ints.iter().map(|i| format!("id {:?} {}", i.id, i.to_json(&V3))).collect::<Vec<_>>().join(" | ")), || {
    let p = MessagePact { consumer: Consumer { name: a.clone() }, provider: Provider { name: b.clone() }, messages: ints.clone(), metadata: m.clone(), specification_version: V3 }; let x = p.to_json(s); eqv!(x.is_ok(), s == V3 || s == V4, "written");
    let j = x.unwrap_or(Value::Null); let d = via(&j);
    if s == V4 { let mut w: Vec<&Message> = ints.iter().collect(); w.sort_by(|x, y| x.description.cmp(&y.description)); eqv!(j, doc(&a, &b, "interactions", w.iter().map(|i| V4Interaction::to_json(&i.as_v4_async_message().unwrap())).collect(), stamp3(&m, &s)), "to_json"); }
    if s == V3 { eqv!(j, doc(&a, &b, "messages", ints.iter().map(|i| i.to_json(&s)).collect(), stamp3(&m, &s)), "to_json"); let md = to_md3(&stamp3(&m, &s));
      let x = er(load_pact_from_json("here", &d))?; ens!(!x.is_v4() && x.as_request_response_pact().is_err(), "of another kind"); for q in [er(MessagePact::from_json("here", &d))?, er(x.as_message_pact())?] {
        head(&q, &a, &b, &j)?; eqv!(q.metadata, md, "metadata read"); eqv!(q.specification_version, s, "version read"); eqv!(q.spec_version(), s, "spec_version"); let js = d["messages"].as_array().unwrap();
        each("messages read", &q.messages, js, |x, w| same_m(x, &Message::from_json(0, w, &s).unwrap(), w))?; each("messages read", &q.messages, &ints, |x, w| { eqv!(x.description, w.description, "description"); Ok(()) })?;
      } }
    for q in [p.as_message_pact().unwrap(), p.boxed().as_message_pact().unwrap(), p.arced().as_message_pact().unwrap(), p.thread_safe().lock().unwrap().as_message_pact().unwrap()] { head(&q, &a, &b, &j)?; eqv!(q.metadata, m, "metadata"); each("messages", &q.messages, &ints, |x, w| same_m(x, w, &j))?; }
    let v = er(p.as_v4_pact())?; same_v4(&v, &a, &b, &m.iter().map(|(k, v)| (k.clone(), json!(v))).collect(), &[], &j)?; each("V4 messages", &v.interactions, &ints, |x, w| same_dyn(x.to_super(), &w.as_v4_async_message().unwrap(), &j))?;
    eqv!(p.metadata(), m, "metadata"); ens!(!p.is_v4() && !p.requires_plugins() && p.plugin_data().is_empty() && p.as_request_response_pact().is_err(), "kind"); eqv!(p.default_file_name(), format!("{}-{}.json", a, b), "default_file_name"); each("interactions()", &p.interactions(), &ints, |x, w| same_dyn(x.as_ref(), w, &j))?;
    let mut q = p.clone(); let x = q.add_interaction(add.bx().as_ref()); eqv!(x.is_ok(), add.kind() == 1, "added"); let mut l = ints.clone(); if let Int::A(h) = &add { l.push(h.as_message().unwrap()); } each("messages with one added", &q.messages, &l, |x, w| same_m(x, w, &j))?;
    ens!(q.add_plugin("a", "1", None).is_err(), "plugin added"); q.add_md_version(&lib, &libv); eqv!(q.metadata, versioned(&m, &lib, &libv), "add_md_version"); for i in q.interactions_mut() { i.set_description("changed"); } ens!(q.messages.iter().all(|i| i.description == "changed"), "set_description");
    Ok(!ints.is_empty() && s == V3)
  });
}
fn hitem(v: &Value) -> String { match v { Value::String(s) => s.clone(), v => v.to_string() } }
fn party(d: &Value, k: &str) -> String { match d.get(k) { None => k.into(), Some(v) => match v.get("name") { None => k.into(), Some(v) => hitem(v) } } }
fn party_doc(r: &mut Rng) -> Value { match r.below(6) { 0 => jval(r), 1 => json!({}), 2 => json!({ "name": jval(r) }), _ => json!({ "name": name(r), "other": 1 }) } }
/// a version whose reading is fixed, with the specification it names
fn version_doc(r: &mut Rng) -> (Value, PactSpecification) {
  match r.below(8) { 0 => { let x = r.pick(&[(json!(1), V1), (json!(2.0), V2), (json!(3), V3), (json!(4), V4), (json!(1.1), V1_1), (json!(7), Unknown), (json!(true), Unknown), (json!([]), Unknown), (json!({ "a": 1 }), Unknown)]).clone(); x } _ => { let x = r.pick(&VERSIONS); (json!(x.0), x.2) } }
}
fn documents(c: &mut Ctx, r: &mut Rng) {
  let mut o = Map::new(); if r.chance(4, 5) { o.insert("consumer".into(), party_doc(r)); } if r.chance(4, 5) { o.insert("provider".into(), party_doc(r)); }
  let mut s = V3; let mut mine = HashMap::new(); let mut has_md = false;
  if r.chance(9, 10) { let mut m: Map<String, Value> = md4(r).into_iter().filter(|x| !x.0.ends_with("pecification")).collect(); has_md = true;
    if r.chance(1, 5) { m.insert(r.pick(&["pactSpecification", "pact-specification"]).to_string(), match r.below(3) { 0 => json!("4.0"), 1 => json!({ "Version": "4.0" }), _ => Value::Null }); } else if r.chance(7, 8) { let (v, x) = version_doc(r); s = x; m.insert(r.pick(&["pactSpecification", "pact-specification"]).to_string(), json!({ "version": v, "other": 1 })); }
    if r.chance(1, 3) { m.insert("plugins".into(), if r.chance(1, 5) { jval(r) } else { let n = r.below(4); Value::Array((0..n).map(|_| { let mut p = json!(plugin(r)); match r.below(6) { 0 => return jval(r), 1 => { p["configuration"] = json!(1); } 2 => { p["more"] = json!(1); } 3 => { p.as_object_mut().unwrap().remove(*r.pick(&["name", "version", "configuration"])); } _ => () } p }).collect()) }); }
    mine = m.clone().into_iter().collect(); o.insert("metadata".into(), Value::Object(m)); } else if r.chance(1, 2) { o.insert("metadata".into(), match jval(r) { Value::Object(_) => json!("x"), v => v }); }
  let el = |r: &mut Rng| -> Value { match s {
    V4 => { let k = r.below(3); let mut j = Int::gen(r, k).json(); if r.chance(1, 4) { for (k, v) in interj::com_doc(r) { j[k] = v; } } match r.below(20) { 0 => jval(r), 1 => { j.as_object_mut().unwrap().remove("type"); j } 2 => { j["type"] = r.pick(&[json!("Synchronous/http"), json!(1), json!("Synchronous/HTTP"), json!("Asynchronous/Message"), Value::Null]).clone(); j } _ => j } }
    _ => { let g = if s == Unknown { V3 } else { s }; let mut j = interj::rr(r, &g).to_json(&g); if r.chance(1, 4) { for (k, v) in interj::com_doc(r) { j[k] = v; } } if r.chance(1, 12) { let k = *r.pick(&["request", "response"]); j[k] = interj::part_doc(r, j[k].clone()); } if r.chance(1, 20) { jval(r) } else { j } } } };
  if r.chance(9, 10) { let n = r.below(4); let v = if r.chance(1, 10) { jval(r) } else { Value::Array((0..n).map(|_| el(r)).collect()) }; o.insert("interactions".into(), v); }
  let msgs = r.chance(1, 3); if msgs { let n = r.below(4); let v = if r.chance(1, 10) { jval(r) } else { Value::Array((0..n).map(|_| { let m = interj::message(r).to_json(&V3); if r.chance(1, 12) { jval(r) } else { m } }).collect()) }; o.insert("messages".into(), v); }
  let d = if r.chance(1, 20) { match jval(r) { Value::Object(_) => json!([]), v => v } } else { Value::Object(o) };
  c.case("document", format!("{:?} {}", s, d), || {
    let x = load_pact_from_json("here", &d); if !d.is_object() { ens!(x.is_err(), "read"); return Ok(true); }
    let (a, b) = (party(&d, "consumer"), party(&d, "provider")); let list = |k: &str| d.get(k).and_then(|v| v.as_array()).cloned().unwrap_or_default();
    let md: Md3 = mine.iter().map(|(k, v)| (new_name(k), match v { Value::Object(o) => o.iter().map(|(k, v)| (k.clone(), hitem(v))).collect(), _ => BTreeMap::new() })).collect(); eqv!(parse_meta_data(&d), md, "parse_meta_data"); eqv!(determine_spec_version("here", &md), s, "determine_spec_version"); ens!(has_md || md.is_empty(), "harness");
    let i4: Vec<_> = list("interactions").iter().enumerate().map(|(i, v)| interaction_from_json("", i, v)).collect(); let i3: Vec<_> = list("interactions").iter().enumerate().map(|(i, v)| RequestResponseInteraction::from_json(i, v, &s)).collect();
    let im: Vec<_> = list("messages").iter().enumerate().map(|(i, v)| Message::from_json(i, v, &s)).collect();
    if s == V4 {
      let ok = i4.iter().all(|x| x.is_ok()); for y in [x.and_then(|p| { if p.is_v4() { p.as_v4_pact() } else { anyhow::bail!("not loaded as V4") } }), V4Pact::pact_from_json(&d, "here"), pact_models::v4::pact::from_json("here", &d).and_then(|p| p.as_v4_pact())] {
        eqv!(y.is_ok(), ok, "readable"); if let Ok(p) = y { let mut m: BTreeMap<String, Value> = mine.clone().into_iter().collect(); let pl: Vec<PluginData> = match m.remove("plugins") { Some(Value::Array(v)) => v.iter().filter_map(plugin_of).collect(), _ => vec![] };
          same_v4(&p, &a, &b, &m, &pl, &d)?; let w: Vec<_> = i4.iter().map(|x| x.as_ref().unwrap()).collect(); each("interactions", &p.interactions, &w, |x, w| same_dyn(x.to_super(), w.to_super(), &d))?; } }
      let y = RequestResponsePact::from_json("here", &d); eqv!(y.is_ok(), ok, "readable"); if let Ok(p) = y { head(&p, &a, &b, &d)?; let w: Vec<_> = i4.iter().filter_map(|x| x.as_ref().unwrap().as_request_response()).collect(); each("interactions", &p.interactions, &w, |x, w| same_rr(x, w, &d))?; }
    } else {
      if msgs { let x = x.and_then(|p| p.as_message_pact()); same_msgs(x, &a, &b, &md, &s, &im, &d)?; } else { let x = x.and_then(|p| { if p.is_v4() { anyhow::bail!("loaded as V4") } else { p.as_request_response_pact() } }); same_pact(x, &a, &b, &md, &s, &i3, &d)?; }
      same_pact(RequestResponsePact::from_json("here", &d), &a, &b, &md, &s, &i3, &d)?;
    }
    if s != V4 { same_msgs(MessagePact::from_json("here", &d), &a, &b, &md, &s, &im, &d)?; }
    Ok(true)
  });
}
fn plugin_of(v: &Value) -> Option<PluginData> { let o = v.as_object(); let t = |k: &str| match v { Value::Object(o) => o.get(k).and_then(|x| x.as_str()).map(|s| s.to_string()), _ => None };
  match o { Some(o) => Some(PluginData { name: t("name")?, version: t("version")?, configuration: match o.get("configuration") { None => HashMap::new(), Some(Value::Object(m)) => m.iter().map(|(k, v)| (k.clone(), v.clone())).collect(), _ => return None } }), None => serde_json::from_value(v.clone()).ok() } }
fn same_pact(x: anyhow::Result<RequestResponsePact>, a: &str, b: &str, md: &Md3, s: &PactSpecification, i: &[anyhow::Result<RequestResponseInteraction>], d: &Value) -> Result<(), String> {
  eqv!(x.is_ok(), i.iter().all(|x| x.is_ok()), "readable"); if let Ok(p) = x { head(&p, a, b, d)?; eqv!(p.metadata, *md, "metadata"); eqv!(p.specification_version, *s, "version"); each("interactions", &p.interactions, i, |x, w| same_rr(x, w.as_ref().unwrap(), d))?; } Ok(())
}
fn same_msgs(x: anyhow::Result<MessagePact>, a: &str, b: &str, md: &Md3, s: &PactSpecification, i: &[anyhow::Result<Message>], d: &Value) -> Result<(), String> {
  eqv!(x.is_ok(), i.iter().all(|x| x.is_ok()) && d.get("messages").map_or(true, |v| v.is_array()), "readable"); if let Ok(p) = x { head(&p, a, b, d)?; eqv!(p.metadata, *md, "metadata"); eqv!(p.specification_version, *s, "version"); each("messages", &p.messages, i, |x, w| same_m(x, w.as_ref().unwrap(), d))?; } Ok(())
}
fn versions(c: &mut Ctx, r: &mut Rng) {
  for (t, strict, read) in VERSIONS { c.case("version", t.into(), || { eqv!(PactSpecification::parse_version(t).ok(), strict, "parse_version"); eqv!(PactSpecification::parse_version(t.to_string()).ok(), strict, "parse_version");
    for k in ["pactSpecification", "pact-specification"] { let m: Md3 = BTreeMap::from([(k.to_string(), BTreeMap::from([("version".to_string(), t.to_string())]))]); eqv!(determine_spec_version("x", &m), read, "determine_spec_version"); } Ok(true) }); }
  for s in ALL { c.case("specification", format!("{:?}", s), || { eqv!(s.version_str(), ver(&s), "version_str"); let n = match s { V1 => "V1", V1_1 => "V1.1", V2 => "V2", V3 => "V3", V4 => "V4", _ => "unknown" }; eqv!(s.to_string(), n, "display"); eqv!(PactSpecification::parse_version(ver(&s)).ok(), if s == Unknown { None } else { Some(s) }, "parse_version of version_str");
    for t in [n.to_string(), n.to_lowercase(), n.to_uppercase()] { eqv!(PactSpecification::from(t.as_str()), s, "from &str"); eqv!(PactSpecification::from(&t), s, "from &String"); eqv!(PactSpecification::from(t.clone()), s, "from String"); } for t in ALL { eqv!(s == t, ver(&s) == ver(&t), "=="); } Ok(true) }); }
  for _ in 0..20 { let b = r.pick(&["V1", "v1.1", "V2", "v3", "V4", "unknown", "V1_1", "1", "V"]).to_string(); let t = r.perturb(&b); c.case("specification name", format!("{:?}", t), || { let w = match t.to_uppercase().as_str() { "V1" => V1, "V1.1" => V1_1, "V2" => V2, "V3" => V3, "V4" => V4, _ => Unknown }; eqv!(PactSpecification::from(t.as_str()), w, "from"); Ok(true) }); }
  c.case("defaults", "".into(), || {
    let p = RequestResponsePact::default(); head(&p, "default_consumer", "default_provider", &Value::Null)?; let m: Md3 = BTreeMap::from([("pactSpecification".to_string(), BTreeMap::from([("version".to_string(), "3.0.0".to_string())])), ("pactRust".to_string(), BTreeMap::from([("models".to_string(), PACT_RUST_VERSION.unwrap().to_string())]))]); eqv!(p.metadata, m, "metadata"); eqv!(p.specification_version, V3, "version"); ens!(p.interactions.is_empty(), "interactions"); eqv!(p.spec_version(), V3, "spec_version");
    let p = MessagePact::default(); head(&p, "default_consumer", "default_provider", &Value::Null)?; eqv!(p.specification_version, V3, "version"); eqv!(p.spec_version(), V3, "spec_version"); ens!(p.messages.is_empty(), "messages"); let j = p.to_json(V3).unwrap(); eqv!(j["metadata"], json!({ "pactSpecification": { "version": "3.0.0" }, "pactRust": { "version": PACT_RUST_VERSION.unwrap(), "models": PACT_RUST_VERSION.unwrap() } }), "metadata");
    let p = V4Pact::default(); same_v4(&p, "", "", &BTreeMap::new(), &[], &Value::Null)?; ens!(p.interactions.is_empty(), "interactions"); let b: Box<dyn Pact> = Default::default(); ens!(b.is_v4(), "default pact"); Ok(true)
  });
}
pub fn c24(c: &mut Ctx) {
  let mut r = c.rng(24);
  for i in 0..c.n(700) { if c.stop() { return; } if i % 70 == 0 { versions(c, &mut r); } v4(c, &mut r); v3(c, &mut r); documents(c, &mut r); documents(c, &mut r); }
}
