//! C20 interactions and their JSON forms
use crate::fw::*;
use crate::gen;
use crate::inter::{self, cj, cmap, jval, some_text};
use crate::parts::{self, jtext, obj, same_msg, same_req, same_res};
use crate::rulesj;
use pact_models::generators::Generators;
use pact_models::interaction::{http_interaction_from_json, message_interaction_from_json, Interaction};
use pact_models::matchingrules::MatchingRules;
use pact_models::message::Message;
use pact_models::provider_states::ProviderState;
use pact_models::request::Request;
use pact_models::response::Response;
use pact_models::sync_interaction::RequestResponseInteraction;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::v4::interaction::{interaction_from_json, interactions_from_json, InteractionMarkup, V4Interaction};
use pact_models::v4::message_parts::MessageContents;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use pact_models::v4::V4InteractionType;
use pact_models::PactSpecification;
use serde_json::{json, Map, Value};
use std::collections::HashMap;

type Conf = HashMap<String, HashMap<String, Value>>;
/// what all V4 interactions have
#[derive(Clone, Debug)]
pub struct Com { pub id: Option<String>, pub key: Option<String>, pub description: String, pub states: Vec<ProviderState>, pub comments: HashMap<String, Value>, pub pending: bool, pub conf: Conf, pub markup: InteractionMarkup, pub transport: Option<String> }
pub fn cstates(v: &[ProviderState]) -> String { v.iter().map(|s| format!("{:?} {}", s.name, cvals(&s.params))).collect::<Vec<_>>().join("; ") }
fn cvals(m: &HashMap<String, Value>) -> String { cmap(m, |k| format!("{:?}", k), cj) }
impl Com {
  pub fn show(&self) -> String { format!("id {:?} key {:?} {:?} states [{}] comments {} pending {} plugins {} markup {:?} transport {:?}", self.id, self.key, self.description, cstates(&self.states), cvals(&self.comments), self.pending, cmap(&self.conf, |k| format!("{:?}", k), cvals), self.markup, self.transport) }
  /// as read back from JSON
  pub fn back(&self) -> Com { let mut c = self.clone(); c.id = None; c.comments.retain(|_, v| !empty(v)); if c.markup.markup.is_empty() { c.markup = InteractionMarkup::default(); } c }
  fn json(&self, t: &str) -> Vec<(&'static str, Option<Value>)> {
    let comments: Map<String, Value> = self.comments.iter().filter(|x| !empty(x.1)).map(|(k, v)| (k.clone(), v.clone())).collect();
    vec![("type", Some(json!(t))), ("description", Some(json!(self.description))), ("pending", Some(json!(self.pending))), ("key", self.key.as_ref().map(|k| json!(k))), ("providerStates", states_j(&self.states)),
      ("comments", if comments.is_empty() { None } else { Some(Value::Object(comments)) }), ("pluginConfiguration", if self.conf.is_empty() { None } else { Some(json!(self.conf)) }),
      ("interactionMarkup", if self.markup.markup.is_empty() { None } else { Some(json!({ "markup": self.markup.markup, "markupType": self.markup.markup_type })) }), ("transport", self.transport.as_ref().map(|k| json!(k)))]
  }
}
macro_rules! com { ($x:expr) => { { let x = $x; Com { id: x.id.clone(), key: x.key.clone(), description: x.description.clone(), states: x.provider_states.clone(), comments: x.comments.clone(), pending: x.pending, conf: x.plugin_config.clone(), markup: x.interaction_markup.clone(), transport: x.transport.clone() } } } }
pub(crate) use com;
fn empty(v: &Value) -> bool { match v { Value::Null => true, Value::String(s) => s.is_empty(), Value::Array(a) => a.is_empty(), Value::Object(o) => o.is_empty(), _ => false } }
pub fn states_j(v: &[ProviderState]) -> Option<Value> { if v.is_empty() { None } else { Some(Value::Array(v.iter().map(|s| obj(vec![("name", Some(json!(s.name))), ("params", if s.params.is_empty() { None } else { Some(json!(s.params)) })])).collect())) } }
pub fn via(j: &Value) -> Value { serde_json::from_str(&j.to_string()).unwrap() }
fn comments(r: &mut Rng) -> HashMap<String, Value> { let mut m = inter::map(r, some_text, jval); if r.chance(1, 3) { m.insert("text".into(), json!([some_text(r)])); } if r.chance(1, 3) { m.insert(some_text(r), r.pick(&[Value::Null, json!(""), json!([]), json!({}), json!(false), json!(0), json!([null]), json!({ "a": {} })]).clone()); } m }
fn states(r: &mut Rng) -> Vec<ProviderState> { let n = r.below(4); (0..n).map(|_| inter::state(r)).collect() }
fn markup(r: &mut Rng) -> InteractionMarkup { if r.chance(1, 3) { InteractionMarkup::default() } else { InteractionMarkup { markup: some_text(r), markup_type: if r.chance(1, 4) { some_text(r) } else { r.pick(&["COMMON_MARK", "HTML"]).to_string() } } } }
pub fn http(r: &mut Rng) -> SynchronousHttp { SynchronousHttp { provider_states: states(r), comments: comments(r), interaction_markup: markup(r), pending: r.chance(1, 2), request: parts::rt_req(r), response: parts::rt_res(r), ..inter::http(r) } }
pub fn asyn(r: &mut Rng) -> AsynchronousMessage { AsynchronousMessage { provider_states: states(r), comments: comments(r), interaction_markup: markup(r), pending: r.chance(1, 2), contents: parts::rt_msg(r), ..inter::asyn(r) } }
pub fn sync(r: &mut Rng) -> SynchronousMessage { let n = r.below(4); SynchronousMessage { provider_states: states(r), comments: comments(r), interaction_markup: markup(r), pending: r.chance(1, 2), request: parts::rt_msg(r), response: (0..n).map(|_| parts::rt_msg(r)).collect(), ..inter::sync(r) } }
pub fn http_json(i: &SynchronousHttp) -> Value { let mut v = com!(i).json("Synchronous/HTTP"); v.push(("request", Some(parts::req_json(&i.request)))); v.push(("response", Some(parts::res_json(&i.response)))); obj(v) }
pub fn asyn_json(i: &AsynchronousMessage) -> Value { let mut j = obj(com!(i).json("Asynchronous/Messages")); for (k, v) in parts::msg_json(&i.contents).as_object().unwrap() { j[k] = v.clone(); } j }
pub fn sync_json(i: &SynchronousMessage) -> Value { let mut v = com!(i).json("Synchronous/Messages"); v.push(("request", Some(parts::msg_json(&i.request)))); v.push(("response", Some(Value::Array(i.response.iter().map(parts::msg_json).collect())))); obj(v) }
pub fn show_http(i: &SynchronousHttp) -> String { format!("{} {}", com!(i).show(), http_json(i)) }
pub fn show_asyn(i: &AsynchronousMessage) -> String { format!("{} {}", com!(i).show(), asyn_json(i)) }
pub fn show_sync(i: &SynchronousMessage) -> String { format!("{} {}", com!(i).show(), sync_json(i)) }
/// None when the parts do not read back the same for all such values
pub fn back_http(i: &SynchronousHttp) -> Option<SynchronousHttp> { let c = com!(i).back(); Some(SynchronousHttp { id: None, comments: c.comments, interaction_markup: c.markup, request: parts::back_req(&i.request)?, response: parts::back_res(&i.response)?, ..i.clone() }) }
pub fn back_asyn(i: &AsynchronousMessage) -> Option<AsynchronousMessage> { let c = com!(i).back(); Some(AsynchronousMessage { id: None, comments: c.comments, interaction_markup: c.markup, contents: parts::back_msg(&i.contents)?, ..i.clone() }) }
pub fn back_sync(i: &SynchronousMessage) -> Option<SynchronousMessage> { let c = com!(i).back(); Some(SynchronousMessage { id: None, comments: c.comments, interaction_markup: c.markup, request: parts::back_msg(&i.request)?, response: i.response.iter().map(parts::back_msg).collect::<Option<Vec<_>>>()?, ..i.clone() }) }
fn same_com(a: Com, w: Com, j: &Value) -> Result<(), String> { eqv!(a.show(), w.show(), format!("after {}", j)); Ok(()) }
pub fn same_http(a: &SynchronousHttp, w: &SynchronousHttp, j: &Value) -> Result<(), String> { same_com(com!(a), com!(w), j)?; same_req(&a.request, &w.request, j).map_err(|e| format!("request {}", e))?; same_res(&a.response, &w.response, j).map_err(|e| format!("response {}", e)) }
pub fn same_asyn(a: &AsynchronousMessage, w: &AsynchronousMessage, j: &Value) -> Result<(), String> { same_com(com!(a), com!(w), j)?; same_msg(&a.contents, &w.contents, j) }
pub fn same_sync(a: &SynchronousMessage, w: &SynchronousMessage, j: &Value) -> Result<(), String> { same_com(com!(a), com!(w), j)?; same_msg(&a.request, &w.request, j).map_err(|e| format!("request {}", e))?; eqv!(a.response.len(), w.response.len(), format!("responses after {}", j)); for (i, (x, y)) in a.response.iter().zip(&w.response).enumerate() { same_msg(x, y, j).map_err(|e| format!("response {} {}", i, e))?; } Ok(()) }
fn e<T>(r: anyhow::Result<T>, j: &Value) -> Result<T, String> { r.map_err(|e| format!("reading {}: {}", j, e)) }
/// the document of one interaction, through the functions that read one of any kind
fn any(j: &Value, i: usize) -> Result<Vec<Box<dyn V4Interaction + Send + Sync + std::panic::RefUnwindSafe>>, String> {
  let mut v = vec![e(interaction_from_json("here", i, j), j)?]; let mut docs = vec![json!({ "type": "Synchronous/HTTP" }); i]; docs.push(j.clone());
  let l = e(interactions_from_json(&json!({ "interactions": docs }), "here"), j)?; eqv!(l.len(), i + 1, "interactions"); v.extend(l.into_iter().skip(i));
  v.push(e(http_interaction_from_json("here", j, &PactSpecification::V4), j)?.as_v4().ok_or("not V4")?); v.push(e(message_interaction_from_json("here", j, &PactSpecification::V4), j)?.as_v4().ok_or("not V4")?);
  Ok(v)
}
/// what an interaction says about itself
fn facts<T: V4Interaction + Interaction>(i: &T, c: &Com, t: V4InteractionType, name: &str) -> Result<(), String> {
  eqv!(i.v4_type(), t, "v4_type"); eqv!(i.type_of(), format!("V4 {}", name), "type_of"); ens!(i.is_v4(), "is_v4"); eqv!(t.to_string(), name, "type");
  eqv!(i.is_v4_http(), t == V4InteractionType::Synchronous_HTTP, "is_v4_http"); eqv!(i.is_v4_async_message(), t == V4InteractionType::Asynchronous_Messages, "is_v4_async_message"); eqv!(i.is_v4_sync_message(), t == V4InteractionType::Synchronous_Messages, "is_v4_sync_message");
  eqv!(i.as_v4_http().is_some(), i.is_v4_http(), "as_v4_http"); eqv!(i.as_v4_async_message().is_some(), i.is_v4_async_message(), "as_v4_async_message"); eqv!(i.as_v4_sync_message().is_some(), i.is_v4_sync_message(), "as_v4_sync_message");
  eqv!(i.is_request_response(), i.is_v4_http(), "is_request_response"); eqv!(i.is_message(), i.is_v4_async_message(), "is_message"); eqv!(i.as_request_response().is_some(), i.is_v4_http(), "as_request_response"); eqv!(i.as_message().is_some(), i.is_v4_async_message(), "as_message");
  let a = Com { id: i.id(), key: i.key(), description: i.description(), states: i.provider_states(), comments: i.comments(), pending: i.pending(), conf: i.plugin_config(), markup: i.interaction_markup(), transport: i.transport() };
  eqv!(a.show(), c.show(), "accessors"); Ok(())
}
fn v4(c: &mut Ctx, r: &mut Rng) {
  let i = http(r); let n = r.below(3);
  c.case("V4 http", show_http(&i), || {
    let j = i.to_json(); eqv!(j, http_json(&i), "to_json"); facts(&i, &com!(&i), V4InteractionType::Synchronous_HTTP, "Synchronous/HTTP")?;
    let w = back_http(&i); if let Some(w) = &w { let d = via(&j); let b = e(SynchronousHttp::from_json(&d, n), &j)?; same_http(&b, w, &j)?; eqv!(b.to_json(), j, "written again"); for x in any(&d, n)? { same_http(&x.as_v4_http().ok_or("not HTTP")?, w, &j)?; eqv!(x.to_json(), j, "written again"); } }
    let q = i.as_request_response().unwrap(); let x = q.as_v4_http().unwrap(); let z = SynchronousHttp { key: None, comments: HashMap::new(), pending: false, plugin_config: HashMap::new(), interaction_markup: InteractionMarkup::default(), transport: None, ..i.clone() }; same_http(&x, &z, &json!("as_request_response"))?;
    same_http(&i.boxed().as_v4_http().unwrap(), &i, &json!("boxed"))?; same_http(&i.arced().as_v4_http().unwrap(), &i, &json!("arced"))?; same_http(&i.boxed_v4().clone().as_v4_http().unwrap(), &i, &json!("boxed_v4"))?; let s: Box<dyn Interaction> = i.boxed(); same_http(&s.clone().as_v4_http().unwrap(), &i, &json!("clone"))?; eqv!(s.to_string(), i.clone().as_request_response().unwrap().to_string(), "display");
    Ok(w.is_some())
  });
  let i = asyn(r); let n = r.below(3);
  c.case("V4 message", show_asyn(&i), || {
    let j = i.to_json(); eqv!(j, asyn_json(&i), "to_json"); facts(&i, &com!(&i), V4InteractionType::Asynchronous_Messages, "Asynchronous/Messages")?;
    let w = back_asyn(&i); if let Some(w) = &w { let d = via(&j); let b = e(AsynchronousMessage::from_json(&d, n), &j)?; same_asyn(&b, w, &j)?; eqv!(b.to_json(), j, "written again"); for x in any(&d, n)? { same_asyn(&x.as_v4_async_message().ok_or("not a message")?, w, &j)?; eqv!(x.to_json(), j, "written again"); } }
    let m = i.as_message().unwrap(); let x = m.as_v4_async_message().unwrap(); let mut z = AsynchronousMessage { key: None, comments: HashMap::new(), pending: false, plugin_config: HashMap::new(), interaction_markup: InteractionMarkup::default(), transport: None, ..i.clone() };
    // the type of the contents is kept in the metadata
    if let Some(t) = i.contents.contents.content_type() { z.contents.metadata.entry("contentType".into()).or_insert(json!(t.to_string())); } same_asyn(&x, &z, &json!("as_message"))?;
    same_asyn(&i.boxed().as_v4_async_message().unwrap(), &i, &json!("boxed"))?; same_asyn(&i.boxed_v4().clone().as_v4_async_message().unwrap(), &i, &json!("boxed_v4"))?; let s: Box<dyn Interaction> = i.boxed(); same_asyn(&s.clone().as_v4_async_message().unwrap(), &i, &json!("clone"))?;
    Ok(w.is_some())
  });
  let i = sync(r); let n = r.below(3);
  c.case("V4 sync message", show_sync(&i), || {
    let j = i.to_json(); eqv!(j, sync_json(&i), "to_json"); facts(&i, &com!(&i), V4InteractionType::Synchronous_Messages, "Synchronous/Messages")?;
    let w = back_sync(&i); if let Some(w) = &w { let d = via(&j); let b = e(SynchronousMessage::from_json(&d, n), &j)?; same_sync(&b, w, &j)?; eqv!(b.to_json(), j, "written again"); for x in any(&d, n)? { same_sync(&x.as_v4_sync_message().ok_or("not a sync message")?, w, &j)?; eqv!(x.to_json(), j, "written again"); } }
    same_sync(&i.boxed().as_v4_sync_message().unwrap(), &i, &json!("boxed"))?; same_sync(&i.boxed_v4().clone().as_v4_sync_message().unwrap(), &i, &json!("boxed_v4"))?; let s: Box<dyn Interaction> = i.boxed(); same_sync(&s.clone().as_v4_sync_message().unwrap(), &i, &json!("clone"))?; eqv!(s.to_string(), i.to_string(), "display");
    Ok(w.is_some())
  });
  let (a, b) = (markup(r), markup(r));
  c.case("markup", format!("{:?} {:?}", a, b), || { let m = a.merge(b.clone()); let w = if a.markup.is_empty() { b.clone() } else if b.markup.is_empty() { a.clone() } else { InteractionMarkup { markup: format!("{}\n{}", a.markup, b.markup), markup_type: a.markup_type.clone() } }; eqv!(m, w, "merge"); eqv!(a.is_empty(), a.markup.is_empty(), "is_empty"); eqv!(InteractionMarkup::from_json(&a.to_json()), a, "read back"); Ok(true) });
}
fn state_doc(r: &mut Rng) -> Value { if r.chance(1, 10) { return jval(r); } let mut m = Map::new(); if r.chance(7, 8) { m.insert("name".into(), if r.chance(1, 6) { jval(r) } else { json!(some_text(r)) }); } if r.chance(2, 3) { m.insert("params".into(), if r.chance(1, 6) { jval(r) } else { json!(inter::map(r, some_text, jval)) }); } if r.chance(1, 10) { m.insert(some_text(r), jval(r)); } Value::Object(m) }
fn states_doc(r: &mut Rng, m: &mut Map<String, Value>) {
  if r.chance(1, 2) { let n = r.below(4); m.insert("providerStates".into(), if r.chance(1, 8) { jval(r) } else { Value::Array((0..n).map(|_| state_doc(r)).collect()) }); }
  for k in ["providerState", "provider_state"] { if r.chance(1, 4) { m.insert(k.into(), match r.below(5) { 0 => jval(r), 1 => Value::Null, 2 => json!(""), _ => json!(some_text(r)) }); } }
}
fn text_of(v: &Value) -> String { match v { Value::String(s) => s.clone(), v => v.to_string() } }
fn map_of(v: Option<&Value>) -> HashMap<String, Value> { match v { Some(Value::Object(m)) => m.iter().map(|(k, v)| (k.clone(), v.clone())).collect(), _ => HashMap::new() } }
pub fn states_want(d: &Value) -> Vec<ProviderState> {
  match d.get("providerStates") { Some(Value::Array(a)) => a.iter().map(|s| ProviderState { name: s.get("name").map(text_of).unwrap_or("unknown provider states".into()), params: map_of(s.get("params")) }).collect(), Some(_) => vec![],
    None => match d.get("providerState").or(d.get("provider_state")) { None | Some(Value::Null) => vec![], Some(Value::String(s)) if s.is_empty() => vec![], Some(v) => vec![ProviderState { name: text_of(v), params: HashMap::new() }] } }
}
pub fn com_doc(r: &mut Rng) -> Map<String, Value> {
  let mut m = Map::new(); if r.chance(1, 4) { m.insert("_id".into(), if r.chance(1, 3) { jval(r) } else { json!(some_text(r)) }); } if r.chance(1, 3) { m.insert("key".into(), if r.chance(1, 3) { jval(r) } else { json!(some_text(r)) }); }
  if r.chance(4, 5) { m.insert("description".into(), if r.chance(1, 5) { jval(r) } else { json!(some_text(r)) }); } states_doc(r, &mut m);
  if r.chance(1, 3) { m.insert("comments".into(), if r.chance(1, 4) { jval(r) } else { json!(comments(r)) }); } if r.chance(1, 3) { m.insert("pending".into(), if r.chance(1, 4) { jval(r) } else { json!(r.chance(1, 2)) }); }
  if r.chance(1, 3) { m.insert("pluginConfiguration".into(), if r.chance(1, 5) { jval(r) } else { json!(inter::map(r, some_text, |r| if r.chance(1, 4) { jval(r) } else { json!(inter::jmap(r)) })) }); }
  if r.chance(1, 3) { m.insert("interactionMarkup".into(), if r.chance(1, 5) { jval(r) } else { let mut x = Map::new(); for k in ["markup", "markupType"] { if r.chance(5, 6) { x.insert(k.into(), if r.chance(1, 5) { jval(r) } else { json!(some_text(r)) }); } } Value::Object(x) }); }
  if r.chance(1, 3) { m.insert("transport".into(), if r.chance(1, 5) { jval(r) } else { json!(some_text(r)) }); } if r.chance(1, 10) { m.insert(some_text(r), jval(r)); }
  m
}
fn com_want(d: &Value, i: usize) -> Com {
  let t = |k: &str| d.get(k).map(jtext);
  Com { id: t("_id"), key: t("key"), description: d.get("description").map(text_of).unwrap_or(format!("Interaction {}", i)), states: states_want(d), comments: map_of(d.get("comments")), pending: d.get("pending") == Some(&json!(true)),
    conf: map_of(d.get("pluginConfiguration")).iter().map(|(k, v)| (k.clone(), map_of(Some(v)))).collect(), markup: match d.get("interactionMarkup") { Some(Value::Object(m)) => InteractionMarkup { markup: m.get("markup").map(jtext).unwrap_or_default(), markup_type: m.get("markupType").map(jtext).unwrap_or_default() }, _ => InteractionMarkup::default() }, transport: d.get("transport").map(text_of) }
}
const BAD: &str = "{\"body\":{\"$\":{\"matchers\":[{\"match\":\"nope\"}]}}}";
pub fn part_doc(r: &mut Rng, v: Value) -> Value { match r.below(16) { 0 => jval(r), 1 => Value::Null, 2 => { let mut v = v; v["matchingRules"] = serde_json::from_str(BAD).unwrap(); v } _ => v } }
fn documents(c: &mut Ctx, r: &mut Rng) {
  let n = r.below(4); let mut m = com_doc(r);
  if r.chance(5, 6) { let v = parts::req_json(&parts::rt_req(r)); m.insert("request".into(), part_doc(r, v)); } if r.chance(5, 6) { let v = parts::res_json(&parts::rt_res(r)); m.insert("response".into(), part_doc(r, v)); }
  let d = Value::Object(m);
  c.case("V4 http document", format!("{} {}", n, d), || {
    let (q, s) = (HttpRequest::from_json(d.get("request").unwrap_or(&Value::Null)), HttpResponse::from_json(d.get("response").unwrap_or(&Value::Null))); let x = SynchronousHttp::from_json(&d, n); eqv!(x.is_ok(), q.is_ok() && s.is_ok(), "readable");
    let mut t = d.clone(); t["type"] = json!("Synchronous/HTTP"); eqv!(interaction_from_json("", n, &t).is_ok(), x.is_ok(), "readable"); eqv!(interactions_from_json(&json!({ "interactions": [t] }), "").is_ok(), x.is_ok(), "readable");
    if let (Ok(x), Ok(q), Ok(s)) = (x, q, s) { let w = com_want(&d, n); same_com(com!(&x), w, &d)?; same_req(&x.request, &q, &d)?; same_res(&x.response, &s, &d)?; for y in any(&t, n)? { let y = y.as_v4_http().ok_or("not HTTP")?; if d.get("description").is_some() { same_http(&y, &x, &d)?; } } return Ok(true); } Ok(false)
  });
  let mut m = com_doc(r); let p = parts::msg_json(&parts::rt_msg(r)); let p = part_doc(r, p); if let Value::Object(o) = p { m.extend(o); } if r.chance(1, 6) { m.insert("metadata".into(), jval(r)); } if r.chance(1, 6) { m.insert("contents".into(), jval(r)); } let d = Value::Object(m);
  c.case("V4 message document", format!("{} {}", n, d), || {
    let q = MessageContents::from_json(&d); let x = AsynchronousMessage::from_json(&d, n); eqv!(x.is_ok(), q.is_ok(), "readable"); let mut t = d.clone(); t["type"] = json!("Asynchronous/Messages"); eqv!(interaction_from_json("", n, &t).is_ok(), x.is_ok(), "readable");
    if let (Ok(x), Ok(q)) = (x, q) { same_com(com!(&x), com_want(&d, n), &d)?; same_msg(&x.contents, &q, &d)?; for y in any(&t, n)? { let y = y.as_v4_async_message().ok_or("not a message")?; if d.get("description").is_some() { same_asyn(&y, &x, &d)?; } } return Ok(true); } Ok(false)
  });
  let mut m = com_doc(r); if r.chance(9, 10) { let v = parts::msg_json(&parts::rt_msg(r)); m.insert("request".into(), part_doc(r, v)); } if r.chance(9, 10) { let k = r.below(4); let v = (0..k).map(|_| { let v = parts::msg_json(&parts::rt_msg(r)); part_doc(r, v) }).collect(); m.insert("response".into(), if r.chance(1, 12) { jval(r) } else { Value::Array(v) }); } let d = Value::Object(m);
  c.case("V4 sync message document", format!("{} {}", n, d), || {
    let q = d.get("request").and_then(|q| MessageContents::from_json(q).ok()); let s = d.get("response").and_then(|s| s.as_array()).and_then(|s| s.iter().map(|x| MessageContents::from_json(x).ok()).collect::<Option<Vec<_>>>()); let x = SynchronousMessage::from_json(&d, n); eqv!(x.is_ok(), q.is_some() && s.is_some(), "readable");
    let mut t = d.clone(); t["type"] = json!("Synchronous/Messages"); eqv!(interaction_from_json("", n, &t).is_ok(), x.is_ok(), "readable");
    if let (Ok(x), Some(q), Some(s)) = (x, q, s) { let w = com_want(&d, n); let w = SynchronousMessage { id: w.id, key: w.key, description: w.description, provider_states: w.states, comments: w.comments, request: q, response: s, pending: w.pending, plugin_config: w.conf, interaction_markup: w.markup, transport: w.transport }; same_sync(&x, &w, &d)?; for y in any(&t, n)? { let y = y.as_v4_sync_message().ok_or("not a sync message")?; if d.get("description").is_some() { same_sync(&y, &x, &d)?; } } return Ok(true); } Ok(false)
  });
  let v = jval(r); let t = match r.below(4) { 0 => { let s = r.pick(&["Synchronous/HTTP", "Asynchronous/Messages", "Synchronous/Messages"]).to_string(); r.perturb(&s) } 1 => r.lit(), _ => some_text(r) };
  c.case("kind", format!("{} {:?}", v, t), || {
    let known = ["Synchronous/HTTP", "Asynchronous/Messages", "Synchronous/Messages"].contains(&t.as_str()); eqv!(t.parse::<V4InteractionType>().map(|x| x.to_string()).ok(), if known { Some(t.clone()) } else { None }, "type from text");
    let d = json!({ "type": t, "request": {}, "response": [] }); if !known { ens!(interaction_from_json("", 0, &d).is_err(), "read with type {:?}", t); ens!(interactions_from_json(&json!({ "interactions": [{ "type": "Synchronous/HTTP" }, d] }), "").is_err(), "list read with type {:?}", t); }
    ens!(interaction_from_json("", 0, &json!({ "description": t })).is_err(), "read without a type");
    if !v.is_object() { ens!(SynchronousHttp::from_json(&v, 0).is_err(), "http from {}", v); ens!(AsynchronousMessage::from_json(&v, 0).is_err(), "message from {}", v); ens!(SynchronousMessage::from_json(&v, 0).is_err(), "sync from {}", v); ens!(interaction_from_json("", 0, &v).is_err(), "interaction from {}", v); }
    if !v.is_array() { eqv!(interactions_from_json(&json!({ "interactions": v }), "").map(|l| l.len()).ok(), Some(0), "no list"); } Ok(true)
  });
}
fn show3(i: &RequestResponseInteraction, s: &PactSpecification) -> String { format!("{:?} id {:?} {:?} [{}] {} {}", s, i.id, i.description, cstates(&i.provider_states), i.request.to_json(s), i.response.to_json(s)) }
pub fn same3(a: &RequestResponseInteraction, w: (&Option<String>, &str, &[ProviderState], &Request, &Response), j: &Value) -> Result<(), String> {
  eqv!(a.id, *w.0, "id"); eqv!(a.description, w.1, format!("description after {}", j)); eqv!(cstates(&a.provider_states), cstates(w.2), format!("states after {}", j)); same_req(&a.request.as_v4_request(), &w.3.as_v4_request(), j).map_err(|e| format!("request {}", e))?; same_res(&a.response.as_v4_response(), &w.4.as_v4_response(), j).map_err(|e| format!("response {}", e))
}
const SPECS: [PactSpecification; 6] = [PactSpecification::V1, PactSpecification::V1_1, PactSpecification::V2, PactSpecification::V3, PactSpecification::V3, PactSpecification::V3];
/// a request/response interaction that can be written for this version
pub fn rr(r: &mut Rng, s: &PactSpecification) -> RequestResponseInteraction {
  let (q, p) = (parts::rt_req(r).as_v3_request(), parts::rt_res(r).as_v3_response());
  let (q, p) = if *s == PactSpecification::V3 { (q, p) } else { (Request { query: None, matching_rules: parts::rt_rules2(r), generators: Generators::default(), ..q }, Response { matching_rules: parts::rt_rules2(r), generators: Generators::default(), ..p }) };
  RequestResponseInteraction { id: gen::opt(r, some_text), description: some_text(r), provider_states: states(r), request: q, response: p }
}
pub fn message(r: &mut Rng) -> Message { let t = parts::rt_msg(r); Message { id: gen::opt(r, some_text), description: some_text(r), provider_states: states(r), contents: t.contents, metadata: t.metadata, matching_rules: t.matching_rules, generators: t.generators } }
fn v3(c: &mut Ctx, r: &mut Rng) {
  let s = *r.pick(&SPECS); let is3 = s == PactSpecification::V3; let (q, p) = (parts::rt_req(r).as_v3_request(), parts::rt_res(r).as_v3_response());
  let ok2 = |m: &MatchingRules| m.rules.values().all(|c| c.rules.values().all(|l| !l.rules.is_empty())) && rulesj::flat(m).len() < 1000;
  let (q, p) = if is3 { (q, p) } else { (Request { query: None, matching_rules: parts::rt_rules2(r), generators: Generators::default(), ..q }, Response { matching_rules: parts::rt_rules2(r), generators: Generators::default(), ..p }) };
  let i = RequestResponseInteraction { id: gen::opt(r, some_text), description: some_text(r), provider_states: states(r), request: q, response: p }; let n = r.below(3);
  if ok2(&i.request.matching_rules) { c.case("interaction", show3(&i, &s), || {
    let (jq, jp) = (i.request.to_json(&s), i.response.to_json(&s)); let j = i.to_json(&s);
    let mut w = vec![("description", Some(json!(i.description))), ("request", Some(jq.clone())), ("response", Some(jp.clone()))]; if is3 { w.push(("providerStates", states_j(&i.provider_states))); } else { w.push(("providerState", i.provider_states.first().map(|s| json!(s.name)))); } eqv!(j, obj(w), "to_json");
    let d = via(&j); let (q, p) = (e(Request::from_json(&via(&jq), &s), &j)?, e(Response::from_json(&via(&jp), &s), &j)?);
    let st: Vec<ProviderState> = if is3 { i.provider_states.clone() } else { i.provider_states.first().filter(|s| !s.name.is_empty()).map(|s| ProviderState { name: s.name.clone(), params: HashMap::new() }).into_iter().collect() };
    let want = (&None, i.description.as_str(), &st[..], &q, &p); same3(&e(RequestResponseInteraction::from_json(n, &d, &s), &j)?, want, &j)?; same3(&e(http_interaction_from_json("", &d, &s), &j)?.as_request_response().ok_or("not HTTP")?, want, &j)?;
    let h = i.as_v4_http().unwrap(); eqv!(com!(&h).show(), Com { id: i.id.clone(), key: None, description: i.description.clone(), states: i.provider_states.clone(), comments: HashMap::new(), pending: false, conf: HashMap::new(), markup: InteractionMarkup::default(), transport: None }.show(), "as_v4_http"); same_req(&h.request, &i.request.as_v4_request(), &j)?; same_res(&h.response, &i.response.as_v4_response(), &j)?; same_http(&i.as_v4().unwrap().as_v4_http().unwrap(), &h, &j)?;
    let b: Box<dyn Interaction> = i.boxed(); same3(&b.clone().as_request_response().unwrap(), (&i.id, &i.description, &i.provider_states, &i.request, &i.response), &j)?; eqv!(b.to_string(), i.to_string(), "display"); ens!(b.is_request_response() && !b.is_v4() && !b.is_message() && b.as_message().is_none() && b.as_v4_async_message().is_none() && b.as_v4_sync_message().is_none(), "kind");
    Ok(true)
  }); }
  let mut m = com_doc(r); if r.chance(5, 6) { let v = i.request.to_json(&s); m.insert("request".into(), part_doc(r, v)); } if r.chance(5, 6) { let v = i.response.to_json(&s); m.insert("response".into(), part_doc(r, v)); } let d = Value::Object(m);
  c.case("document", format!("{:?} {} {}", s, n, d), || {
    let q = d.get("request").map(|v| Request::from_json(v, &s)).unwrap_or(Ok(Request::default())); let p = d.get("response").map(|v| Response::from_json(v, &s)).unwrap_or(Ok(Response::default())); let x = RequestResponseInteraction::from_json(n, &d, &s); eqv!(x.is_ok(), q.is_ok() && p.is_ok(), "readable");
    if let (Ok(x), Ok(q), Ok(p)) = (x, q, p) { let w = com_want(&d, n); same3(&x, (&w.id, &w.description, &w.states, &q, &p), &d)?; } Ok(true)
  });
  // messages
  let t = parts::rt_msg(r); let i = Message { id: gen::opt(r, some_text), description: some_text(r), provider_states: states(r), contents: t.contents.clone(), metadata: t.metadata.clone(), matching_rules: t.matching_rules.clone(), generators: t.generators.clone() }; let s = PactSpecification::V3;
  c.case("message", format!("id {:?} [{}] {}", i.id, cstates(&i.provider_states), i.to_json(&s)), || {
    let j = i.to_json(&s); eqv!(j.get("description"), Some(&json!(i.description)), "description"); eqv!(j.get("providerStates").cloned(), states_j(&i.provider_states), "states"); eqv!(j.get("metadata"), Some(&json!(i.metadata)), "metadata"); ens!(j.get("_id").is_none(), "id written");
    let m = e(Message::from_json(n, &via(&j), &s), &j)?; eqv!(m.description, i.description, "description"); eqv!(cstates(&m.provider_states), cstates(&i.provider_states), format!("states after {}", j)); eqv!(cvals(&m.metadata), cvals(&i.metadata), format!("metadata after {}", j)); ens!(m.id.is_none(), "id"); parts::same_rules(&m.matching_rules, &i.matching_rules, "message")?; parts::same_gens(&m.generators, &i.generators, "message")?;
    let a = i.as_v4_async_message().unwrap(); let w = AsynchronousMessage { id: i.id.clone(), description: i.description.clone(), provider_states: i.provider_states.clone(), contents: t.clone(), ..AsynchronousMessage::default() }; same_asyn(&a, &w, &json!("as_v4_async_message"))?; same_asyn(&i.as_v4().unwrap().as_v4_async_message().unwrap(), &a, &j)?;
    let b: Box<dyn Interaction> = i.boxed(); eqv!(b.clone().as_message().unwrap(), i, "clone"); eqv!(b.to_string(), i.to_string(), "display"); ens!(b.is_message() && !b.is_v4() && !b.is_request_response() && b.as_request_response().is_none() && b.as_v4_http().is_none() && b.as_v4_sync_message().is_none(), "kind");
    Ok(true)
  });
  let mut m = com_doc(r); let p = part_doc(r, i.to_json(&s)); if let Value::Object(o) = p { for (k, v) in o { if k != "description" && k != "providerStates" { m.insert(k, v); } } } if r.chance(1, 4) { let v = if r.chance(1, 3) { jval(r) } else { json!(inter::jmap(r)) }; m.insert("metaData".into(), v); } let d = Value::Object(m);
  c.case("message document", format!("{} {}", n, d), || {
    let bad = d.get("matchingRules").map_or(false, |m| *m == serde_json::from_str::<Value>(BAD).unwrap()); let x = Message::from_json(n, &d, &s); eqv!(x.is_ok(), !bad, "readable"); eqv!(message_interaction_from_json("", &d, &s).is_ok(), !bad, "readable");
    if let Ok(x) = x { let w = com_want(&d, n); eqv!(x.id, w.id, "id"); eqv!(x.description, d.get("description").map(text_of).unwrap_or(format!("Message {}", n)), "description"); eqv!(cstates(&x.provider_states), cstates(&w.states), "states"); eqv!(cvals(&x.metadata), cvals(&map_of(d.get("metaData").or(d.get("metadata")))), "metadata"); if n == 0 { eqv!(message_interaction_from_json("", &d, &s).unwrap().as_message().unwrap(), x, "message_interaction_from_json"); } } Ok(true)
  });
}
pub fn c20(c: &mut Ctx) {
  let mut r = c.rng(20);
  for _ in 0..c.n(1500) { if c.stop() { return; } v4(c, &mut r); documents(c, &mut r); v3(c, &mut r); }
}
