//! C17 interactions seen, copied and converted
use crate::fw::*;
use crate::gen;
use crate::inter::{self, cj, cmap, jval, some_text, Same};
use crate::interj::{com, cstates, Com};
use pact_models::bodies::OptionalBody;
use pact_models::interaction::Interaction;
use pact_models::matchingrules::MatchingRules;
use pact_models::generators::Generators;
use pact_models::message::Message;
use pact_models::provider_states::ProviderState;
use pact_models::request::Request;
use pact_models::response::Response;
use pact_models::sync_interaction::RequestResponseInteraction;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::v4::interaction::{InteractionMarkup, V4Interaction};
use pact_models::v4::message_parts::MessageContents;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use pact_models::v4::V4InteractionType;
use serde_json::Value;
use std::collections::HashMap;
use std::panic::RefUnwindSafe;

type Dyn = dyn Interaction + Send + Sync + RefUnwindSafe;
type Dyn4 = dyn V4Interaction + Send + Sync + RefUnwindSafe;
fn q<T: std::fmt::Debug>(t: &T) -> String { format!("{:?}", t) }
fn js(m: &HashMap<String, Value>) -> String { cmap(m, q, cj) }
fn pc(m: &HashMap<String, HashMap<String, Value>>) -> String { cmap(m, q, js) }
fn mg(m: &MatchingRules, g: &Generators) -> String { format!("rules {} generators {}", m.canon(), g.canon()) }
fn hs(h: &Option<HashMap<String, Vec<String>>>) -> String { match h { None => "none".into(), Some(h) => cmap(h, q, q) } }
fn qs(h: &Option<HashMap<String, Vec<Option<String>>>>) -> String { match h { None => "none".into(), Some(h) => cmap(h, q, q) } }
fn vreq(r: &HttpRequest) -> String { format!("{:?} {:?} query {} headers {} body {:?} {}", r.method, r.path, qs(&r.query), hs(&r.headers), r.body, mg(&r.matching_rules, &r.generators)) }
fn vreq3(r: &Request) -> String { format!("{:?} {:?} query {} headers {} body {:?} {}", r.method, r.path, qs(&r.query), hs(&r.headers), r.body, mg(&r.matching_rules, &r.generators)) }
fn vres(r: &HttpResponse) -> String { format!("{} headers {} body {:?} {}", r.status, hs(&r.headers), r.body, mg(&r.matching_rules, &r.generators)) }
fn vres3(r: &Response) -> String { format!("{} headers {} body {:?} {}", r.status, hs(&r.headers), r.body, mg(&r.matching_rules, &r.generators)) }
fn vcon(m: &MessageContents) -> String { format!("contents {:?} metadata {} {}", m.contents, js(&m.metadata), mg(&m.matching_rules, &m.generators)) }
fn vh(i: &SynchronousHttp) -> String { format!("HTTP {} request {} response {}", com!(i).show(), vreq(&i.request), vres(&i.response)) }
fn va(i: &AsynchronousMessage) -> String { format!("message {} {}", com!(i).show(), vcon(&i.contents)) }
fn vs(i: &SynchronousMessage) -> String { format!("messages {} request {} responses [{}]", com!(i).show(), vcon(&i.request), i.response.iter().map(vcon).collect::<Vec<_>>().join("; ")) }
fn vr(i: &RequestResponseInteraction) -> String { format!("V3 HTTP {:?} {:?} [{}] request {} response {}", i.id, i.description, cstates(&i.provider_states), vreq3(&i.request), vres3(&i.response)) }
fn vm(i: &Message) -> String { format!("V3 message {:?} {:?} [{}] contents {:?} metadata {} {}", i.id, i.description, cstates(&i.provider_states), i.contents, js(&i.metadata), mg(&i.matching_rules, &i.generators)) }

/// an interaction of any kind, and what it is expected to be as another
#[derive(Clone)]
enum K { H(SynchronousHttp), A(AsynchronousMessage), S(SynchronousMessage), R(RequestResponseInteraction), M(Message) }
fn typed(m: &HashMap<String, Value>, b: &OptionalBody) -> HashMap<String, Value> { let mut m = m.clone(); if let OptionalBody::Present(_, Some(c), _) = b { if !m.contains_key("contentType") { m.insert("contentType".into(), Value::String(c.to_string())); } } m }
impl K {
  fn view(&self) -> String { match self { K::H(i) => vh(i), K::A(i) => va(i), K::S(i) => vs(i), K::R(i) => vr(i), K::M(i) => vm(i) } }
  fn bx(&self) -> Box<Dyn> { match self { K::H(i) => Box::new(i.clone()), K::A(i) => Box::new(i.clone()), K::S(i) => Box::new(i.clone()), K::R(i) => Box::new(i.clone()), K::M(i) => Box::new(i.clone()) } }
  fn plain(&self) -> Box<dyn Interaction> { match self { K::H(i) => Box::new(i.clone()), K::A(i) => Box::new(i.clone()), K::S(i) => Box::new(i.clone()), K::R(i) => Box::new(i.clone()), K::M(i) => Box::new(i.clone()) } }
  fn bx4(&self) -> Option<Box<Dyn4>> { match self { K::H(i) => Some(Box::new(i.clone())), K::A(i) => Some(Box::new(i.clone())), K::S(i) => Some(Box::new(i.clone())), _ => None } }
  fn http(&self) -> Option<SynchronousHttp> { match self { K::H(i) => Some(i.clone()), K::R(i) => { let (q, s) = (i.request.clone(), i.response.clone()); Some(SynchronousHttp { id: i.id.clone(), key: None, description: i.description.clone(), provider_states: i.provider_states.clone(), request: HttpRequest { method: q.method, path: q.path, query: q.query, headers: q.headers, body: q.body, matching_rules: q.matching_rules, generators: q.generators }, response: HttpResponse { status: s.status, headers: s.headers, body: s.body, matching_rules: s.matching_rules, generators: s.generators }, comments: HashMap::new(), pending: false, plugin_config: HashMap::new(), interaction_markup: InteractionMarkup { markup: String::new(), markup_type: String::new() }, transport: None }) } _ => None } }
  fn asyn(&self) -> Option<AsynchronousMessage> { match self { K::A(i) => Some(i.clone()), K::M(i) => Some(AsynchronousMessage { id: i.id.clone(), key: None, description: i.description.clone(), provider_states: i.provider_states.clone(), contents: MessageContents { contents: i.contents.clone(), metadata: i.metadata.clone(), matching_rules: i.matching_rules.clone(), generators: i.generators.clone() }, comments: HashMap::new(), pending: false, plugin_config: HashMap::new(), interaction_markup: InteractionMarkup { markup: String::new(), markup_type: String::new() }, transport: None }), _ => None } }
  fn sync(&self) -> Option<SynchronousMessage> { match self { K::S(i) => Some(i.clone()), _ => None } }
  fn rr(&self) -> Option<RequestResponseInteraction> { match self { K::R(i) => Some(i.clone()), K::H(i) => { let (q, s) = (i.request.clone(), i.response.clone()); Some(RequestResponseInteraction { id: i.id.clone(), description: i.description.clone(), provider_states: i.provider_states.clone(), request: Request { method: q.method, path: q.path, query: q.query, headers: q.headers, body: q.body, matching_rules: q.matching_rules, generators: q.generators }, response: Response { status: s.status, headers: s.headers, body: s.body, matching_rules: s.matching_rules, generators: s.generators } }) } _ => None } }
  fn msg(&self) -> Option<Message> { match self { K::M(i) => Some(i.clone()), K::A(i) => Some(Message { id: i.id.clone(), description: i.description.clone(), provider_states: i.provider_states.clone(), contents: i.contents.contents.clone(), metadata: typed(&i.contents.metadata, &i.contents.contents), matching_rules: i.contents.matching_rules.clone(), generators: i.contents.generators.clone() }), _ => None } }
  fn v4(&self) -> Option<K> { match self { K::R(_) => self.http().map(K::H), K::M(_) => self.asyn().map(K::A), k => Some(k.clone()) } }
  fn is_v4(&self) -> bool { matches!(self, K::H(_) | K::A(_) | K::S(_)) }
  fn name(&self) -> &'static str { match self { K::H(_) => "V4 Synchronous/HTTP", K::A(_) => "V4 Asynchronous/Messages", K::S(_) => "V4 Synchronous/Messages", K::R(_) => "V3 Synchronous/HTTP", K::M(_) => "V3 Asynchronous/Messages" } }
  fn com(&self) -> Com { match self { K::H(i) => com!(i), K::A(i) => com!(i), K::S(i) => com!(i), K::R(_) => com!(&self.http().unwrap()), K::M(_) => com!(&self.asyn().unwrap()) } }
  fn with(&self, f: impl Fn(&mut Option<String>, &mut String, &mut Vec<ProviderState>)) -> K { let mut k = self.clone(); match &mut k { K::H(i) => f(&mut i.id, &mut i.description, &mut i.provider_states), K::A(i) => f(&mut i.id, &mut i.description, &mut i.provider_states), K::S(i) => f(&mut i.id, &mut i.description, &mut i.provider_states), K::R(i) => f(&mut i.id, &mut i.description, &mut i.provider_states), K::M(i) => f(&mut i.id, &mut i.description, &mut i.provider_states) } k }
  fn with4(&self, f: impl Fn(&mut Option<String>, &mut HashMap<String, Value>, &mut HashMap<String, HashMap<String, Value>>, &mut InteractionMarkup, &mut Option<String>)) -> K { let mut k = self.clone(); match &mut k { K::H(i) => f(&mut i.key, &mut i.comments, &mut i.plugin_config, &mut i.interaction_markup, &mut i.transport), K::A(i) => f(&mut i.key, &mut i.comments, &mut i.plugin_config, &mut i.interaction_markup, &mut i.transport), K::S(i) => f(&mut i.key, &mut i.comments, &mut i.plugin_config, &mut i.interaction_markup, &mut i.transport), _ => () } k }
}
/// what an interaction behind a trait is
fn dv(d: &dyn Interaction) -> Result<String, String> {
  match d.type_of().as_str() { "V4 Synchronous/HTTP" => d.as_v4_http().map(|i| vh(&i)), "V4 Asynchronous/Messages" => d.as_v4_async_message().map(|i| va(&i)), "V4 Synchronous/Messages" => d.as_v4_sync_message().map(|i| vs(&i)), "V3 Synchronous/HTTP" => d.as_request_response().map(|i| vr(&i)), "V3 Asynchronous/Messages" => d.as_message().map(|i| vm(&i)), t => return Err(format!("type {:?}", t)) }.ok_or_else(|| format!("not a {}", d.type_of()))
}
fn facts(k: &K, d: &dyn Interaction, on: &str) -> Result<(), String> {
  let err = |e: String| format!("{}: {}", on, e);
  (|| {
    eqv!(d.type_of(), k.name(), "type_of"); eqv!(d.is_v4(), k.is_v4(), "is_v4"); eqv!(d.is_request_response(), matches!(k, K::H(_) | K::R(_)), "is_request_response"); eqv!(d.is_message(), matches!(k, K::A(_) | K::M(_)), "is_message");
    eqv!(d.is_v4_http(), matches!(k, K::H(_)), "is_v4_http"); eqv!(d.is_v4_async_message(), matches!(k, K::A(_)), "is_v4_async_message"); eqv!(d.is_v4_sync_message(), matches!(k, K::S(_)), "is_v4_sync_message");
    eqv!(d.as_v4_http().map(|i| vh(&i)), k.http().map(|i| vh(&i)), "as_v4_http"); eqv!(d.as_v4_async_message().map(|i| va(&i)), k.asyn().map(|i| va(&i)), "as_v4_async_message"); eqv!(d.as_v4_sync_message().map(|i| vs(&i)), k.sync().map(|i| vs(&i)), "as_v4_sync_message");
    eqv!(d.as_request_response().map(|i| vr(&i)), k.rr().map(|i| vr(&i)), "as_request_response"); eqv!(d.as_message().map(|i| vm(&i)), k.msg().map(|i| vm(&i)), "as_message");
    match d.as_v4() { None => return Err("as_v4 gives nothing".into()), Some(x) => { let w = k.v4().unwrap(); eqv!(dv(x.as_ref().to_super())?, w.view(), "as_v4"); eqv!(x.type_of(), w.name(), "as_v4 type"); } }
    let c = k.com(); eqv!(d.id(), c.id, "id"); eqv!(d.description(), c.description, "description"); eqv!(cstates(&d.provider_states()), cstates(&c.states), "provider_states"); eqv!(d.pending(), c.pending, "pending");
    #[allow(deprecated)] let (b, m) = (d.contents(), d.matching_rules());
    let (x, y) = match k { K::H(i) => (i.response.body.clone(), i.response.body.clone()), K::R(i) => (i.response.body.clone(), i.response.body.clone()), K::A(i) => (i.contents.contents.clone(), i.contents.contents.clone()), K::M(i) => (i.contents.clone(), i.contents.clone()), K::S(i) => (OptionalBody::Missing, i.response.get(0).map_or(OptionalBody::Missing, |r| r.contents.clone())) };
    eqv!(q(&b), q(&x), "contents"); eqv!(q(&d.contents_for_verification()), q(&y), "contents_for_verification");
    eqv!(m.map(|m| m.canon()), match k { K::A(i) => Some(i.contents.matching_rules.canon()), K::M(i) => Some(i.matching_rules.canon()), _ => None }, "matching_rules");
    Ok(())
  })().map_err(err)
}
fn facts4(k: &K, d: &dyn V4Interaction, on: &str) -> Result<(), String> {
  let c = k.com(); eqv!(d.key(), c.key, format!("{}: key", on)); eqv!(js(&d.comments()), js(&c.comments), format!("{}: comments", on)); eqv!(pc(&d.plugin_config()), pc(&c.conf), format!("{}: plugin_config", on)); eqv!(q(&d.interaction_markup()), q(&c.markup), format!("{}: interaction_markup", on)); eqv!(d.transport(), c.transport, format!("{}: transport", on));
  eqv!(d.v4_type(), match k { K::H(_) => V4InteractionType::Synchronous_HTTP, K::A(_) => V4InteractionType::Asynchronous_Messages, _ => V4InteractionType::Synchronous_Messages }, format!("{}: v4_type", on)); eqv!(format!("V4 {}", d.v4_type()), k.name(), format!("{}: v4_type", on)); Ok(())
}
fn view(c: &mut Ctx, r: &mut Rng, k: &K) {
  c.case("seen as", k.view(), || { facts(k, k.bx().as_ref(), "itself")?; if let Some(d) = k.bx4() { facts4(k, d.as_ref(), "itself")?; facts(k, d.to_super(), "to_super")?; } Ok(true) });
  c.case("copied", k.view(), || {
    let b = k.bx(); let w = k.view(); facts(k, b.boxed().as_ref(), "boxed")?; facts(k, b.arced().as_ref(), "arced")?; { let m = b.thread_safe(); let g = m.lock().unwrap(); facts(k, &*g, "thread_safe")?; }
    let p: Box<dyn Interaction> = k.plain(); eqv!(dv(p.clone().as_ref())?, w, "clone of a box"); facts(k, p.clone().as_ref(), "clone of a box")?;
    if let Some(d) = k.bx4() { facts(k, d.boxed_v4().to_super(), "boxed_v4")?; facts4(k, d.boxed_v4().as_ref(), "boxed_v4")?; let x = d.clone(); facts(k, x.to_super(), "clone of a V4 box")?; facts4(k, x.as_ref(), "clone of a V4 box")?; ens!(x == d, "literal a copy differs from its original"); }
    eqv!(dv(b.as_ref())?, w, "the original"); Ok(true)
  });
  let (id, d, s) = (gen::opt(r, some_text), some_text(r), inter::state(r)); let (ck, cv, pk, pv, mk, tr) = (some_text(r), jval(r), some_text(r), inter::jmap(r), inter::markup(r), gen::opt(r, some_text));
  c.case("changed", format!("{} with {:?} {:?} {:?}", k.view(), id, d, s), || {
    let mut b = k.bx(); b.set_id(id.clone()); eqv!(dv(b.as_ref())?, k.with(|i, _, _| *i = id.clone()).view(), "set_id");
    let mut b = k.bx(); b.set_description(&d); eqv!(dv(b.as_ref())?, k.with(|_, x, _| *x = d.clone()).view(), "set_description");
    let mut b = k.bx(); eqv!(cstates(b.provider_states_mut()), cstates(&k.com().states), "provider_states_mut"); b.provider_states_mut().push(s.clone()); eqv!(dv(b.as_ref())?, k.with(|_, _, x| x.push(s.clone())).view(), "provider_states_mut");
    let mut b = k.bx(); eqv!(b.as_v4_http_mut().map(|i| { let v = vh(i); i.description = d.clone(); i.request.path = d.clone(); v }), if let K::H(i) = k { Some(vh(i)) } else { None }, "as_v4_http_mut"); let mut w = k.clone(); if let K::H(i) = &mut w { i.description = d.clone(); i.request.path = d.clone(); } eqv!(dv(b.as_ref())?, w.view(), "after as_v4_http_mut");
    let mut b = k.bx(); eqv!(b.as_v4_async_message_mut().map(|i| { let v = va(i); i.description = d.clone(); i.contents.metadata.insert(ck.clone(), cv.clone()); v }), if let K::A(i) = k { Some(va(i)) } else { None }, "as_v4_async_message_mut"); let mut w = k.clone(); if let K::A(i) = &mut w { i.description = d.clone(); i.contents.metadata.insert(ck.clone(), cv.clone()); } eqv!(dv(b.as_ref())?, w.view(), "after as_v4_async_message_mut");
    let mut b = k.bx(); eqv!(b.as_v4_sync_message_mut().map(|i| { let v = vs(i); i.description = d.clone(); i.request.metadata.insert(ck.clone(), cv.clone()); v }), if let K::S(i) = k { Some(vs(i)) } else { None }, "as_v4_sync_message_mut"); let mut w = k.clone(); if let K::S(i) = &mut w { i.description = d.clone(); i.request.metadata.insert(ck.clone(), cv.clone()); } eqv!(dv(b.as_ref())?, w.view(), "after as_v4_sync_message_mut");
    let mut b = k.bx(); let got = b.as_v4_mut().map(|i| i.set_transport(tr.clone())).is_some(); eqv!(got, k.is_v4(), "as_v4_mut"); eqv!(dv(b.as_ref())?, k.with4(|_, _, _, _, t| *t = tr.clone()).view(), "after as_v4_mut");
    if let Some(x) = k.bx4() {
      let mut y = x.boxed_v4(); y.set_transport(tr.clone()); eqv!(dv(y.to_super())?, k.with4(|_, _, _, _, t| *t = tr.clone()).view(), "set_transport");
      let mut y = x.boxed_v4(); y.comments_mut().insert(ck.clone(), cv.clone()); eqv!(dv(y.to_super())?, k.with4(|_, m, _, _, _| { m.insert(ck.clone(), cv.clone()); }).view(), "comments_mut");
      let mut y = x.boxed_v4(); y.plugin_config_mut().insert(pk.clone(), pv.clone()); eqv!(dv(y.to_super())?, k.with4(|_, _, m, _, _| { m.insert(pk.clone(), pv.clone()); }).view(), "plugin_config_mut");
      let mut y = x.boxed_v4(); *y.interaction_markup_mut() = mk.clone(); eqv!(dv(y.to_super())?, k.with4(|_, _, _, m, _| *m = mk.clone()).view(), "interaction_markup_mut");
      let mut y = x.boxed_v4(); y.to_super_mut().set_description(&d); eqv!(dv(y.to_super())?, k.with(|_, x, _| *x = d.clone()).view(), "to_super_mut");
      let u = x.with_unique_key(); let key = u.key(); ens!(key.as_ref().map_or(false, |k| !k.is_empty()), "literal no key"); eqv!(dv(u.to_super())?, k.with4(|x, _, _, _, _| *x = key.clone()).view(), "with_unique_key"); eqv!(u.unique_key(), key.clone().unwrap(), "unique_key of one with a key");
      eqv!(match k { K::H(i) => vh(&i.with_key()), K::A(i) => va(&i.with_key()), K::S(i) => vs(&i.with_key()), _ => String::new() }, dv(u.to_super())?, "with_key");
      let has = k.com().key; let uk = x.unique_key(); match has { Some(h) => eqv!(uk, h, "unique_key"), None => eqv!(Some(uk), key, "unique_key without a key") }
    }
    Ok(true)
  });
  c.case("there and back", k.view(), || {
    match k {
      K::R(i) => { let b = i.as_v4_http().unwrap().as_request_response().unwrap(); eqv!(vr(&b), vr(i), "to version 4 and back"); ens!(b == *i, "literal different after version 4"); }
      K::M(i) => { let b = i.as_v4_async_message().unwrap().as_message().unwrap(); let mut w = i.clone(); w.metadata = typed(&i.metadata, &i.contents); eqv!(vm(&b), vm(&w), "to version 4 and back"); ens!(b == w, "literal different after version 4"); let t = b.as_v4_async_message().unwrap().as_message().unwrap(); eqv!(vm(&t), vm(&b), "twice"); eqv!(vcon(&i.as_message_content()), vcon(&k.asyn().unwrap().contents), "as_message_content"); }
      K::H(i) => { let b = K::R(i.as_request_response().unwrap()); eqv!(dv(b.bx().as_v4().unwrap().to_super())?, K::H(b.http().unwrap()).view(), "to version 3 and back"); eqv!(vreq(&i.request.as_v3_request().as_v4_request()), vreq(&i.request), "request"); eqv!(vres(&i.response.as_v3_response().as_v4_response()), vres(&i.response), "response"); eqv!(vreq3(&i.request.as_v3_request()), vreq(&i.request), "as_v3_request"); eqv!(vres3(&i.response.as_v3_response()), vres(&i.response), "as_v3_response"); }
      K::A(i) => { let b = K::M(i.as_message().unwrap()); eqv!(dv(b.bx().as_v4().unwrap().to_super())?, K::A(b.asyn().unwrap()).view(), "to version 3 and back"); }
      K::S(_) => return Ok(false)
    }
    Ok(true)
  });
}
fn defaults() -> Result<bool, String> {
  let c = |d: &str| format!("id None key None {:?} states [] comments {{}} pending false plugins {{}} markup InteractionMarkup {{ markup: \"\", markup_type: \"\" }} transport None", d);
  let none = mg(&MatchingRules::default(), &Generators::default()); let con = format!("contents Missing metadata {{}} {}", none); let req = format!("\"GET\" \"/\" query none headers none body Missing {}", none); let res = format!("200 headers none body Missing {}", none);
  eqv!(vh(&SynchronousHttp::default()), format!("HTTP {} request {} response {}", c("Synchronous/HTTP Interaction"), req, res), "default HTTP"); eqv!(va(&AsynchronousMessage::default()), format!("message {} {}", c("Asynchronous/Message Interaction"), con), "default message"); eqv!(vs(&SynchronousMessage::default()), format!("messages {} request {} responses []", c("Synchronous/Message Interaction"), con), "default synchronous message");
  eqv!(vreq(&HttpRequest::default()), req, "default request"); eqv!(vres(&HttpResponse::default()), res, "default response"); eqv!(vcon(&MessageContents::default()), con, "default contents"); Ok(true)
}
pub fn c17(c: &mut Ctx) {
  let mut r = c.rng(17);
  c.case("defaults", "new interactions".into(), defaults);
  for _ in 0..c.n(400) { if c.stop() { return; }
    let a = inter::asyn(&mut r); let mut m = inter::asyn(&mut r); if r.chance(1, 4) { let k = r.pick(&["contentType", "Content-Type", "contenttype", "content-type", "ContentType"]).to_string(); let v = if r.chance(1, 2) { jval(&mut r) } else { Value::String("text/plain".into()) }; m.contents.metadata.insert(k, v); }
    let h = inter::http(&mut r); let h2 = inter::http(&mut r);
    let ks = [K::H(h), K::A(a), K::S(inter::sync(&mut r)), K::A(m.clone()), K::R(K::H(h2).rr().unwrap()), K::M(Message { id: m.id.clone(), description: m.description.clone(), provider_states: m.provider_states.clone(), contents: m.contents.contents.clone(), metadata: m.contents.metadata.clone(), matching_rules: m.contents.matching_rules.clone(), generators: m.contents.generators.clone() })];
    for k in &ks { if c.stop() { return; } view(c, &mut r, k); }
  }
}
