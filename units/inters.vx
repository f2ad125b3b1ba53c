%unit inters
%include std.rs
%include vxmap.rs
%include json_val.rs
%src rust/pact_models/src/content_types.rs
%enum ContentTypeHint
%src rust/pact_models/src/bodies.rs
%enum OptionalBody
%include body_val.rs
%include body_spec.rs
%prelude
verus! {
pub enum PactSpecification { Unknown, V1, V1_1, V2, V3, V4 }
#[verifier::external_body] pub struct MatchingRules { _p: () }
#[verifier::external_body] pub struct Generators { _p: () }
}
%src rust/pact_models/src/v4/http_parts.rs
%struct HttpRequest
%struct HttpResponse
%src rust/pact_models/src/v4/message_parts.rs
%struct MessageContents
%include parts_spec.rs
%src rust/pact_models/src/provider_states.rs
%struct ProviderState
%src rust/pact_models/src/v4/mod.rs
%enum V4InteractionType
%src rust/pact_models/src/v4/interaction.rs
%struct InteractionMarkup
%src rust/pact_models/src/v4/synch_http.rs
%struct SynchronousHttp
%src rust/pact_models/src/v4/async_message.rs
%struct AsynchronousMessage
%src rust/pact_models/src/v4/sync_message.rs
%struct SynchronousMessage
%src rust/pact_models/src/sync_interaction.rs
%struct RequestResponseInteraction
%include inters_spec.rs
%src rust/pact_models/src/json_utils.rs
%fn is_empty
%sig
  ensures r == jempty(jv(*value))
%body_start
  proof { broadcast use axiom_jv; }
%src rust/pact_models/src/provider_states.rs
%fn ProviderState::from_json_v3
%attr #[verifier::loop_isolation(false)]
%chain
%sub `map.iter()` => `vx_pairs(map)`
%sig
  ensures psq(r) == state_f(jv(*pact_json))
%body_start
  proof { broadcast use axiom_jv; }
%bty 0 HashMap<String, Value>
%loop 0 it
  invariant pairs_of(it.seq(), jm(*map)), forall|k: Seq<char>| #[trigger] meta(vx_b0).dom().contains(k) ==> jm(*map).dom().contains(k) && meta(vx_b0)[k] == jm(*map)[k],
    forall|i: int| 0 <= i < it.index@ ==> meta(vx_b0).dom().contains((#[trigger] it.seq()[i]).0@)
%loop_start 0
  let ghost vx_o = meta(vx_b0);
%loop_end 0
  proof { let e = it.seq()[it.index@]; assert(jm(*map).dom().contains(e.0@)); assert(meta(vx_b0) =~= vx_o.insert(e.0@, jv(*e.1))); }
%after_loop 0
  proof { assert(meta(vx_b0) =~= jm(*map)); }
%tail_after
  proof { assert(meta(vx_ret.params) =~= state_f(jv(*pact_json)).params); }
%fn ProviderState::from_json
%opt
%attr #[verifier::loop_isolation(false)]
%chain
%sig
  ensures states(r@) =~= states_f(jv(*pact_json))
%body_start
  proof { broadcast use axiom_jv; }
%bty 0 Vec<ProviderState>
%loop 0 it
  invariant it.seq().len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> *(#[trigger] it.seq()[i]) == a@[i], vx_b0@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> psq(#[trigger] vx_b0@[i]) == state_f(jv(a@[i]))
%tail_after
  proof { assert(forall|i: int| 0 <= i < vx_ret@.len() ==> meta((#[trigger] vx_ret@[i]).params) =~= states_f(jv(*pact_json))[i].params); }
%fn ProviderState::to_json
%attr #[verifier::loop_isolation(false)]
%chain
%sub `value.as_object_mut().unwrap()` => `vx_obj_mut(&mut value)`
%sub `"params".into()` => `"params".to_string()`
%sig
  ensures jv(r) == state_j(psq(*self))
%body_start
  proof { broadcast use axiom_jv; }
%bty 0 JMap
%loop 0 it
  invariant entries_of(it.seq(), self.params@), forall|k: Seq<char>| #[trigger] jm(vx_b0).dom().contains(k) ==> meta(self.params).dom().contains(k) && jm(vx_b0)[k] == meta(self.params)[k],
    forall|i: int| 0 <= i < it.index@ ==> jm(vx_b0).dom().contains((#[trigger] it.seq()[i]).0@)
%loop_start 0
  proof { broadcast use axiom_jv; }
%loop_end 0
  proof { let e = it.seq()[it.index@]; assert(self.params@.dom().contains(e.0.kv())); }
%after_loop 0
  proof { assert forall|k: Seq<char>| #[trigger] meta(self.params).dom().contains(k) implies jm(vx_b0).dom().contains(k) by { assert(self.params@.dom().contains(k)); } assert(jm(vx_b0) =~= meta(self.params)); }
%src rust/pact_models/src/v4/interaction.rs
%fn InteractionMarkup::from_json
%sig
  ensures mkq(r) == markup_f(jv(*json))
%body_start
  proof { broadcast use axiom_jv; reveal_strlit(""); }
%closure 0 |val: &Value| -> (o: String) ensures o@ == jtext(jv(*val))
%closure 1 |val: &Value| -> (o: String) ensures o@ == jtext(jv(*val))
%fn InteractionMarkup::is_empty
%sig
  ensures r == (mkq(*self).markup.len() == 0)
%fn InteractionMarkup::to_json
%sig
  ensures jv(r) == markup_j(mkq(*self))
%body_start
  proof { broadcast use axiom_jv; }
%fn parse_plugin_config
%attr #[verifier::loop_isolation(false)]
%chain
%sub `map.iter()` => `vx_pairs(map)`
%sub `o.iter()` => `vx_pairs(o)`
%sig
  ensures pcq(r) == plugin_f(jv(*json))
%body_start
  proof { broadcast use axiom_jv; }
%bty 0 HashMap<String, HashMap<String, Value>>
%bty 1 HashMap<String, Value>
%loop 0 it
  invariant pairs_of(it.seq(), jm(*map)), forall|k: Seq<char>| #[trigger] pcq(vx_b0).dom().contains(k) ==> jm(*map).dom().contains(k) && pcq(vx_b0)[k] == oobj(jm(*map)[k]),
    forall|i: int| 0 <= i < it.index@ ==> pcq(vx_b0).dom().contains((#[trigger] it.seq()[i]).0@)
%loop_start 0
  let ghost vx_o = pcq(vx_b0);
  proof { broadcast use axiom_jv; }
%loop_end 0
  proof { let e = it.seq()[it.index@]; assert(jm(*map).dom().contains(e.0@)); assert(meta(vx_x0_1.1) =~= oobj(jv(*e.1))); assert(pcq(vx_b0) =~= vx_o.insert(e.0@, oobj(jv(*e.1)))); }
%after_loop 0
  proof { assert(pcq(vx_b0) =~= plugin_m(jm(*map))); }
%loop 1 jt
  invariant pairs_of(jt.seq(), jm(*o)), forall|k: Seq<char>| #[trigger] meta(vx_b1).dom().contains(k) ==> jm(*o).dom().contains(k) && meta(vx_b1)[k] == jm(*o)[k],
    forall|i: int| 0 <= i < jt.index@ ==> meta(vx_b1).dom().contains((#[trigger] jt.seq()[i]).0@)
%loop_start 1
  let ghost vx_o1 = meta(vx_b1);
%loop_end 1
  proof { let e = jt.seq()[jt.index@]; assert(jm(*o).dom().contains(e.0@)); assert(meta(vx_b1) =~= vx_o1.insert(e.0@, jv(*e.1))); }
%after_loop 1
  proof { assert(meta(vx_b1) =~= jm(*o)); }
%tail_after
  proof { assert(pcq(vx_ret) =~= plugin_f(jv(*json))); }
%src rust/pact_models/src/v4/mod.rs
%fn Display for V4InteractionType::fmt
%free
%rename type_fmt
%fmt str
%sub `&self` => `s_: &V4InteractionType`
%sub `match *self` => `match *s_`
%sub `&mut Formatter<'_>` => `&mut String`
%sub 3 `f.write_str(` => `vx_write_str(f, `
%sub `fmt::Result` => `Result<(), VxError>`
%sig
  ensures r is Ok, final(f)@ == old(f)@ + type_text(*s_)
%fn FromStr for V4InteractionType::from_str
%free
%rename type_from_str
%sub `match type_str` => `match vx_lit(type_str)`
%sub `anyhow::Result<V4InteractionType>` => `Result<V4InteractionType, VxError>`
%sig
  ensures r is Ok == type_of_text(type_str@) is Some, r is Ok ==> Some(r->Ok_0) == type_of_text(type_str@)
%src rust/pact_models/src/v4/synch_http.rs
%fn SynchronousHttp::from_json
%attr #[verifier::loop_isolation(false)]
%chain
%fmt str
%sub `map.iter()` => `vx_pairs(map)`
%sub `anyhow::Result<SynchronousHttp>` => `Result<SynchronousHttp, VxError>`
%sig
  ensures http_one(jv(*json)) ==> r is Ok == http_f(jv(*json), index) is Some, http_one(jv(*json)) && r is Ok ==> Some(hq(r->Ok_0)) == http_f(jv(*json), index)
%body_start
  proof { broadcast use axiom_jv; lemma_common(); }
%closure 0 |id: &Value| -> (o: String) ensures o@ == jtext(jv(*id))
%closure 1 |id: &Value| -> (o: String) ensures o@ == jtext(jv(*id))
%closure 3 |markup: &Value| -> (o: InteractionMarkup) ensures mkq(o) == markup_f(jv(*markup))
%closure 4 |value: &Value| -> (o: String) ensures o@ == hitem(jv(*value)) ;; proof { broadcast use axiom_jv; }
%closure 5 |value: &Value| -> (o: bool) ensures o == jbool(jv(*value))
%bty 0 HashMap<String, Value>
%loop 0 it
  invariant pairs_of(it.seq(), jm(*map)), forall|k: Seq<char>| #[trigger] meta(vx_b0).dom().contains(k) ==> jm(*map).dom().contains(k) && meta(vx_b0)[k] == jm(*map)[k],
    forall|i: int| 0 <= i < it.index@ ==> meta(vx_b0).dom().contains((#[trigger] it.seq()[i]).0@)
%loop_start 0
  let ghost vx_o = meta(vx_b0);
%loop_end 0
  proof { let e = it.seq()[it.index@]; assert(jm(*map).dom().contains(e.0@)); assert(meta(vx_b0) =~= vx_o.insert(e.0@, jv(*e.1))); }
%after_loop 0
  proof { assert(meta(vx_b0) =~= jm(*map)); }
%tail_after
  proof { if vx_ret is Ok && http_one(jv(*json)) { assert(meta(vx_ret->Ok_0.comments) =~= jobj(jv(*json), "comments"@)); let c = hq(vx_ret->Ok_0).common; let d = common_f(jv(*json), index); assert(c.id == d.id); assert(c.key == d.key); assert(c.description =~= d.description); assert(c.states =~= d.states); assert(c.pending == d.pending); assert(c.plugin =~= d.plugin); assert(c.markup == d.markup); assert(c.transport == d.transport); } }
%fn V4Interaction for SynchronousHttp::to_json
%rename to_json
%attr #[verifier::loop_isolation(false)]
%chain
%sub `json.as_object_mut().unwrap()` => `vx_obj_mut(&mut json)`
%sub `let comments: Map<String, Value>` => `let comments: JMap`
%sig
  ensures http_out(hq(*self)) ==> jv(r) == JV::Obj(http_j(hq(*self)))
%body_start
  proof { broadcast use axiom_jv; }
%tail_after
  proof { if http_out(hq(*self)) { lemma_common(); assert(jv(vx_ret)->Obj_0 =~= http_j(hq(*self))); } }
%bty 0 Vec<Value>
%loop 0 it
  invariant it.seq().len() == self.provider_states@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.provider_states@[i], vx_b0@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> jv(#[trigger] vx_b0@[i]) == state_j(psq(self.provider_states@[i]))
%after_loop 0
  proof { assert(jvs(vx_b0@) =~= states_j(states(self.provider_states@))->Arr_0); }
%bty 1 JMap
%loop 1 it
  invariant entries_of(it.seq(), self.comments@), forall|k: Seq<char>| #[trigger] jm(vx_b1).dom().contains(k) ==> kept(meta(self.comments)).dom().contains(k) && jm(vx_b1)[k] == meta(self.comments)[k],
    forall|i: int| 0 <= i < it.index@ && !jempty(jv(*it.seq()[i].1)) ==> jm(vx_b1).dom().contains((#[trigger] it.seq()[i]).0@)
%loop_start 1
  proof { broadcast use axiom_jv; }
%loop_end 1
  proof { let e = it.seq()[it.index@]; assert(self.comments@.dom().contains(e.0.kv())); }
%after_loop 1
  proof { assert forall|k: Seq<char>| #[trigger] kept(meta(self.comments)).dom().contains(k) implies jm(vx_b1).dom().contains(k) by { assert(self.comments@.dom().contains(k)); } assert(jm(vx_b1) =~= kept(meta(self.comments))); }
%bty 2 Value
%loop 2 it
  invariant vx_b2 is Object, entries_of(it.seq(), self.plugin_config@), forall|k: Seq<char>| #[trigger] vobj(vx_b2).dom().contains(k) ==> pcq(self.plugin_config).dom().contains(k) && vobj(vx_b2)[k] == JV::Obj(pcq(self.plugin_config)[k]),
    forall|i: int| 0 <= i < it.index@ ==> vobj(vx_b2).dom().contains((#[trigger] it.seq()[i]).0@)
%loop_start 2
  let ghost vx_p = vobj(vx_b2);
  proof { broadcast use axiom_jv; }
%loop_end 2
  proof { let e = it.seq()[it.index@]; assert(self.plugin_config@.dom().contains(e.0.kv())); assert(pcq(self.plugin_config)[e.0@] == meta(*e.1)); assert(vobj(vx_b2) == vx_p.insert(e.0@, JV::Obj(meta(*e.1)))); }
%after_loop 2
  proof { assert forall|k: Seq<char>| #[trigger] pcq(self.plugin_config).dom().contains(k) implies vobj(vx_b2).dom().contains(k) by { assert(self.plugin_config@.dom().contains(k)); } assert(vobj(vx_b2) =~= plugin_j(pcq(self.plugin_config))->Obj_0); }
%bty 3 JMap
%loop 3 jt
  invariant entries_of(jt.seq(), v@), forall|k: Seq<char>| #[trigger] jm(vx_b3).dom().contains(k) ==> meta(*v).dom().contains(k) && jm(vx_b3)[k] == meta(*v)[k],
    forall|i: int| 0 <= i < jt.index@ ==> jm(vx_b3).dom().contains((#[trigger] jt.seq()[i]).0@)
%loop_start 3
  proof { broadcast use axiom_jv; }
%loop_end 3
  proof { let e = jt.seq()[jt.index@]; assert(v@.dom().contains(e.0.kv())); }
%after_loop 3
  proof { assert forall|k: Seq<char>| #[trigger] meta(*v).dom().contains(k) implies jm(vx_b3).dom().contains(k) by { assert(v@.dom().contains(k)); } assert(jm(vx_b3) =~= meta(*v)); }
%src rust/pact_models/src/v4/async_message.rs
%fn AsynchronousMessage::from_json
%attr #[verifier::loop_isolation(false)]
%chain
%fmt str
%sub `map.iter()` => `vx_pairs(map)`
%sub `v.iter()` => `vx_pairs(v)`
%sub `anyhow::Result<AsynchronousMessage>` => `Result<AsynchronousMessage, VxError>`
%sig
  ensures r is Ok == async_f(jv(*json), index) is Some, r is Ok ==> Some(amq(r->Ok_0)) == async_f(jv(*json), index)
%body_start
  proof { broadcast use axiom_jv; lemma_common(); lemma_mhead(cmeta(jv(*json))); }
%closure 0 |id: &Value| -> (o: String) ensures o@ == jtext(jv(*id))
%closure 1 |id: &Value| -> (o: String) ensures o@ == jtext(jv(*id))
%closure 4 |markup: &Value| -> (o: InteractionMarkup) ensures mkq(o) == markup_f(jv(*markup))
%closure 5 |value: &Value| -> (o: String) ensures o@ == hitem(jv(*value)) ;; proof { broadcast use axiom_jv; }
%closure 6 |value: &Value| -> (o: bool) ensures o == jbool(jv(*value))
%bty 0 HashMap<String, Value>
%loop 0 it
  invariant pairs_of(it.seq(), jm(*map)), forall|k: Seq<char>| #[trigger] meta(vx_b0).dom().contains(k) ==> jm(*map).dom().contains(k) && meta(vx_b0)[k] == jm(*map)[k],
    forall|i: int| 0 <= i < it.index@ ==> meta(vx_b0).dom().contains((#[trigger] it.seq()[i]).0@)
%loop_start 0
  let ghost vx_o = meta(vx_b0);
%loop_end 0
  proof { let e = it.seq()[it.index@]; assert(jm(*map).dom().contains(e.0@)); assert(meta(vx_b0) =~= vx_o.insert(e.0@, jv(*e.1))); }
%after_loop 0
  proof { assert(meta(vx_b0) =~= jm(*map)); }
%bty 1 HashMap<String, Value>
%loop 1 it
  invariant pairs_of(it.seq(), jm(*v)), forall|k: Seq<char>| #[trigger] meta(vx_b1).dom().contains(k) ==> jm(*v).dom().contains(k) && meta(vx_b1)[k] == jm(*v)[k],
    forall|i: int| 0 <= i < it.index@ ==> meta(vx_b1).dom().contains((#[trigger] it.seq()[i]).0@)
%loop_start 1
  let ghost vx_o = meta(vx_b1);
%loop_end 1
  proof { let e = it.seq()[it.index@]; assert(jm(*v).dom().contains(e.0@)); assert(meta(vx_b1) =~= vx_o.insert(e.0@, jv(*e.1))); }
%after_loop 1
  proof { assert(meta(vx_b1) =~= jm(*v)); }
%tail_after
  proof { if vx_ret is Ok { assert(meta(vx_ret->Ok_0.comments) =~= jobj(jv(*json), "comments"@)); assert(meta(vx_ret->Ok_0.contents.metadata) =~= cmeta(jv(*json))); let c = amq(vx_ret->Ok_0).common; let d = common_f(jv(*json), index); assert(c.id == d.id); assert(c.key == d.key); assert(c.description =~= d.description); assert(c.states =~= d.states); assert(c.pending == d.pending); assert(c.plugin =~= d.plugin); assert(c.markup == d.markup); assert(c.transport == d.transport); } }
%fn V4Interaction for AsynchronousMessage::to_json
%rename to_json
%attr #[verifier::loop_isolation(false)]
%chain
%sub `json.as_object_mut().unwrap()` => `vx_obj_mut(&mut json)`
%sub `let comments: Map<String, Value>` => `let comments: JMap`
%sig
  ensures jv(r) == JV::Obj(async_j(amq(*self)))
%body_start
  proof { broadcast use axiom_jv; }
%tail_after
  proof { assert(jv(vx_ret)->Obj_0 =~= async_code(amq(*self))); lemma_async_order(amq(*self)); }
%bty 0 JMap
%loop 0 it
  invariant entries_of(it.seq(), self.contents.metadata@), forall|k: Seq<char>| #[trigger] jm(vx_b0).dom().contains(k) ==> meta(self.contents.metadata).dom().contains(k) && jm(vx_b0)[k] == meta(self.contents.metadata)[k],
    forall|i: int| 0 <= i < it.index@ ==> jm(vx_b0).dom().contains((#[trigger] it.seq()[i]).0@)
%loop_start 0
  proof { broadcast use axiom_jv; }
%loop_end 0
  proof { let e = it.seq()[it.index@]; assert(self.contents.metadata@.dom().contains(e.0.kv())); }
%after_loop 0
  proof { assert forall|k: Seq<char>| #[trigger] meta(self.contents.metadata).dom().contains(k) implies jm(vx_b0).dom().contains(k) by { assert(self.contents.metadata@.dom().contains(k)); } assert(jm(vx_b0) =~= meta(self.contents.metadata)); }
%bty 1 Vec<Value>
%loop 1 it
  invariant it.seq().len() == self.provider_states@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.provider_states@[i], vx_b1@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> jv(#[trigger] vx_b1@[i]) == state_j(psq(self.provider_states@[i]))
%after_loop 1
  proof { assert(jvs(vx_b1@) =~= states_j(states(self.provider_states@))->Arr_0); }
%bty 2 JMap
%loop 2 it
  invariant entries_of(it.seq(), self.comments@), forall|k: Seq<char>| #[trigger] jm(vx_b2).dom().contains(k) ==> kept(meta(self.comments)).dom().contains(k) && jm(vx_b2)[k] == meta(self.comments)[k],
    forall|i: int| 0 <= i < it.index@ && !jempty(jv(*it.seq()[i].1)) ==> jm(vx_b2).dom().contains((#[trigger] it.seq()[i]).0@)
%loop_start 2
  proof { broadcast use axiom_jv; }
%loop_end 2
  proof { let e = it.seq()[it.index@]; assert(self.comments@.dom().contains(e.0.kv())); }
%after_loop 2
  proof { assert forall|k: Seq<char>| #[trigger] kept(meta(self.comments)).dom().contains(k) implies jm(vx_b2).dom().contains(k) by { assert(self.comments@.dom().contains(k)); } assert(jm(vx_b2) =~= kept(meta(self.comments))); }
%bty 3 Value
%loop 3 it
  invariant vx_b3 is Object, entries_of(it.seq(), self.plugin_config@), forall|k: Seq<char>| #[trigger] vobj(vx_b3).dom().contains(k) ==> pcq(self.plugin_config).dom().contains(k) && vobj(vx_b3)[k] == JV::Obj(pcq(self.plugin_config)[k]),
    forall|i: int| 0 <= i < it.index@ ==> vobj(vx_b3).dom().contains((#[trigger] it.seq()[i]).0@)
%loop_start 3
  let ghost vx_p = vobj(vx_b3);
  proof { broadcast use axiom_jv; }
%loop_end 3
  proof { let e = it.seq()[it.index@]; assert(self.plugin_config@.dom().contains(e.0.kv())); assert(pcq(self.plugin_config)[e.0@] == meta(*e.1)); assert(vobj(vx_b3) == vx_p.insert(e.0@, JV::Obj(meta(*e.1)))); }
%after_loop 3
  proof { assert forall|k: Seq<char>| #[trigger] pcq(self.plugin_config).dom().contains(k) implies vobj(vx_b3).dom().contains(k) by { assert(self.plugin_config@.dom().contains(k)); } assert(vobj(vx_b3) =~= plugin_j(pcq(self.plugin_config))->Obj_0); }
%bty 4 JMap
%loop 4 jt
  invariant entries_of(jt.seq(), v@), forall|k: Seq<char>| #[trigger] jm(vx_b4).dom().contains(k) ==> meta(*v).dom().contains(k) && jm(vx_b4)[k] == meta(*v)[k],
    forall|i: int| 0 <= i < jt.index@ ==> jm(vx_b4).dom().contains((#[trigger] jt.seq()[i]).0@)
%loop_start 4
  proof { broadcast use axiom_jv; }
%loop_end 4
  proof { let e = jt.seq()[jt.index@]; assert(v@.dom().contains(e.0.kv())); }
%after_loop 4
  proof { assert forall|k: Seq<char>| #[trigger] meta(*v).dom().contains(k) implies jm(vx_b4).dom().contains(k) by { assert(v@.dom().contains(k)); } assert(jm(vx_b4) =~= meta(*v)); }
%src rust/pact_models/src/v4/sync_message.rs
%fn SynchronousMessage::from_json
%attr #[verifier::loop_isolation(false)]
%chain
%fmt str
%sub `map.iter()` => `vx_pairs(map)`
%opt
%sub `anyhow::Result<SynchronousMessage>` => `Result<SynchronousMessage, VxError>`
%sub `Vec<anyhow::Result<MessageContents>>` => `Vec<Result<MessageContents, VxError>>`
%sig
  ensures r is Ok == syncm_f(jv(*json), index) is Some, r is Ok ==> Some(smq(r->Ok_0)) == syncm_f(jv(*json), index)
%body_start
  proof { broadcast use axiom_jv; lemma_common(); }
%closure 0 |id: &Value| -> (o: String) ensures o@ == jtext(jv(*id))
%closure 1 |id: &Value| -> (o: String) ensures o@ == jtext(jv(*id))
%closure 7 |markup: &Value| -> (o: InteractionMarkup) ensures mkq(o) == markup_f(jv(*markup))
%closure 8 |value: &Value| -> (o: String) ensures o@ == hitem(jv(*value)) ;; proof { broadcast use axiom_jv; }
%closure 13 |value: &Value| -> (o: bool) ensures o == jbool(jv(*value))
%bty 0 HashMap<String, Value>
%loop 0 it
  invariant pairs_of(it.seq(), jm(*map)), forall|k: Seq<char>| #[trigger] meta(vx_b0).dom().contains(k) ==> jm(*map).dom().contains(k) && meta(vx_b0)[k] == jm(*map)[k],
    forall|i: int| 0 <= i < it.index@ ==> meta(vx_b0).dom().contains((#[trigger] it.seq()[i]).0@)
%loop_start 0
  let ghost vx_o = meta(vx_b0);
%loop_end 0
  proof { let e = it.seq()[it.index@]; assert(jm(*map).dom().contains(e.0@)); assert(meta(vx_b0) =~= vx_o.insert(e.0@, jv(*e.1))); }
%after_loop 0
  proof { assert(meta(vx_b0) =~= jm(*map)); }
%sub `res.as_ref().unwrap_err().to_string()` => `vx_err_text(res)`
%bty 1 Vec<Result<MessageContents, VxError>>
%loop 1 it
  invariant it.seq().len() == response@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == response@[i], vx_b1@.len() == it.index@,
    forall|i: int| 0 <= i < it.index@ ==> (#[trigger] vx_b1@[i] is Ok == cf(jv(response@[i])) is Some) && (vx_b1@[i] is Ok ==> Some(cq(vx_b1@[i]->Ok_0)) == cf(jv(response@[i])))
%loop 2 it
  invariant_except_break !vx_b2, forall|i: int| 0 <= i < it.index@ ==> #[trigger] responses@[i] is Ok
  invariant it.seq().len() == responses@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == responses@[i]
  ensures !vx_b2 ==> forall|i: int| 0 <= i < responses@.len() ==> #[trigger] responses@[i] is Ok, vx_b2 ==> exists|i: int| 0 <= i < responses@.len() && #[trigger] responses@[i] is Err
%after_loop 2
  proof { let a = jget(jv(*json), "response"@)->0->Arr_0; assert(a.len() == response@.len()); assert forall|i: int| 0 <= i < a.len() implies (responses@[i] is Ok) == (cf(#[trigger] a[i]) is Some) by { assert(a[i] == jv(response@[i])); let z = responses@[i] is Ok; } if vx_b2 { let i = choose|i: int| 0 <= i < responses@.len() && #[trigger] responses@[i] is Err; assert(cf(a[i]) is None); } else { assert forall|i: int| 0 <= i < a.len() implies cf(#[trigger] a[i]) is Some by { assert(responses@[i] is Ok); } } assert(all_cf(a) == !vx_b2); }
%loop 3 it
  invariant true
%bty 4 Vec<MessageContents>
%loop 4 it
  invariant it.seq().len() == responses@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == responses@[i], vx_b4@.len() == it.index@, forall|i: int| 0 <= i < responses@.len() ==> #[trigger] responses@[i] is Ok,
    forall|i: int| 0 <= i < it.index@ ==> cq(#[trigger] vx_b4@[i]) == cq(responses@[i]->Ok_0)
%after_loop 4
  proof { let a = jget(jv(*json), "response"@)->0->Arr_0; assert(a.len() == response@.len()); assert forall|i: int| 0 <= i < a.len() implies cf(#[trigger] a[i]) is Some && cf(a[i])->0 == cq(vx_b4@[i]) by { assert(a[i] == jv(response@[i])); assert(responses@[i] is Ok); } assert(cqs(vx_b4@) =~= a.map_values(|x: JV| cf(x)->0)); }
%tail_after
  proof { if vx_ret is Ok { assert(meta(vx_ret->Ok_0.comments) =~= jobj(jv(*json), "comments"@)); let c = smq(vx_ret->Ok_0).common; let d = common_f(jv(*json), index); assert(c.id == d.id); assert(c.key == d.key); assert(c.description =~= d.description); assert(c.states =~= d.states); assert(c.pending == d.pending); assert(c.plugin =~= d.plugin); assert(c.markup == d.markup); assert(c.transport == d.transport); } }
%fn V4Interaction for SynchronousMessage::to_json
%rename to_json
%attr #[verifier::loop_isolation(false)]
%chain
%sub `json.as_object_mut().unwrap()` => `vx_obj_mut(&mut json)`
%sub `let comments: Map<String, Value>` => `let comments: JMap`
%sig
  ensures jv(r) == JV::Obj(syncm_j(smq(*self)))
%body_start
  proof { broadcast use axiom_jv; }
%tail_after
  proof { lemma_common(); assert(jv(vx_ret)->Obj_0 =~= syncm_j(smq(*self))); }
%bty 0 Vec<Value>
%loop 0 it
  invariant it.seq().len() == self.response@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.response@[i], vx_b0@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> jv(#[trigger] vx_b0@[i]) == JV::Obj(cj(cq(self.response@[i])))
%after_loop 0
  proof { assert(vx_b0@.map_values(|x: Value| x.tv()) =~= jvs(vx_b0@)); assert(jvs(vx_b0@) =~= cqs(self.response@).map_values(|c: CQ| JV::Obj(cj(c)))); }
%bty 1 Vec<Value>
%loop 1 it
  invariant it.seq().len() == self.provider_states@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.provider_states@[i], vx_b1@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> jv(#[trigger] vx_b1@[i]) == state_j(psq(self.provider_states@[i]))
%after_loop 1
  proof { assert(jvs(vx_b1@) =~= states_j(states(self.provider_states@))->Arr_0); }
%bty 2 JMap
%loop 2 it
  invariant entries_of(it.seq(), self.comments@), forall|k: Seq<char>| #[trigger] jm(vx_b2).dom().contains(k) ==> kept(meta(self.comments)).dom().contains(k) && jm(vx_b2)[k] == meta(self.comments)[k],
    forall|i: int| 0 <= i < it.index@ && !jempty(jv(*it.seq()[i].1)) ==> jm(vx_b2).dom().contains((#[trigger] it.seq()[i]).0@)
%loop_start 2
  proof { broadcast use axiom_jv; }
%loop_end 2
  proof { let e = it.seq()[it.index@]; assert(self.comments@.dom().contains(e.0.kv())); }
%after_loop 2
  proof { assert forall|k: Seq<char>| #[trigger] kept(meta(self.comments)).dom().contains(k) implies jm(vx_b2).dom().contains(k) by { assert(self.comments@.dom().contains(k)); } assert(jm(vx_b2) =~= kept(meta(self.comments))); }
%bty 3 Value
%loop 3 it
  invariant vx_b3 is Object, entries_of(it.seq(), self.plugin_config@), forall|k: Seq<char>| #[trigger] vobj(vx_b3).dom().contains(k) ==> pcq(self.plugin_config).dom().contains(k) && vobj(vx_b3)[k] == JV::Obj(pcq(self.plugin_config)[k]),
    forall|i: int| 0 <= i < it.index@ ==> vobj(vx_b3).dom().contains((#[trigger] it.seq()[i]).0@)
%loop_start 3
  let ghost vx_p = vobj(vx_b3);
  proof { broadcast use axiom_jv; }
%loop_end 3
  proof { let e = it.seq()[it.index@]; assert(self.plugin_config@.dom().contains(e.0.kv())); assert(pcq(self.plugin_config)[e.0@] == meta(*e.1)); assert(vobj(vx_b3) == vx_p.insert(e.0@, JV::Obj(meta(*e.1)))); }
%after_loop 3
  proof { assert forall|k: Seq<char>| #[trigger] pcq(self.plugin_config).dom().contains(k) implies vobj(vx_b3).dom().contains(k) by { assert(self.plugin_config@.dom().contains(k)); } assert(vobj(vx_b3) =~= plugin_j(pcq(self.plugin_config))->Obj_0); }
%bty 4 JMap
%loop 4 jt
  invariant entries_of(jt.seq(), v@), forall|k: Seq<char>| #[trigger] jm(vx_b4).dom().contains(k) ==> meta(*v).dom().contains(k) && jm(vx_b4)[k] == meta(*v)[k],
    forall|i: int| 0 <= i < jt.index@ ==> jm(vx_b4).dom().contains((#[trigger] jt.seq()[i]).0@)
%loop_start 4
  proof { broadcast use axiom_jv; }
%loop_end 4
  proof { let e = jt.seq()[jt.index@]; assert(v@.dom().contains(e.0.kv())); }
%after_loop 4
  proof { assert forall|k: Seq<char>| #[trigger] meta(*v).dom().contains(k) implies jm(vx_b4).dom().contains(k) by { assert(v@.dom().contains(k)); } assert(jm(vx_b4) =~= meta(*v)); }
%src rust/pact_models/src/v4/interaction.rs
%fn interaction_from_json
%sub `anyhow::Result<Box<dyn V4Interaction + Send + Sync + RefUnwindSafe>>` => `Result<V4I, VxError>`
%sub `FromStr::from_str(` => `type_from_str(`
%closure 0 |i: SynchronousHttp| -> (o: V4I) ensures o == V4I::Http(i)
%closure 1 |i: AsynchronousMessage| -> (o: V4I) ensures o == V4I::Async(i)
%closure 2 |i: SynchronousMessage| -> (o: V4I) ensures o == V4I::Sync(i)
%sig
  ensures v4_one(jv(*ijson)) ==> r is Ok == v4_f(jv(*ijson), index) is Some, v4_one(jv(*ijson)) && r is Ok ==> Some(v4q(r->Ok_0)) == v4_f(jv(*ijson), index)
%fn interactions_from_json
%attr #[verifier::loop_isolation(false)]
%sub `anyhow::Result<Vec<Box<dyn V4Interaction + Send + Sync + RefUnwindSafe>>>` => `Result<Vec<V4I>, VxError>`
%sub `array.iter().enumerate()` => `vx_enum(array)`
%sig
  ensures inters_one(jv(*json)) ==> r is Ok == inters_ok(jv(*json)), inters_one(jv(*json)) && r is Ok ==> v4qs(r->Ok_0@) =~= inters_f(jv(*json))
%body_start
  proof { broadcast use axiom_jv; }
  let ghost one = inters_one(jv(*json));
%loop 0 it
  invariant it.seq().len() == array@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]) == (i as usize, &array@[i]), interactions@.len() == it.index@, one == inters_one(jv(*json)), jget(jv(*json), "interactions"@) == Some(JV::Arr(jvs(array@))), array@.len() <= usize::MAX,
    one ==> forall|i: int| 0 <= i < it.index@ ==> v4_f(jv(#[trigger] array@[i]), i as usize) == Some(v4q(interactions@[i]))
%loop_start 0
  proof { assert(one ==> v4_one(jvs(array@)[it.index@])); assert(v4_f(jvs(array@)[it.index@], index) == v4_f(jv(*ijson), index)); }
%after_loop 0
  proof { if one { assert forall|i: int| 0 <= i < jvs(array@).len() implies v4_f(#[trigger] jvs(array@)[i], i as usize) == Some(v4q(interactions@[i])) by { assert(jvs(array@)[i] == jv(array@[i])); } } }
%fn InteractionMarkup::merge
%sub `if self.markup_type != other.markup_type` => `if !vx_str_eq(self.markup_type.as_str(), other.markup_type.as_str())`
%sig
  ensures mkq(r) == markup_merge(mkq(*self), mkq(other))
%tail_after
  proof { assert(mkq(vx_ret).markup =~= markup_merge(mkq(*self), mkq(other)).markup); }
%src rust/pact_models/src/sync_interaction.rs
%fn RequestResponseInteraction::from_json
%fmt str
%sub `anyhow::Result<RequestResponseInteraction>` => `Result<RequestResponseInteraction, VxError>`
%closure 0 |id: &Value| -> (o: String) ensures o@ == jtext(jv(*id))
%sig
  ensures r is Ok == rr_f(jv(*pact_json), index, *spec_version) is Some, r is Ok ==> Some(rrq(r->Ok_0)) == rr_f(jv(*pact_json), index, *spec_version)
%body_start
  proof { broadcast use axiom_jv; }
%tail_after
  proof { if vx_ret is Ok { assert(states(vx_ret->Ok_0.provider_states@) =~= states_f(jv(*pact_json))); assert(rrq(vx_ret->Ok_0).description =~= jname(jv(*pact_json), "description"@, "Interaction "@ + dec(index as nat))); } }
%fn RequestResponseInteraction::to_json
%attr #[verifier::loop_isolation(false)]
%chain
%sub `value.as_object_mut().unwrap()` => `vx_obj_mut(&mut value)`
%sub `self.provider_states.first().unwrap()` => `vx_first(&self.provider_states)`
%sig
  ensures jv(r) == JV::Obj(rr_j(rrq(*self), *spec_version))
%body_start
  proof { broadcast use axiom_jv; }
%bty 0 Vec<Value>
%loop 0 it
  invariant it.seq().len() == self.provider_states@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.provider_states@[i], vx_b0@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> jv(#[trigger] vx_b0@[i]) == state_j(psq(self.provider_states@[i]))
%after_loop 0
  proof { assert(jvs(vx_b0@) =~= states_j(states(self.provider_states@))->Arr_0); }
