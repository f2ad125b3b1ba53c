%unit parts
%include std.rs
%include vxmap.rs
%include json_val.rs
%src rust/pact_models/src/content_types.rs
%enum ContentTypeHint
%src rust/pact_models/src/bodies.rs
%enum OptionalBody
%include body_val.rs
%include body_spec.rs
%prelude
verus! {
pub enum PactSpecification { Unknown, V1, V1_1, V2, V3, V4 }
#[verifier::external_body] pub struct MatchingRules { _p: () }
#[verifier::external_body] pub struct Generators { _p: () }
}
%src rust/pact_models/src/v4/http_parts.rs
%struct HttpRequest
%struct HttpResponse
%src rust/pact_models/src/v4/message_parts.rs
%struct MessageContents
%include parts_spec.rs
%src rust/pact_models/src/headers.rs
%fn parse_header
%attr #[verifier::loop_isolation(false)]
%chain
%sub `SINGLE_VALUE_HEADERS.contains(&name.to_lowercase().as_str())` => `vx_single(vx_lower(name).as_str())`
%sub `value.trim().to_string()` => `vx_trim(value)`
%sub `v.trim().to_string()` => `vx_trim(v)`
%sub `value.split(',')` => `vx_commas(value)`
%sig
  ensures strs(r@) =~= parse_hdr(name@, value@)
%bty 0 Vec<String>
%loop 0 it
  invariant it.seq().len() == commas(value@).len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i])@ == commas(value@)[i],
    vx_b0@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> (#[trigger] vx_b0@[i])@ == trim(commas(value@)[i])
%src rust/pact_models/src/json_utils.rs
%fn headers_from_json
%attr #[verifier::loop_isolation(false)]
%chain
%sub `m.iter()` => `vx_pairs(m)`
%sig
  ensures hdrso(r) == hf(jv(*request))
%body_start
  proof { broadcast use axiom_jv; }
%bty 0 HashMap<String, Vec<String>>
%bty 1 Vec<String>
%loop 0 it
  invariant pairs_of(it.seq(), jm(*m)), forall|k: Seq<char>| #[trigger] hdrs(vx_b0).dom().contains(k) ==> jm(*m).dom().contains(k) && hdrs(vx_b0)[k] == hval(k, jm(*m)[k]),
    forall|i: int| 0 <= i < it.index@ ==> hdrs(vx_b0).dom().contains((#[trigger] it.seq()[i]).0@)
%loop_start 0
  let ghost vx_o = hdrs(vx_b0);
  proof { broadcast use axiom_jv; }
%loop 1 jt
  invariant jt.seq().len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] jt.seq()[i]) == v@[i], vx_b1@.len() == jt.index@, forall|i: int| 0 <= i < jt.index@ ==> (#[trigger] vx_b1@[i])@ == hitem(jv(v@[i]))
%loop_start 1
  proof { broadcast use axiom_jv; }
%loop_end 0
  proof { assert(strs(vx_x0_1.1@) =~= hval(vx_x0_1.0@, jv(*vx_x0.1))); assert(jm(*m).dom().contains(it.seq()[it.index@].0@)); assert(vx_x0_1.0@ == vx_x0.0@); assert(hdrs(vx_b0) =~= vx_o.insert(vx_x0.0@, strs(vx_x0_1.1@))); }
%after_loop 0
  proof { assert(hdrs(vx_b0) =~= hmap(jm(*m))); }
%src rust/pact_models/src/v4/http_parts.rs
%fn HttpRequest::content_type
%sig
  ensures one_ct(hdrso(self.headers)) ==> ctqo(r) == calc(bq(self.body), hdrso(self.headers))
%fn HttpRequest::from_json
%sub `anyhow::Result<Self>` => `Result<HttpRequest, VxError>`
%sub `headers: headers.clone()` => `headers: vx_clone_headers(&headers)`
%sub `s.to_uppercase()` => `vx_upper(s)`
%sub `v.to_string().to_uppercase()` => `vx_upper(v.to_string().as_str())`
%sig
  ensures one_ct(hf(jv(*request_json))) ==> r is Ok == rf(jv(*request_json)) is Some, one_ct(hf(jv(*request_json))) && r is Ok ==> Some(rq(r->Ok_0)) == rf(jv(*request_json))
%body_start
  proof { broadcast use axiom_jv; }
%fn HttpRequest::to_json
%attr #[verifier::loop_isolation(false)]
%chain
%sub `self.method.to_uppercase()` => `vx_upper(self.method.as_str())`
%sub `json.as_object_mut().unwrap()` => `vx_obj_mut(&mut json)`
%sub `query.clone()` => `vx_clone_query(query)`
%sig
  ensures one_ct(hdrso(self.headers)) ==> jv(r) == JV::Obj(rj(rq(*self)))
%body_start
  proof { broadcast use axiom_jv; }
%bty 0 JMap
%loop 0 it
  invariant entries_of(it.seq(), headers@), forall|k: Seq<char>| #[trigger] jm(vx_b0).dom().contains(k) ==> hdrs(*headers).dom().contains(k) && jm(vx_b0)[k] == harr(hdrs(*headers)[k]),
    forall|i: int| 0 <= i < it.index@ ==> jm(vx_b0).dom().contains((#[trigger] it.seq()[i]).0@)
%loop_start 0
  let ghost vx_o = jm(vx_b0);
  proof { broadcast use axiom_jv; }
%loop_end 0
  proof { let e = it.seq()[it.index@]; assert(headers@.dom().contains(e.0.kv())); assert(e.1.tv() == harr(hdrs(*headers)[e.0@])) by { assert(e.1@.map_values(|x: String| x.tv()) =~= strs(e.1@).map_values(|s: Seq<char>| JV::Str(s))); } }
%after_loop 0
  proof { assert forall|k: Seq<char>| #[trigger] hdrs(*headers).dom().contains(k) implies jm(vx_b0).dom().contains(k) by { assert(headers@.dom().contains(k)); } assert(jm(vx_b0) =~= hj(hdrs(*headers))->Obj_0); }
%fn HttpResponse::content_type
%sig
  ensures one_ct(hdrso(self.headers)) ==> ctqo(r) == calc(bq(self.body), hdrso(self.headers))
%fn HttpResponse::from_json
%sub `anyhow::Result<Self>` => `Result<HttpResponse, VxError>`
%sub `headers: headers.clone()` => `headers: vx_clone_headers(&headers)`
%sub `u16::try_from(status).ok()` => `vx_u16_of_u64(status)`
%closure 0 |status: u64| -> (o: Option<u16>) ensures o == (if status <= 65535 { Some(status as u16) } else { None })
%sig
  ensures one_ct(hf(jv(*response))) ==> r is Ok == sf(jv(*response)) is Some, one_ct(hf(jv(*response))) && r is Ok ==> Some(sq(r->Ok_0)) == sf(jv(*response))
%body_start
  proof { broadcast use axiom_jv; }
%fn HttpResponse::to_json
%attr #[verifier::loop_isolation(false)]
%chain
%sub `json.as_object_mut().unwrap()` => `vx_obj_mut(&mut json)`
%sig
  ensures one_ct(hdrso(self.headers)) ==> jv(r) == JV::Obj(sj(sq(*self)))
%body_start
  proof { broadcast use axiom_jv; }
%bty 0 JMap
%loop 0 it
  invariant entries_of(it.seq(), headers@), forall|k: Seq<char>| #[trigger] jm(vx_b0).dom().contains(k) ==> hdrs(*headers).dom().contains(k) && jm(vx_b0)[k] == harr(hdrs(*headers)[k]),
    forall|i: int| 0 <= i < it.index@ ==> jm(vx_b0).dom().contains((#[trigger] it.seq()[i]).0@)
%loop_start 0
  let ghost vx_o = jm(vx_b0);
  proof { broadcast use axiom_jv; }
%loop_end 0
  proof { let e = it.seq()[it.index@]; assert(headers@.dom().contains(e.0.kv())); assert(e.1.tv() == harr(hdrs(*headers)[e.0@])) by { assert(e.1@.map_values(|x: String| x.tv()) =~= strs(e.1@).map_values(|s: Seq<char>| JV::Str(s))); } }
%after_loop 0
  proof { assert forall|k: Seq<char>| #[trigger] hdrs(*headers).dom().contains(k) implies jm(vx_b0).dom().contains(k) by { assert(headers@.dom().contains(k)); } assert(jm(vx_b0) =~= hj(hdrs(*headers))->Obj_0); }
%src rust/pact_models/src/json_utils.rs
%fn json_to_string
%sig
  ensures r@ == jtext(jv(*value))
%body_start
  proof { broadcast use axiom_jv; }
%src rust/pact_models/src/v4/message_parts.rs
%fn metadata_to_headers
%opt
%sub `metadata.get("contentType")` => `vx_get_str(metadata, "contentType")`
%closure 0 |content_type: &Value| -> (o: HashMap<String, Vec<String>>) ensures hdrs(o).dom() =~= set!["Content-Type"@], hdrs(o)["Content-Type"@] =~= seq![jtext(jv(*content_type))]
%sig
  ensures hdrso(r) =~~= mhead(meta(*metadata))
%fn MessageContents::message_content_type
%sig
  ensures ctqo(r) == calc(bq(self.contents), mhead(meta(self.metadata)))
%body_start
  proof { lemma_mhead(meta(self.metadata)); }
%fn MessageContents::from_json
%attr #[verifier::loop_isolation(false)]
%chain
%sub `anyhow::Result<MessageContents>` => `Result<MessageContents, VxError>`
%sub `v.iter()` => `vx_pairs(v)`
%sig
  ensures r is Ok == cf(jv(*json)) is Some, r is Ok ==> Some(cq(r->Ok_0)) == cf(jv(*json))
%tail_after
  proof { if vx_ret is Ok { assert(meta(vx_ret->Ok_0.metadata) =~= cmeta(jv(*json))); } }
%body_start
  proof { broadcast use axiom_jv; lemma_mhead(cmeta(jv(*json))); }
%bty 0 HashMap<String, Value>
%loop 0 it
  invariant pairs_of(it.seq(), jm(*v)), forall|k: Seq<char>| #[trigger] meta(vx_b0).dom().contains(k) ==> jm(*v).dom().contains(k) && meta(vx_b0)[k] == jm(*v)[k],
    forall|i: int| 0 <= i < it.index@ ==> meta(vx_b0).dom().contains((#[trigger] it.seq()[i]).0@)
%loop_start 0
  let ghost vx_o = meta(vx_b0);
%loop_end 0
  proof { let e = it.seq()[it.index@]; assert(jm(*v).dom().contains(e.0@)); assert(meta(vx_b0) =~= vx_o.insert(e.0@, jv(*e.1))); }
%after_loop 0
  proof { assert(meta(vx_b0) =~= jm(*v)); }
%fn MessageContents::to_json
%attr #[verifier::loop_isolation(false)]
%chain
%sub 4 `json.as_object_mut().unwrap()` => `vx_obj_mut(&mut json)`
%sig
  ensures jv(r) == JV::Obj(cj(cq(*self)))
%body_start
  proof { broadcast use axiom_jv; }
%bty 0 JMap
%loop 0 it
  invariant entries_of(it.seq(), self.metadata@), forall|k: Seq<char>| #[trigger] jm(vx_b0).dom().contains(k) ==> meta(self.metadata).dom().contains(k) && jm(vx_b0)[k] == meta(self.metadata)[k],
    forall|i: int| 0 <= i < it.index@ ==> jm(vx_b0).dom().contains((#[trigger] it.seq()[i]).0@)
%loop_start 0
  proof { broadcast use axiom_jv; }
%loop_end 0
  proof { let e = it.seq()[it.index@]; assert(self.metadata@.dom().contains(e.0.kv())); }
%after_loop 0
  proof { assert forall|k: Seq<char>| #[trigger] meta(self.metadata).dom().contains(k) implies jm(vx_b0).dom().contains(k) by { assert(self.metadata@.dom().contains(k)); } assert(jm(vx_b0) =~= meta(self.metadata)); }
