%unit http_part
%include std.rs
%include vxmap.rs
%include json_val.rs
%src rust/pact_models/src/content_types.rs
%enum ContentTypeHint
%src rust/pact_models/src/bodies.rs
%enum OptionalBody
%include body_val.rs
%prelude
verus! {
#[verifier::external_body] pub fn vx_hint_eq(a: &ContentTypeHint, b: &ContentTypeHint) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
impl Clone for OptionalBody { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures bq(r) == bq(*self) { unimplemented!() } }
}
%src rust/pact_models/src/request.rs
%struct Request
%src rust/pact_models/src/response.rs
%struct Response
%src rust/pact_models/src/v4/http_parts.rs
%struct HttpRequest
%struct HttpResponse
%src rust/pact_models/src/v4/message_parts.rs
%struct MessageContents
%src rust/pact_models/src/message.rs
%struct Message
%include http_part_spec.rs
%prelude
verus! {
pub struct AsynchronousMessage { pub contents: MessageContents }
impl OptionalBody {
  pub fn has_content_type(&self) -> (r: bool) ensures r == (bq(*self) matches BQ::Present(_, Some(_), _)) { match self { OptionalBody::Present(_, Some(_), _) => true, _ => false } }
  #[verifier::external_body] pub fn content_type(&self) -> (r: Option<ContentType>) ensures ctqo(r) == (match bq(*self) { BQ::Present(_, c, _) => c, _ => None }) { unimplemented!() }
}
}
%src rust/pact_models/src/json_utils.rs
%fn json_to_string
%sig
  ensures r@ == jtext(jv(*value))
%body_start
  proof { broadcast use axiom_jv; }
%src rust/pact_models/src/bodies.rs
%fn OptionalBody::is_text
%sub `*hint == ContentTypeHint::TEXT` => `vx_hint_eq(hint, &ContentTypeHint::TEXT)`
%sig
  ensures r == texty(ctqo(*ct), *hint)
%fn OptionalBody::value_as_string
%sub `from_utf8(s)` => `vx_from_utf8(s)`
%closure 0 |s: &str| -> (o: String) ensures o@ == s@
%sig
  ensures r is Some == text_of(bq(*self)) is Some, r matches Some(t) ==> Some(t@) == text_of(bq(*self))
%fn OptionalBody::str_value
%sub `from_utf8(s)` => `vx_from_utf8(s)`
%sig
  ensures r@ == lossy(bq(*self))
%body_start
  proof { reveal_strlit(""); assert(""@ =~= seq![]); }
%fn OptionalBody::display_bytes
%fmt str
%chain
%sub 2 `format!("{:02X}", b)` => `vx_hex2(b)`
%sub 3 `bytes.len()` => `vx_len(bytes)`
%sub `bytes.iter()` => `vx_items(bytes)`
%sub `bytes .slice(0..max_bytes) .iter()` => `vx_head(bytes, max_bytes)`
%sub `String::default()` => `String::new()`
%bty 0 String
%bty 1 String
%loop 0 it
  invariant it.seq().len() == bytes@.len(), forall|i: int| 0 <= i < bytes@.len() ==> *(#[trigger] it.seq()[i]) == bytes@[i], vx_b0@ == hexes(bytes@.take(it.index@ as int))
%loop_start 0
  proof { assert(bytes@.take(it.index@ + 1).drop_last() =~= bytes@.take(it.index@ as int)); }
%after_loop 0
  proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
%loop 1 it
  invariant max_bytes <= bytes@.len(), it.seq().len() == max_bytes, forall|i: int| 0 <= i < max_bytes ==> *(#[trigger] it.seq()[i]) == bytes@[i], vx_b1@ == hexes(bytes@.take(it.index@ as int))
%loop_start 1
  proof { assert(bytes@.take(it.index@ + 1).drop_last() =~= bytes@.take(it.index@ as int)); }
%sig
  ensures r@ == shown(bq(*self), max_bytes as nat)
%fn OptionalBody::display_string
%sub `from_utf8(s)` => `vx_from_utf8(s)`
%sub `String::default()` => `String::new()`
%closure 0 |s: &str| -> (o: String) ensures o@ == s@
%closure 1 |_e: VxError| -> (o: String) ensures o@ == shown(bq(*self), 32)
%sig
  ensures r@ == display(bq(*self))
%fn Display for OptionalBody::fmt
%rename fmt_
%fmt str
%sub `&mut Formatter` => `&mut String`
%sub `std::fmt::Result` => `Result<(), VxError>`
%sub 2 `s.len()` => `vx_len(s)`
%sig
  ensures r is Ok, final(f)@ =~= old(f)@ + summary(bq(*self))
%fn From<String> for OptionalBody::from
%rename from_owned
%sub `s.is_empty()` => `vx_is_empty(s.as_str())`
%sub `Bytes::from(s)` => `vx_bytes(s)`
%sig
  ensures bq(r) == (if s@.len() == 0 { BQ::Empty } else { BQ::Present(utf8(s@), None, None) })
%fn From<&'astr> for OptionalBody::from
%rename from_text
%sub `&'a str` => `&str`
%sub `s.is_empty()` => `vx_is_empty(s)`
%sub `let mut buf = BytesMut::with_capacity(0); buf.extend_from_slice(s.as_bytes());` => ``
%sub `buf.freeze()` => `vx_bytes(s)`
%sig
  ensures bq(r) == (if s@.len() == 0 { BQ::Empty } else { BQ::Present(utf8(s@), None, None) })
%fn From<&Value> for OptionalBody::from
%rename from_value
%sub `Bytes::from(json.to_string())` => `vx_bytes(json.to_string())`
%sub `ContentType::from("application/json;charset=UTF-8")` => `vx_ct_or(ContentType::parse("application/json;charset=UTF-8").ok())`
%sig
  ensures bq(r) == BQ::Present(utf8(jprint(jv(*json))), Some(ct_or(ct_parse("application/json;charset=UTF-8"@))), None)
%src rust/pact_models/src/http_parts.rs
%fn trait HttpPart::detect_content_type
%selfty Part
%sub `from_utf8(body)` => `vx_from_utf8(body)`
%sig
  ensures ctqo(r) == detected(bq(pb(*self)))
%fn trait HttpPart::content_type
%selfty Part
%sig
  ensures ctqo(r) == part_ct(bq(pb(*self)), pl(*self))
%fn trait HttpPart::lookup_header_value
%selfty Part
%chain
%sub `kv.0.to_lowercase() == header_name.to_lowercase()` => `vx_str_eq(vx_lower(kv.0).as_str(), vx_lower(header_name).as_str())`
%sub `kv.1.clone().join(", ")` => `vx_join(kv.1, ", ")`
%closure 1 |kv: (&String, &Vec<String>)| -> (o: String) ensures o@ == joined(strs(kv.1@))
%bty 0 std::option::Option<(&String, &Vec<String>)>
%loop 0 it
  invariant_except_break vx_b0 is None, forall|i: int| 0 <= i < it.index@ ==> lower((#[trigger] it.seq()[i]).0@) != lower(header_name@)
  invariant entries_of(it.seq(), h@)
  ensures vx_b0 is None ==> forall|i: int| 0 <= i < it.seq().len() ==> lower((#[trigger] it.seq()[i]).0@) != lower(header_name@), vx_b0 matches Some(e) ==> lower(e.0@) == lower(header_name@) && exists|i: int| 0 <= i < it.seq().len() && it.seq()[i] == e
%after_loop 0
  proof { if vx_b0 is Some { let e = vx_b0->0; assert(h@.dom().contains(e.0.kv())); assert(hdrs(*h).dom().contains(e.0@)); assert(hdrso(ph(*self)) == Some(hdrs(*h))); assert(has_name(hdrs(*h), header_name@)); assert(hdrs(*h)[e.0@] == strs(e.1@)); } else { assert forall|k: Seq<char>| #[trigger] hdrs(*h).dom().contains(k) implies lower(k) != lower(header_name@) by { assert(h@.dom().contains(k)); } } }
%sig
  ensures looked(hdrso(ph(*self)), header_name@, r)
%fn trait HttpPart::has_header
%selfty Part
%sig
  ensures r == named(hdrso(ph(*self)), header_name@)
%fn trait HttpPart::has_text_body
%selfty Part
%sub `!b.is_empty() && b.is_ascii()` => `!vx_is_empty(b.as_str()) && vx_ascii(&b)`
%closure 0 |b: String| -> (o: bool) ensures o == (b@.len() > 0 && ascii(b@))
%sig
  ensures r == (text_of(bq(pb(*self))) matches Some(t) && t.len() > 0 && ascii(t))
%fn trait HttpPart::add_header
%selfty Part
%chain
%sub `v.to_string()` => `vx_owned(v)`
%bty 0 Vec<String>
%loop 0 it
  invariant it.seq().len() == val@.len(), forall|i: int| 0 <= i < val@.len() ==> *(#[trigger] it.seq()[i]) == val@[i], vx_b0@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> (#[trigger] vx_b0@[i])@ == val@[i]@
%after_loop 0
  proof { assert(strs(vx_b0@) =~= val@.map_values(|s: &str| s@)); }
%before `headers.insert(`
  let ghost h0 = headers@;
%body_end
  proof { assert(hdrs(ph(*self)->0) =~= h0.map_values(|e: (String, Vec<String>)| strs(e.1@)).insert(key@, val@.map_values(|s: &str| s@))); assert(h0.map_values(|e: (String, Vec<String>)| strs(e.1@)) =~= (match hdrso(ph(*old(self))) { Some(m) => m, None => Map::empty() })); }
%sig
  ensures hdrso(ph(*final(self))) == Some((match hdrso(ph(*old(self))) { Some(m) => m, None => Map::empty() }).insert(key@, val@.map_values(|s: &str| s@))), bq(pb(*final(self))) == bq(pb(*old(self)))
%src rust/pact_models/src/request.rs
%fn HttpPart for Request::headers
%rename headers_
%sig
  ensures *r == self.headers
%fn HttpPart for Request::headers_mut
%rename headers_mut_
%sub `hashmap!{}` => `HashMap::new()`
%sig
  ensures r@ == (match old(self).headers { Some(h) => h@, None => Map::empty() }), *final(self) == (Request { headers: Some(*final(r)), ..*old(self) })
%fn HttpPart for Request::lookup_content_type
%rename lookup_content_type_
%sig
  ensures looked(hdrso(self.headers), "content-type"@, r)
%fn HttpPart for Request::body
%rename body_
%sig
  ensures *r == self.body
%fn HttpPart for Request::body_mut
%rename body_mut_
%sig
  ensures *r == old(self).body, *final(self) == (Request { body: *final(r), ..*old(self) })
%fn HttpPart for Request::matching_rules
%rename matching_rules_
%sig
  ensures *r == self.matching_rules
%fn HttpPart for Request::matching_rules_mut
%rename matching_rules_mut_
%sig
  ensures *r == old(self).matching_rules, *final(self) == (Request { matching_rules: *final(r), ..*old(self) })
%fn HttpPart for Request::generators
%rename generators_
%sig
  ensures *r == self.generators
%fn HttpPart for Request::generators_mut
%rename generators_mut_
%sig
  ensures *r == old(self).generators, *final(self) == (Request { generators: *final(r), ..*old(self) })
%src rust/pact_models/src/response.rs
%fn HttpPart for Response::headers
%rename headers_
%sig
  ensures *r == self.headers
%fn HttpPart for Response::headers_mut
%rename headers_mut_
%sub `hashmap!{}` => `HashMap::new()`
%sig
  ensures r@ == (match old(self).headers { Some(h) => h@, None => Map::empty() }), *final(self) == (Response { headers: Some(*final(r)), ..*old(self) })
%fn HttpPart for Response::lookup_content_type
%rename lookup_content_type_
%sig
  ensures looked(hdrso(self.headers), "content-type"@, r)
%fn HttpPart for Response::body
%rename body_
%sig
  ensures *r == self.body
%fn HttpPart for Response::body_mut
%rename body_mut_
%sig
  ensures *r == old(self).body, *final(self) == (Response { body: *final(r), ..*old(self) })
%fn HttpPart for Response::matching_rules
%rename matching_rules_
%sig
  ensures *r == self.matching_rules
%fn HttpPart for Response::matching_rules_mut
%rename matching_rules_mut_
%sig
  ensures *r == old(self).matching_rules, *final(self) == (Response { matching_rules: *final(r), ..*old(self) })
%fn HttpPart for Response::generators
%rename generators_
%sig
  ensures *r == self.generators
%fn HttpPart for Response::generators_mut
%rename generators_mut_
%sig
  ensures *r == old(self).generators, *final(self) == (Response { generators: *final(r), ..*old(self) })
%src rust/pact_models/src/v4/http_parts.rs
%fn HttpPart for HttpRequest::headers
%rename headers_
%sig
  ensures *r == self.headers
%fn HttpPart for HttpRequest::headers_mut
%rename headers_mut_
%sub `hashmap!{}` => `HashMap::new()`
%sig
  ensures r@ == (match old(self).headers { Some(h) => h@, None => Map::empty() }), *final(self) == (HttpRequest { headers: Some(*final(r)), ..*old(self) })
%fn HttpPart for HttpRequest::lookup_content_type
%rename lookup_content_type_
%sig
  ensures looked(hdrso(self.headers), "content-type"@, r)
%fn HttpPart for HttpRequest::body
%rename body_
%sig
  ensures *r == self.body
%fn HttpPart for HttpRequest::body_mut
%rename body_mut_
%sig
  ensures *r == old(self).body, *final(self) == (HttpRequest { body: *final(r), ..*old(self) })
%fn HttpPart for HttpRequest::matching_rules
%rename matching_rules_
%sig
  ensures *r == self.matching_rules
%fn HttpPart for HttpRequest::matching_rules_mut
%rename matching_rules_mut_
%sig
  ensures *r == old(self).matching_rules, *final(self) == (HttpRequest { matching_rules: *final(r), ..*old(self) })
%fn HttpPart for HttpRequest::generators
%rename generators_
%sig
  ensures *r == self.generators
%fn HttpPart for HttpRequest::generators_mut
%rename generators_mut_
%sig
  ensures *r == old(self).generators, *final(self) == (HttpRequest { generators: *final(r), ..*old(self) })
%fn HttpPart for HttpResponse::headers
%rename headers_
%sig
  ensures *r == self.headers
%fn HttpPart for HttpResponse::headers_mut
%rename headers_mut_
%sub `hashmap!{}` => `HashMap::new()`
%sig
  ensures r@ == (match old(self).headers { Some(h) => h@, None => Map::empty() }), *final(self) == (HttpResponse { headers: Some(*final(r)), ..*old(self) })
%fn HttpPart for HttpResponse::lookup_content_type
%rename lookup_content_type_
%sig
  ensures looked(hdrso(self.headers), "content-type"@, r)
%fn HttpPart for HttpResponse::body
%rename body_
%sig
  ensures *r == self.body
%fn HttpPart for HttpResponse::body_mut
%rename body_mut_
%sig
  ensures *r == old(self).body, *final(self) == (HttpResponse { body: *final(r), ..*old(self) })
%fn HttpPart for HttpResponse::matching_rules
%rename matching_rules_
%sig
  ensures *r == self.matching_rules
%fn HttpPart for HttpResponse::matching_rules_mut
%rename matching_rules_mut_
%sig
  ensures *r == old(self).matching_rules, *final(self) == (HttpResponse { matching_rules: *final(r), ..*old(self) })
%fn HttpPart for HttpResponse::generators
%rename generators_
%sig
  ensures *r == self.generators
%fn HttpPart for HttpResponse::generators_mut
%rename generators_mut_
%sig
  ensures *r == old(self).generators, *final(self) == (HttpResponse { generators: *final(r), ..*old(self) })
%src rust/pact_models/src/v4/message_parts.rs
%fn HttpPart for MessageContents::body
%rename body_
%sig
  ensures *r == self.contents
%fn HttpPart for MessageContents::body_mut
%rename body_mut_
%sig
  ensures *r == old(self).contents, *final(self) == (MessageContents { contents: *final(r), ..*old(self) })
%fn HttpPart for MessageContents::matching_rules
%rename matching_rules_
%sig
  ensures *r == self.matching_rules
%fn HttpPart for MessageContents::matching_rules_mut
%rename matching_rules_mut_
%sig
  ensures *r == old(self).matching_rules, *final(self) == (MessageContents { matching_rules: *final(r), ..*old(self) })
%fn HttpPart for MessageContents::generators
%rename generators_
%sig
  ensures *r == self.generators
%fn HttpPart for MessageContents::generators_mut
%rename generators_mut_
%sig
  ensures *r == old(self).generators, *final(self) == (MessageContents { generators: *final(r), ..*old(self) })
%fn HttpPart for MessageContents::lookup_content_type
%rename lookup_content_type_
%chain
%sub `let key = k.to_ascii_lowercase(); key == "contenttype" || key == "content-type"` => `let key = vx_alower(k); vx_str_eq(key.as_str(), "contenttype") || vx_str_eq(key.as_str(), "content-type")`
%bty 0 std::option::Option<(&String, &Value)>
%loop 0 it
  invariant_except_break vx_b0 is None, forall|i: int| 0 <= i < it.index@ ==> !is_meta_ct((#[trigger] it.seq()[i]).0@)
  invariant entries_of(it.seq(), self.metadata@)
  ensures vx_b0 is None ==> forall|i: int| 0 <= i < it.seq().len() ==> !is_meta_ct((#[trigger] it.seq()[i]).0@), vx_b0 matches Some(e) ==> is_meta_ct(e.0@) && exists|i: int| 0 <= i < it.seq().len() && it.seq()[i] == e
%after_loop 0
  proof { let m = self.metadata; if vx_b0 is Some { let e = vx_b0->0; assert(m@.dom().contains(e.0.kv())); assert(meta(m).dom().contains(e.0@)); assert(meta(m)[e.0@] == jv(*e.1)); } else { assert forall|k: Seq<char>| #[trigger] meta(m).dom().contains(k) implies !is_meta_ct(k) by { assert(m@.dom().contains(k)); } } }
%sub `v.get(0)` => `vx_at(v, 0)`
%closure 1 |e: (&String, &Value)| -> (o: String) ensures o@ == jtext(first(jv(*e.1))) ;; let v = e.1;
%sig
  ensures meta_looked(meta(self.metadata), r)
%src rust/pact_models/src/v4/async_message.rs
%fn HttpPart for AsynchronousMessage::body
%rename body_
%sig
  ensures *r == self.contents.contents
%fn HttpPart for AsynchronousMessage::body_mut
%rename body_mut_
%sig
  ensures *r == old(self).contents.contents, *final(self) == (AsynchronousMessage { contents: MessageContents { contents: *final(r), ..old(self).contents }, ..*old(self) })
%fn HttpPart for AsynchronousMessage::matching_rules
%rename matching_rules_
%sig
  ensures *r == self.contents.matching_rules
%fn HttpPart for AsynchronousMessage::matching_rules_mut
%rename matching_rules_mut_
%sig
  ensures *r == old(self).contents.matching_rules, *final(self) == (AsynchronousMessage { contents: MessageContents { matching_rules: *final(r), ..old(self).contents }, ..*old(self) })
%fn HttpPart for AsynchronousMessage::generators
%rename generators_
%sig
  ensures *r == self.contents.generators
%fn HttpPart for AsynchronousMessage::generators_mut
%rename generators_mut_
%sig
  ensures *r == old(self).contents.generators, *final(self) == (AsynchronousMessage { contents: MessageContents { generators: *final(r), ..old(self).contents }, ..*old(self) })
%fn HttpPart for AsynchronousMessage::lookup_content_type
%rename lookup_content_type_
%chain
%sub `let key = k.to_ascii_lowercase(); key == "contenttype" || key == "content-type"` => `let key = vx_alower(k); vx_str_eq(key.as_str(), "contenttype") || vx_str_eq(key.as_str(), "content-type")`
%bty 0 std::option::Option<(&String, &Value)>
%loop 0 it
  invariant_except_break vx_b0 is None, forall|i: int| 0 <= i < it.index@ ==> !is_meta_ct((#[trigger] it.seq()[i]).0@)
  invariant entries_of(it.seq(), self.contents.metadata@)
  ensures vx_b0 is None ==> forall|i: int| 0 <= i < it.seq().len() ==> !is_meta_ct((#[trigger] it.seq()[i]).0@), vx_b0 matches Some(e) ==> is_meta_ct(e.0@) && exists|i: int| 0 <= i < it.seq().len() && it.seq()[i] == e
%after_loop 0
  proof { let m = self.contents.metadata; if vx_b0 is Some { let e = vx_b0->0; assert(m@.dom().contains(e.0.kv())); assert(meta(m).dom().contains(e.0@)); assert(meta(m)[e.0@] == jv(*e.1)); } else { assert forall|k: Seq<char>| #[trigger] meta(m).dom().contains(k) implies !is_meta_ct(k) by { assert(m@.dom().contains(k)); } } }
%sub `v.get(0)` => `vx_at(v, 0)`
%closure 1 |e: (&String, &Value)| -> (o: String) ensures o@ == jtext(first(jv(*e.1))) ;; let v = e.1;
%sig
  ensures meta_looked(meta(self.contents.metadata), r)
%src rust/pact_models/src/message.rs
%fn HttpPart for Message::body
%rename body_
%sig
  ensures *r == self.contents
%fn HttpPart for Message::body_mut
%rename body_mut_
%sig
  ensures *r == old(self).contents, *final(self) == (Message { contents: *final(r), ..*old(self) })
%fn HttpPart for Message::matching_rules
%rename matching_rules_
%sig
  ensures *r == self.matching_rules
%fn HttpPart for Message::matching_rules_mut
%rename matching_rules_mut_
%sig
  ensures *r == old(self).matching_rules, *final(self) == (Message { matching_rules: *final(r), ..*old(self) })
%fn HttpPart for Message::generators
%rename generators_
%sig
  ensures *r == self.generators
%fn HttpPart for Message::generators_mut
%rename generators_mut_
%sig
  ensures *r == old(self).generators, *final(self) == (Message { generators: *final(r), ..*old(self) })
%fn HttpPart for Message::lookup_content_type
%rename lookup_content_type_
%chain
%sub `let key = k.to_ascii_lowercase(); key == "contenttype" || key == "content-type"` => `let key = vx_alower(k); vx_str_eq(key.as_str(), "contenttype") || vx_str_eq(key.as_str(), "content-type")`
%bty 0 std::option::Option<(&String, &Value)>
%loop 0 it
  invariant_except_break vx_b0 is None, forall|i: int| 0 <= i < it.index@ ==> !is_meta_ct((#[trigger] it.seq()[i]).0@)
  invariant entries_of(it.seq(), self.metadata@)
  ensures vx_b0 is None ==> forall|i: int| 0 <= i < it.seq().len() ==> !is_meta_ct((#[trigger] it.seq()[i]).0@), vx_b0 matches Some(e) ==> is_meta_ct(e.0@) && exists|i: int| 0 <= i < it.seq().len() && it.seq()[i] == e
%after_loop 0
  proof { let m = self.metadata; if vx_b0 is Some { let e = vx_b0->0; assert(m@.dom().contains(e.0.kv())); assert(meta(m).dom().contains(e.0@)); assert(meta(m)[e.0@] == jv(*e.1)); } else { assert forall|k: Seq<char>| #[trigger] meta(m).dom().contains(k) implies !is_meta_ct(k) by { assert(m@.dom().contains(k)); } } }
%sub `v.get(0)` => `vx_at(v, 0)`
%closure 1 |e: (&String, &Value)| -> (o: String) ensures o@ == jtext(first(jv(*e.1))) ;; let v = e.1;
%sig
  ensures meta_looked(meta(self.metadata), r)
%fn Message::message_content_type
%chain
%sub `let key = k.to_ascii_lowercase(); key == "contenttype" || key == "content-type"` => `let key = vx_alower(k); vx_str_eq(key.as_str(), "contenttype") || vx_str_eq(key.as_str(), "content-type")`
%bty 0 std::option::Option<(&String, &Value)>
%loop 0 it
  invariant_except_break vx_b0 is None, forall|i: int| 0 <= i < it.index@ ==> !is_meta_ct((#[trigger] it.seq()[i]).0@)
  invariant entries_of(it.seq(), self.metadata@)
  ensures vx_b0 is None ==> forall|i: int| 0 <= i < it.seq().len() ==> !is_meta_ct((#[trigger] it.seq()[i]).0@), vx_b0 matches Some(e) ==> is_meta_ct(e.0@) && exists|i: int| 0 <= i < it.seq().len() && it.seq()[i] == e
%after_loop 0
  proof { let m = self.metadata; if vx_b0 is Some { let e = vx_b0->0; assert(m@.dom().contains(e.0.kv())); assert(meta(m).dom().contains(e.0@)); assert(meta(m)[e.0@] == jv(*e.1)); } else { assert forall|k: Seq<char>| #[trigger] meta(m).dom().contains(k) implies !is_meta_ct(k) by { assert(m@.dom().contains(k)); } } }
%sig
  ensures message_ct(bq(self.contents), meta(self.metadata), ctqo(r))
%fn Message::as_message_content
%sig
  ensures bq(r.contents) == bq(self.contents), meta(r.metadata) =~= meta(self.metadata), r.matching_rules == self.matching_rules, r.generators == self.generators
%fn HttpPart for Message::add_header
%rename add_header_
%chain
%sub `val.first().unwrap().to_string()` => `vx_owned(val.first().unwrap())`
%sub `v.to_string()` => `vx_owned(v)`
%bty 0 Vec<Value>
%loop 0 it
  invariant it.seq().len() == val@.len(), forall|i: int| 0 <= i < val@.len() ==> *(#[trigger] it.seq()[i]) == val@[i], vx_b0@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> jv(#[trigger] vx_b0@[i]) == JV::Str(val@[i]@)
%loop_start 0
  proof { broadcast use axiom_jv; }
%after_loop 0
  proof { assert(jvs(vx_b0@) =~= val@.map_values(|s: &str| JV::Str(s@))); }
%sig
  ensures meta(final(self).metadata) =~= meta(old(self).metadata).insert(key@, meta_value(val@)), bq(final(self).contents) == bq(old(self).contents), final(self).matching_rules == old(self).matching_rules, final(self).generators == old(self).generators
%body_start
  proof { broadcast use axiom_jv; }
