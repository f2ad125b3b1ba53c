%unit bodies
%include std.rs
%include vxmap.rs
%include json_val.rs
%src rust/pact_models/src/content_types.rs
%enum ContentTypeHint
%src rust/pact_models/src/bodies.rs
%enum OptionalBody
%include body_val.rs
%include body_spec.rs
%prelude
verus! {
impl ContentTypeHint { pub fn to_string(&self) -> (r: String) ensures r@ == hint_text(*self) { let mut s = String::new(); let _ = hint_fmt(self, &mut s); proof { assert(Seq::<char>::empty() + hint_text(*self) =~= hint_text(*self)); } s } }
#[verifier::external_body] pub fn vx_hint_eq(a: &ContentTypeHint, b: &ContentTypeHint) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
impl VxToValue for ContentType { uninterp spec fn tv(&self) -> JV; #[verifier::external_body] fn vx_to_value(&self) -> (r: Value) { unimplemented!() } }
#[verifier::external_body] pub fn vx_no_bytes() -> (r: Bytes) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
}
%src rust/pact_models/src/content_types.rs
%fn Display for ContentTypeHint::fmt
%free
%rename hint_fmt
%fmt str
%sub `&self` => `s_: &ContentTypeHint`
%sub `match self` => `match s_`
%sub `&mut Formatter<'_>` => `&mut String`
%sub `std::fmt::Result` => `Result<(), VxError>`
%sig
  ensures r is Ok, final(f)@ == old(f)@ + hint_text(*s_)
%fn TryFrom<&str> for ContentTypeHint::try_from
%free
%rename hint_try_from
%sub `match value` => `match vx_lit(value)`
%sub `Result<Self, Self::Error>` => `Result<ContentTypeHint, VxError>`
%sig
  ensures r is Ok == hint_of(value@) is Some, r is Ok ==> Some(r->Ok_0) == hint_of(value@)
%src rust/pact_models/src/bodies.rs
%fn OptionalBody::is_present
%sig
  ensures r == (bq(*self) is Present)
%fn OptionalBody::value
%sig
  ensures r is Some == (bq(*self) is Present), r matches Some(x) ==> x@ == bq(*self)->Present_0
%fn OptionalBody::has_content_type
%sig
  ensures r == (bq(*self) matches BQ::Present(_, Some(_), _))
%fn OptionalBody::content_type
%sig
  ensures ctqo(r) == (match bq(*self) { BQ::Present(_, c, _) => c, _ => None })
%fn OptionalBody::with_content_type
%sig
  ensures bq(r) == (match bq(*self) { BQ::Present(x, _, h) => BQ::Present(x, ctqo(content_type), h), b => b })
%fn OptionalBody::with_content_type_if_not_set
%sig
  ensures bq(r) == set_ct(bq(*self), ctqo(content_type))
%fn OptionalBody::set_content_type
%sig
  ensures bq(*final(self)) == (match bq(*old(self)) { BQ::Present(x, _, h) => BQ::Present(x, Some(ctq(*content_type)), h), b => b })
%fn OptionalBody::to_v4_json
%sub `content_type.as_ref().cloned().unwrap_or_default()` => `vx_ct_or(content_type.clone())`
%sub `ct_override.unwrap_or_default()` => `(match ct_override { Some(vx_v) => *vx_v, None => ContentTypeHint::DEFAULT })`
%sub `serde_json::from_slice(bytes)` => `vx_from_slice(bytes)`
%sub 3 `BASE64.encode(bytes)` => `vx_b64_encode(bytes)`
%sub `from_utf8(bytes)` => `vx_from_utf8(bytes)`
%sub `content_type_override == ContentTypeHint::BINARY` => `vx_hint_eq(&content_type_override, &ContentTypeHint::BINARY)`
%sig
  ensures jv(r) == v4j(bq(*self))
%body_start
  proof { broadcast use axiom_jv; }
%src rust/pact_models/src/json_utils.rs
%fn json_to_string
%sig
  ensures r@ == jtext(jv(*value))
%body_start
  proof { broadcast use axiom_jv; }
%src rust/pact_models/src/v4/http_parts.rs
%fn body_from_json
%opt
%sub 5 `json_to_string(body_contents).into()` => `vx_into_vec(json_to_string(body_contents))`
%sub `BASE64.decode(json_to_string(body_contents))` => `vx_b64_decode(json_to_string(body_contents).as_str())`
%sub 2 `body_contents.to_string().into()` => `vx_into_vec(body_contents.to_string())`
%sub `ContentTypeHint::try_from(` => `hint_try_from(`
%sub `detect_content_type_from_bytes(&body_bytes).unwrap_or_default()` => `vx_ct_or(detect_content_type_from_bytes(&body_bytes))`
%sub `let mut buf = BytesMut::new(); buf.extend_from_slice(&*body_bytes);` => ``
%sub `buf.freeze()` => `vx_bytes_of(&body_bytes)`
%sub `OptionalBody::Present(body.to_string().into(), None, None)` => `OptionalBody::Present(vx_bytes(body.to_string()), None, None)`
%sub `match encoding.as_str()` => `match vx_lit(encoding.as_str())`
%sub `s.to_lowercase()` => `vx_lower(s)`
%sub 2 `Default::default()` => `String::new()`
%closure 0 |val: &Value| -> (o: ContentTypeHint) ensures o == (match jv(*val) { JV::Str(s) => match hint_of(s) { Some(h) => h, None => ContentTypeHint::DEFAULT }, _ => ContentTypeHint::DEFAULT }) ;; broadcast use axiom_jv;
%sig
  ensures one_ct(hdrso(*headers)) ==> bq(r) == v4b(jv(*json), attr_name@, hdrso(*headers))
%body_start
  proof { broadcast use axiom_jv; broadcast use axiom_jprint; broadcast use axiom_utf8; reveal_strlit("base64"); reveal_strlit("json"); assert("base64"@.len() == 6); }
%fn content_type_from_json
%attr #[verifier::loop_isolation(false)]
%chain
%sub `body_attrs: &Map<String, Value>` => `body_attrs: &JMap`
%sub `kv.0.to_lowercase() == "content-type"` => `vx_str_eq(vx_lower(kv.0).as_str(), "content-type")`
%sub `&*content_type_str` => `content_type_str.as_str()`
%sig
  ensures one_ct(hdrso(*headers)) ==> ctqo(r) == ct_attr(hdrso(*headers), jm(*body_attrs))
%body_start
  proof { broadcast use axiom_jv; }
%bty 0 std::option::Option<(&String, &Vec<String>)>
%loop 0 it
  invariant_except_break entries_of(it.seq(), h@), vx_b0 is None, forall|i: int| 0 <= i < it.index@ ==> !is_ct((#[trigger] it.seq()[i]).0@)
  invariant entries_of(it.seq(), h@)
  ensures vx_b0 is None ==> forall|i: int| 0 <= i < it.seq().len() ==> !is_ct((#[trigger] it.seq()[i]).0@), vx_b0 matches Some(e) ==> is_ct(e.0@) && exists|i: int| 0 <= i < it.seq().len() && it.seq()[i] == e
%after_loop 0
  proof { if vx_b0 is Some { let e = vx_b0->0; assert(h@.dom().contains(e.0.kv())); lemma_head_ct(hdrs(*h), e.0@); assert(hdrs(*h)[e.0@] == strs(e.1@)); } else { assert forall|k: Seq<char>| #[trigger] hdrs(*h).dom().contains(k) implies !is_ct(k) by { assert(h@.dom().contains(k)); } } }
%src rust/pact_models/src/v4/mod.rs
%fn calc_content_type
%attr #[verifier::loop_isolation(false)]
%chain
%opt
%sub `kv.0.to_lowercase() == "content-type"` => `vx_str_eq(vx_lower(kv.0).as_str(), "content-type")`
%sub `headers.as_ref().map(|h| {` => `(match headers.as_ref() { Some(h) => {`
%sub `}).flatten()` => `}, None => None })`
%sub `&*body.value().unwrap_or_default()` => `&(match body.value() { Some(vx_v) => vx_v, None => vx_no_bytes() })`
%closure 4 |v: &String| -> (o: Option<ContentType>) ensures ctqo(o) == ct_parse(v@)
%sig
  ensures one_ct(hdrso(*headers)) ==> ctqo(r) == calc(bq(*body), hdrso(*headers))
%body_start
  proof { broadcast use axiom_jv; }
%bty 0 std::option::Option<(&String, &Vec<String>)>
%loop 0 it
  invariant_except_break entries_of(it.seq(), h@), vx_b0 is None, forall|i: int| 0 <= i < it.index@ ==> !is_ct((#[trigger] it.seq()[i]).0@)
  invariant entries_of(it.seq(), h@)
  ensures vx_b0 is None ==> forall|i: int| 0 <= i < it.seq().len() ==> !is_ct((#[trigger] it.seq()[i]).0@), vx_b0 matches Some(e) ==> is_ct(e.0@) && exists|i: int| 0 <= i < it.seq().len() && it.seq()[i] == e
%after_loop 0
  proof { if vx_b0 is Some { let e = vx_b0->0; assert(h@.dom().contains(e.0.kv())); lemma_head_ct(hdrs(*h), e.0@); assert(hdrs(*h)[e.0@] == strs(e.1@)); } else { assert forall|k: Seq<char>| #[trigger] hdrs(*h).dom().contains(k) implies !is_ct(k) by { assert(h@.dom().contains(k)); } } }
