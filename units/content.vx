%unit content
%include std.rs
%include str_find.rs
%src rust/pact_models/src/content_types.rs
%struct ContentType
%sub `BTreeMap<String, String>` => `Attrs`
%include content_spec.rs
%const KNOWN_TEXT_TYPES
%prelude
verus! {
impl Clone for ContentType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
}
%fn Default for ContentType::default
%rename ct_default
%sub 2 `"*".into()` => `"*".to_string()`
%sub `BTreeMap::new()` => `vx_no_attrs()`
%sig
  ensures cv(r) == plain("*"@, "*"@)
%tail_after
  proof { assert(Pairs::empty() =~= seq![]); }
%fn From<&Mime> for ContentType::from
%rename ct_from_mime
%sub `mime.params().map(|(key, value)| (key.to_string(), value.to_string())).collect()` => `vx_params(mime)`
%sub `.. ContentType::default()` => ``
%closure 1 |name: Name| -> (o: String) ensures o@ == name.v()
%sig
  ensures cv(r) == mv(*mime)
%fn From<Mime> for ContentType::from
%rename ct_from_mime_value
%sub `Self::from(&mime)` => `ContentType::ct_from_mime(&mime)`
%sig
  ensures cv(r) == mv(mime)
%fn ContentType::parse
%sub `<'a, S: Into<&'a str>>(content_type: S)` => `(content_type: &str)`
%sub `let content_type = content_type.into();` => ``
%sub `ContentType::from(mime)` => `ContentType::ct_from_mime_value(mime)`
%sig
  ensures r is Ok == mime_of(content_type@) is Some, r is Ok ==> cv(r->Ok_0) == mime_of(content_type@)->0
%fn From<String> for ContentType::from
%rename from_owned
%sub `ContentType::parse(s.as_str()).unwrap_or_default()` => `vx_or_any(ContentType::parse(s.as_str()))`
%sig
  ensures cv(r) == ct_or(mime_of(s@))
%fn From<&String> for ContentType::from
%rename from_string
%sub `ContentType::parse(s.as_str()).unwrap_or_default()` => `vx_or_any(ContentType::parse(s.as_str()))`
%sig
  ensures cv(r) == ct_or(mime_of(s@))
%fn From<&str> for ContentType::from
%rename from_text
%sub `ContentType::parse(s).unwrap_or_default()` => `vx_or_any(ContentType::parse(s))`
%sig
  ensures cv(r) == ct_or(mime_of(s@))
%fn FromStr for ContentType::from_str
%rename from_str_
%sub `Result<Self, Self::Err>` => `Result<Self, VxError>`
%sig
  ensures r is Ok == mime_of(s@) is Some, r is Ok ==> cv(r->Ok_0) == mime_of(s@)->0
%fn PartialEq<str> for ContentType::eq
%rename eq_text
%eq
%sig
  ensures r == (mime_of(other@) == Some(cv(*self)))
%fn PartialEq<&str> for ContentType::eq
%rename eq_text_ref
%eq
%sig
  ensures r == (mime_of((*other)@) == Some(cv(*self)))
%fn ContentType::is_json
%eq
%sub `self.sub_type.starts_with("json")` => `vx_starts(&self.sub_type, "json")`
%sub `self.suffix.as_ref().unwrap_or(&String::default()) == "json"` => `vx_suffix(&self.suffix, "json")`
%sig
  ensures r == json_type(cv(*self))
%body_start
  proof { reveal_strlit("json"); }
%fn ContentType::is_xml
%eq
%sub `self.suffix.as_ref().unwrap_or(&String::default()) == "xml"` => `vx_suffix(&self.suffix, "xml")`
%sig
  ensures r == xml_type(cv(*self))
%body_start
  proof { reveal_strlit("xml"); }
%fn ContentType::is_strict_xml
%eq
%sig
  ensures r == strict_xml(cv(*self))
%fn ContentType::is_known_text_type
%chain
%eq
%sig
  ensures r == form_type(cv(*self))
%body_start
  let ghost kt = KNOWN_TEXT_TYPES@;
  proof { assert(kt.len() == 1 && listed(cv(*self), kt[0]) == form_type(cv(*self))); }
%sub `KNOWN_TEXT_TYPES.iter()` => `vx_all(&KNOWN_TEXT_TYPES)`
%bty 0 std::option::Option<&(&'static str, &'static str)>
%loop 0 it
  invariant_except_break vx_b0 is None, forall|i: int| 0 <= i < it.index@ ==> !listed(cv(*self), #[trigger] kt[i])
  invariant kt == KNOWN_TEXT_TYPES@, it.seq().len() == kt.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == kt[i]
  ensures (vx_b0 is Some) == listed_in(cv(*self), kt)
%loop_start 0
  proof { assert(*(it.seq()[it.index@ as int]) == kt[it.index@ as int]); }
%after_loop 0
  proof { assert(listed_in(cv(*self), kt) == listed(cv(*self), kt[0])) by { if listed(cv(*self), kt[0]) {} } }
%fn ContentType::is_text
%eq
%sig
  ensures r == text_type(cv(*self))
%fn ContentType::is_binary
%sub `match self.main_type.as_str()` => `match vx_lit(self.main_type.as_str())`
%body_start
proof { lemma_lits(); }
%sig
  ensures r == (media(cv(*self)) || !text_type(cv(*self)))
%fn ContentType::base_type
%sub 2 `.. ContentType::default()` => `attributes: vx_no_attrs(), suffix: None`
%sig
  ensures cv(r) == base_of(cv(*self))
%fn ContentType::is_unknown
%eq
%sig
  ensures r == unknown(cv(*self))
%fn ContentType::is_equivalent_to
%eq
%sig
  ensures r == same_type(cv(*self), cv(*other))
%fn ContentType::is_form_urlencoded
%eq
%sig
  ensures r == form_type(cv(*self))
%fn is_token
%chain
%attr #[verifier::loop_isolation(false)]
%sub `value.chars()` => `vx_chars(value)`
%sig
  ensures r == token(value@)
%loop 0 it
  invariant_except_break vx_b0, forall|i: int| 0 <= i < it.index@ ==> token_char(#[trigger] value@[i])
  invariant it.seq() == value@
  ensures vx_b0 == token(value@)
%fn Display for ContentType::fmt
%rename ct_fmt
%fmt exact
%chain
%sub `&mut Formatter<'_>` => `&mut String`
%sub `std::fmt::Result` => `Result<(), VxError>`
%sig
  ensures r is Ok, final(f)@ == old(f)@ + ct_text(cv(*self))
%body_start
  let ghost at = self.attributes@;
%bty 0 Vec<String>
%loop 0 it
  invariant pv(it.seq()) == at, at == self.attributes@, vx_b0@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> (#[trigger] vx_b0@[i])@ == attr_text(at[i])
%loop_start 0
  proof { assert(pv(it.seq())[it.index@ as int] == at[it.index@ as int]); }
%after_loop 0
  proof { reveal_strlit(";"); assert(";"@ =~= seq![';']); assert(vx_b0@.map_values(|x: String| x.disp()) =~= attr_texts(at)); }
%tail_after
  proof { assert(final_text(f@, old(f)@, cv(*self))); }
%fn is_match
%eq
%sig
  ensures r == begins(rx(*regex), string@)
%fn detect_content_type_from_string
%sub `is_match(&XMLREGEXP, s)` => `is_match(&vx_rx_xml(), s)`
%sub `&HTMLREGEXP` => `&vx_rx_html()`
%sub `&XMLREGEXP2` => `&vx_rx_tag()`
%sub `&JSONREGEXP` => `&vx_rx_json()`
%sub `s.to_uppercase().as_str()` => `vx_upper(s).as_str()`
%sub 2 `XML.clone()` => `vx_xml()`
%sub `HTML.clone()` => `vx_html()`
%sub `JSON.clone()` => `vx_json()`
%sub `TEXT.clone()` => `vx_text()`
%sig
  ensures cvo(r) == Some(looks(s@))
%fn detect_content_type_from_bytes
%sub `is_match(&XMLREGEXP, s)` => `is_match(&vx_rx_xml(), s)`
%sub `&HTMLREGEXP` => `&vx_rx_html()`
%sub `&XMLREGEXP2` => `&vx_rx_tag()`
%sub `&JSONREGEXP` => `&vx_rx_json()`
%sub `&*s.to_uppercase()` => `vx_upper(s).as_str()`
%sub 2 `XML.clone()` => `vx_xml()`
%sub `HTML.clone()` => `vx_html()`
%sub `JSON.clone()` => `vx_json()`
%sub `TEXT.clone()` => `vx_text()`
%sub `&s[0..32]` => `vx_first(s, 32)`
%sub `&header[..err.valid_up_to()]` => `vx_first(header, err.valid_up_to())`
%body_start
broadcast use axiom_valid;
%sig
  ensures cvo(r) == (match head_text(s@) { Some(t) => Some(looks(t)), None => None })
