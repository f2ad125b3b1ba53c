// ---- bodies as they are written and read: the V4 form ----
verus! {
pub open spec fn hint_text(h: ContentTypeHint) -> Seq<char> { match h { ContentTypeHint::BINARY => "BINARY"@, ContentTypeHint::TEXT => "TEXT"@, ContentTypeHint::DEFAULT => "DEFAULT"@ } }
pub open spec fn hint_of(s: Seq<char>) -> Option<ContentTypeHint> { if s == "BINARY"@ { Some(ContentTypeHint::BINARY) } else if s == "TEXT"@ { Some(ContentTypeHint::TEXT) } else if s == "DEFAULT"@ { Some(ContentTypeHint::DEFAULT) } else { None } }
pub proof fn theorem_hint(h: ContentTypeHint) ensures hint_of(hint_text(h)) == Some(h) { reveal_strlit("BINARY"); reveal_strlit("TEXT"); reveal_strlit("DEFAULT"); assert("BINARY"@.len() == 6 && "TEXT"@.len() == 4 && "DEFAULT"@.len() == 7); }
// ---- the V4 form of a body ----
pub open spec fn jstr(s: Seq<char>) -> JV { JV::Str(s) }
/// the contents as they are written, and how they are encoded
pub open spec fn v4_content(x: Seq<u8>, ct: CT, h: Option<ContentTypeHint>) -> (JV, JV) {
  let enc = (JV::Str(b64(x)), JV::Str("base64"@));
  if ct_json(ct) { match jparse(x) { Some(v) => (v, JV::Bool(false)), None => enc } }
  else if h == Some(ContentTypeHint::BINARY) || ct_binary(ct) { enc }
  else { match unutf8(x) { Some(s) => (JV::Str(s), JV::Bool(false)), None => enc } } }
pub open spec fn v4_obj(x: Seq<u8>, c: Option<CT>, h: Option<ContentTypeHint>) -> JO {
  let ct = ct_or(c); let (v, e) = v4_content(x, ct, h);
  let m = Map::<Seq<char>, JV>::empty().insert("content"@, v).insert("contentType"@, JV::Str(ct_print(ct)));
  (match h { Some(h) => m.insert("contentTypeHint"@, JV::Str(hint_text(h))), None => m }).insert("encoded"@, e) }
pub open spec fn v4j(b: BQ) -> JV { match b { BQ::Present(x, c, h) => JV::Obj(v4_obj(x, c, h)), BQ::Empty => JV::Obj(Map::<Seq<char>, JV>::empty().insert("content"@, JV::Str(""@))), _ => JV::Null } }
/// whether the contents are encoded, and how
pub open spec fn enc_of(m: JO) -> (bool, Seq<char>) { if m.dom().contains("encoded"@) { match m["encoded"@] { JV::Str(s) => (true, lower(s)), JV::Bool(b) => (b, seq![]), v => (true, jprint(v)) } } else { (false, seq![]) } }
pub open spec fn raw(v: JV) -> Seq<u8> { utf8(jtext(v)) }
pub open spec fn v4_bytes(v: JV, e: (bool, Seq<char>), ct: Option<CT>) -> Seq<u8> {
  if e.0 { if e.1 == "base64"@ { match unb64(jtext(v)) { Some(b) => b, None => raw(v) } } else { raw(v) } }
  else if ct is Some && ct_json(ct->0) { if v matches JV::Str(s) && s.len() == 0 { seq![] } else { utf8(jprint(v)) } }
  else { raw(v) } }
pub open spec fn ct_attr(h: HM, m: JO) -> Option<CT> { if m.dom().contains("contentType"@) { ct_parse(jtext(m["contentType"@])) } else { head_ct(h) } }
pub open spec fn hint_attr(m: JO) -> Option<ContentTypeHint> { if m.dom().contains("contentTypeHint"@) { Some(match m["contentTypeHint"@] { JV::Str(s) => match hint_of(s) { Some(h) => h, None => ContentTypeHint::DEFAULT }, _ => ContentTypeHint::DEFAULT }) } else { None } }
/// the body a V4 fragment is read as
pub open spec fn v4b_obj(m: JO, h: HM) -> BQ { if m.dom().contains("content"@) { if m["content"@] is Null { BQ::Null } else { let ct = ct_attr(h, m); let x = v4_bytes(m["content"@], enc_of(m), ct); if x.len() == 0 { BQ::Empty } else { BQ::Present(x, Some(match ct { Some(c) => c, None => ct_or(ct_of_bytes(x)) }), hint_attr(m)) } } } else { BQ::Missing } }
pub open spec fn v4b(j: JV, n: Seq<char>, h: HM) -> BQ { match j { JV::Obj(o) => if o.dom().contains(n) { match o[n] { JV::Obj(m) => v4b_obj(m, h), JV::Null => BQ::Null, v => BQ::Present(utf8(jprint(v)), None, None) } } else { BQ::Missing }, _ => BQ::Missing } }
/// a body that V4 JSON can tell apart: not empty, no JSON null or empty text, a content type that reads back from its text
pub open spec fn v4_ok(b: BQ) -> bool { match b { BQ::Present(x, c, h) => x.len() > 0 && c is Some && ct_parse(ct_print(c->0)) == Some(c->0) && (ct_json(c->0) ==> jparse(x) != Some(JV::Null) && jparse(x) != Some(JV::Str(seq![]))), BQ::Null => false, _ => true } }
/// the body after it was written and read: JSON is printed again, anything else is the same bytes
pub open spec fn reprinted(b: BQ) -> BQ { match b { BQ::Present(x, c, h) => if ct_json(c->0) { match jparse(x) { Some(v) => BQ::Present(utf8(jprint(v)), c, h), None => b } } else { b }, _ => b } }
/// the JSON object o holds what to_json writes for b at n (nothing when that is not an object)
pub open spec fn holds(o: JO, n: Seq<char>, b: BQ) -> bool { match v4j(b) { JV::Obj(m) => o.dom().contains(n) && o[n] == JV::Obj(m), _ => !o.dom().contains(n) } }
pub proof fn theorem_v4_body(o: JO, n: Seq<char>, b: BQ, h: HM) requires v4_ok(b), holds(o, n, b) ensures v4b(JV::Obj(o), n, h) == reprinted(b) {
  broadcast use axiom_utf8; broadcast use axiom_unutf8; broadcast use axiom_b64; broadcast use axiom_b64_empty; broadcast use axiom_jprint; broadcast use axiom_lower_base64;
  reveal_strlit("content"); reveal_strlit("contentType"); reveal_strlit("contentTypeHint"); reveal_strlit("encoded"); reveal_strlit("base64"); reveal_strlit("");
  assert("content"@.len() == 7 && "contentType"@.len() == 11 && "contentTypeHint"@.len() == 15 && "encoded"@.len() == 7 && "content"@[0] == 'c' && "encoded"@[0] == 'e');
  match b { BQ::Present(x, c, hh) => { let m = v4_obj(x, c, hh); let (v, e) = v4_content(x, c->0, hh);
      assert(m["content"@] == v); assert(m["encoded"@] == e); assert(m["contentType"@] == JV::Str(ct_print(c->0)));
      if hh is Some { theorem_hint(hh->0); assert(m["contentTypeHint"@] == JV::Str(hint_text(hh->0))); } else { assert(!m.dom().contains("contentTypeHint"@)); }
      assert(!(v is Null)); assert(hint_attr(m) == hh); assert(ct_attr(h, m) == c);
      if let JV::Str(t) = v { if t.len() == 0 { assert(t =~= seq![]); assert(b64(x).len() > 0); } } }
    BQ::Empty => { assert(""@ =~= seq![]); assert(v4j(b)->Obj_0["content"@] == JV::Str(""@)); assert(utf8(seq![]).len() == 0); }
    _ => {} }
}
pub broadcast axiom fn axiom_lower_base64() ensures #[trigger] lower("base64"@) == "base64"@;
pub open spec fn calc(b: BQ, h: HM) -> Option<CT> { match b { BQ::Present(x, Some(c), _) => Some(c), BQ::Present(x, None, _) => match head_ct(h) { Some(c) => Some(c), None => ct_of_bytes(x) }, _ => head_ct(h) } }
pub open spec fn set_ct(b: BQ, c: Option<CT>) -> BQ { match b { BQ::Present(x, Some(d), h) => b, BQ::Present(x, None, h) => BQ::Present(x, c, h), _ => b } }
}
