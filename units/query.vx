%unit query
%include std.rs
%include vxmap.rs
%src rust/pact_models/src/query_strings.rs
%prelude
use vstd::utf8::*;
verus! {
// ---- str::Chars: the characters still to come ----
#[verifier::external_body] pub struct VxChars<'a> { _p: &'a str }
impl<'a> View for VxChars<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body] pub fn vx_chars<'a>(s: &'a str) -> (r: VxChars<'a>) ensures r@ == s@ { unimplemented!() }
impl<'a> VxChars<'a> {
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<char>)
    ensures r is Some == (old(self)@.len() > 0), r matches Some(c) ==> c == old(self)@[0] && final(self)@ == old(self)@.drop_first(), r is None ==> final(self)@ == old(self)@ { unimplemented!() }
}
// ---- hexadecimal ----
pub open spec fn hexv(c: char) -> Option<u8> { if '0' <= c && c <= '9' { Some((c as u8 - 48) as u8) } else if 'a' <= c && c <= 'f' { Some((c as u8 - 87) as u8) } else if 'A' <= c && c <= 'F' { Some((c as u8 - 55) as u8) } else { None } }
pub open spec fn hexd(n: u8) -> char { if n < 10 { (48 + n) as u8 as char } else { (87 + n) as u8 as char } }
/// hex::FromHex for a text of two characters
#[verifier::external_body]
pub fn vx_from_hex(s: String) -> (r: Result<Vec<u8>, VxError>)
  requires s@.len() == 2
  ensures r is Ok == (hexv(s@[0]) is Some && hexv(s@[1]) is Some), r matches Ok(v) ==> v@ == seq![((hexv(s@[0])->0) * 16 + (hexv(s@[1])->0)) as u8] { unimplemented!() }
#[verifier::external_body] pub fn vx_char_bytes(c: char) -> (r: Vec<u8>) ensures r@ == encode_utf8(seq![c]) { unimplemented!() }
#[verifier::external_body] pub fn vx_from_utf8<'a>(b: &'a Vec<u8>) -> (r: Result<&'a str, VxError>) ensures r is Ok == valid_utf8(b@), r matches Ok(s) ==> s@ == decode_utf8(b@) { unimplemented!() }
/// format!("%{:02x}", b) for each byte of an ASCII character
#[verifier::external_body] pub fn vx_pct(c: char) -> (r: String) ensures (c as u32) < 128 ==> r@ == pct(c) { unimplemented!() }
pub open spec fn pct(c: char) -> Seq<char> { seq!['%', hexd((c as u8 / 16) as u8), hexd((c as u8 % 16) as u8)] }
/// what a text decodes to, in bytes
pub open spec fn dq(s: Seq<char>) -> Seq<u8> decreases s.len() {
  if s.len() == 0 { seq![] }
  else if s[0] == '%' {
    if s.len() >= 3 { (if hexv(s[1]) is Some && hexv(s[2]) is Some { seq![((hexv(s[1])->0) * 16 + (hexv(s[2])->0)) as u8] } else { encode_utf8(seq!['%', s[1], s[2]]) }) + dq(s.skip(3)) }
    else { encode_utf8(s) } }
  else if s[0] == '+' { seq![32u8] + dq(s.skip(1)) }
  else { encode_utf8(seq![s[0]]) + dq(s.skip(1)) }
}
pub open spec fn plain(c: char) -> bool { c == '-' || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') }
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
pub open spec fn ec(c: char) -> Seq<char> { if c == ' ' { seq!['+'] } else if plain(c) { seq![c] } else { pct(c) } }
pub open spec fn eq(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { seq![] } else { eq(s.drop_last()) + ec(s.last()) } }
pub proof fn lemma_u1(c: char) requires (c as u32) < 128 ensures encode_utf8(seq![c]) == seq![c as u8] { broadcast use group_utf8_lib; assert(is_ascii_chars(seq![c])); assert(encode_utf8(seq![c]) =~= seq![c as u8]); }
pub proof fn lemma_u0() ensures encode_utf8(seq![]) == Seq::<u8>::empty() { reveal_with_fuel(encode_utf8, 2); assert(encode_utf8(seq![]) =~= Seq::<u8>::empty()); }
pub proof fn lemma_u2(a: char, b: char) ensures encode_utf8(seq![a, b]) == encode_utf8(seq![a]) + encode_utf8(seq![b]) { encode_utf8_concat(seq![a], seq![b]); assert(seq![a] + seq![b] =~= seq![a, b]); }
pub proof fn lemma_u3(a: char, b: char, c: char) ensures encode_utf8(seq![a, b, c]) == encode_utf8(seq![a]) + encode_utf8(seq![b]) + encode_utf8(seq![c]) { lemma_u2(a, b); encode_utf8_concat(seq![a, b], seq![c]); assert(seq![a, b] + seq![c] =~= seq![a, b, c]); }
}
%fn decode_query
%sub `query.chars()` => `vx_chars(query)`
%sub `FromHex::from_hex(s.into_bytes())` => `vx_from_hex(s)`
%sub 2 `v1.to_string().as_bytes()` => `&vx_char_bytes(v1)`
%sub `v2.to_string().as_bytes()` => `&vx_char_bytes(v2)`
%sub `c.to_string().as_bytes()` => `&vx_char_bytes(c)`
%sub `from_utf8(&buffer)` => `vx_from_utf8(&buffer)`
%sig
  ensures r is Ok == valid_utf8(dq(query@)), r matches Ok(s) ==> s@ == decode_utf8(dq(query@))
%loop 0
  invariant buffer@ + (if ch is Some { dq(seq![ch->0] + chars@) } else { seq![] }) == dq(query@), ch is None ==> chars@.len() == 0
  decreases chars@.len() + (if ch is Some { 1int } else { 0int })
%loop_start 0
  let ghost t = seq![ch->0] + chars@; let ghost b0 = buffer@;
  proof { lemma_u1('%'); lemma_u1('+'); if t.len() >= 2 { assert(t.skip(1) =~= chars@); lemma_u2(t[0], t[1]); assert(t.len() == 2 ==> t =~= seq![t[0], t[1]]); } if t.len() >= 3 { lemma_u3('%', t[1], t[2]); } assert(t.len() == 1 ==> t =~= seq![t[0]] && t.skip(1) =~= seq![]); }
%loop_end 0
  proof {
    let n = if t[0] != '%' { 1int } else if t.len() >= 3 { 3 } else { t.len() as int };
    let rest = if ch is Some { seq![ch->0] + chars@ } else { seq![] };
    assert(rest =~= t.skip(n));
    assert(buffer@ + dq(rest) =~= b0 + dq(t)); assert(dq(seq![]) =~= seq![]);
  }
%before `while ch.is_some()`
  proof { if query@.len() > 0 { assert(seq![ch->0] + chars@ =~= query@); } assert(seq![] + dq(query@) =~= dq(query@)); }
%prelude
verus! {
impl VxCollect<String> for String { open spec fn added(&self, x: String, r: Self) -> bool { r@ == self@ + x@ } open spec fn is_new(&self) -> bool { self@.len() == 0 }
  #[verifier::external_body] fn vx_new() -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vx_add(&mut self, x: String) { unimplemented!() } }
impl<'a> Iterator for VxChars<'a> { type Item = char; #[verifier::external_body] fn next(&mut self) -> Option<char> { unimplemented!() } }
#[verifier::external_body] pub fn vx_char_vec(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
}
%fn encode_query
%chain
%sub `query.chars()` => `vx_char_vec(query)`
%sub 4 `ch.to_string()` => `ch.vx_disp()`
%sub `{ // The bytes of the code point, without any leading zero bytes let bytes = (ch as u32).to_be_bytes(); let start = bytes.iter().position(|b| *b != 0).unwrap_or(3); bytes[start..].iter().map(|b| format!("%{:02x}", b)).collect() }` => `vx_pct(ch)`
%bty 0 String
%sig
  ensures ascii(query@) ==> r@ == eq(query@)
%loop 0 it
  invariant it.seq() == query@, ascii(query@) ==> vx_b0@ == eq(query@.take(it.index@ as int))
%loop_start 0
  let ghost n = it.index@ as int;
  proof { reveal_strlit("+"); assert("+"@ =~= seq!['+']); assert(query@.take(n + 1).drop_last() =~= query@.take(n)); }
%after_loop 0
  proof { assert(query@.take(query@.len() as int) =~= query@); }
%loop 1
%fn encode_name
%chain
%sub `name.chars()` => `vx_char_vec(name)`
%sub `encode_query(&ch.to_string())` => `encode_query(&ch.vx_disp())`
%sub `_ => ch.to_string()` => `_ => ch.vx_disp()`
%bty 0 String
%sig
  ensures r@ == en(name@)
%loop 0 it
  invariant it.seq() == name@, vx_b0@ == en(name@.take(it.index@ as int))
%loop_start 0
  let ghost n = it.index@ as int;
  proof { assert(name@.take(n + 1).drop_last() =~= name@.take(n)); lemma_eq1(name@[n]); assert(ascii(seq![name@[n]]) == ((name@[n] as u32) < 128)); }
%after_loop 0
  proof { assert(name@.take(name@.len() as int) =~= name@); }
%prelude
verus! {
pub open spec fn structural(c: char) -> bool { c == '%' || c == '&' || c == '=' || c == '+' || c == ' ' }
pub open spec fn enc1(c: char) -> Seq<char> { if structural(c) { ec(c) } else { seq![c] } }
/// the text a name is written as
pub open spec fn en(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { seq![] } else { en(s.drop_last()) + enc1(s.last()) } }
pub proof fn lemma_eq1(c: char) ensures eq(seq![c]) == ec(c) { reveal_with_fuel(eq, 3); assert(seq![c].drop_last() =~= seq![]); assert(eq(seq![c]) =~= ec(c)); }
pub proof fn lemma_hex(n: u8) requires n < 16 ensures hexv(hexd(n)) == Some(n), plain(hexd(n)), (hexd(n) as u32) < 128 {
  if n < 10 { let b = (48 + n) as u8; assert(b as char as u32 == b as u32); } else { let b = (87 + n) as u8; assert(b as char as u32 == b as u32); } }
/// decoding goes piece by piece: what a character is written as decodes to that character
pub proof fn lemma_dq_enc(c: char, rest: Seq<char>) requires (c as u32) < 128 ensures dq(ec(c) + rest) == seq![c as u8] + dq(rest) {
  let t = ec(c) + rest; lemma_u1(c);
  if c == ' ' { assert(t.skip(1) =~= rest); }
  else if plain(c) { assert(t.skip(1) =~= rest); assert(t[0] == c); }
  else { lemma_hex((c as u8 / 16) as u8); lemma_hex((c as u8 % 16) as u8); assert(t.skip(3) =~= rest); assert(t[0] == '%'); assert((c as u8 / 16) * 16 + (c as u8 % 16) == c as u8); }
}
pub proof fn lemma_dq_name(c: char, rest: Seq<char>) ensures dq(enc1(c) + rest) == encode_utf8(seq![c]) + dq(rest) {
  if structural(c) { lemma_dq_enc(c, rest); lemma_u1(c); } else { let t = enc1(c) + rest; assert(t.skip(1) =~= rest); assert(t[0] == c); } }
pub proof fn lemma_enc(s: Seq<char>, rest: Seq<char>) requires ascii(s) ensures dq(eq(s) + rest) == encode_utf8(s) + dq(rest) decreases s.len() {
  if s.len() == 0 { lemma_u0(); assert(eq(s) + rest =~= rest); assert(s =~= seq![]); assert(encode_utf8(s) + dq(rest) =~= dq(rest)); }
  else { let c = s.last(); lemma_dq_enc(c, rest); lemma_enc(s.drop_last(), ec(c) + rest); assert(eq(s) + rest =~= eq(s.drop_last()) + (ec(c) + rest)); encode_utf8_concat(s.drop_last(), seq![c]); lemma_u1(c); assert(s.drop_last() + seq![c] =~= s);
    assert(encode_utf8(s) + dq(rest) =~= encode_utf8(s.drop_last()) + (seq![c as u8] + dq(rest))); } }
pub proof fn lemma_en(s: Seq<char>, rest: Seq<char>) ensures dq(en(s) + rest) == encode_utf8(s) + dq(rest) decreases s.len() {
  if s.len() == 0 { lemma_u0(); assert(en(s) + rest =~= rest); assert(s =~= seq![]); assert(encode_utf8(s) + dq(rest) =~= dq(rest)); }
  else { let c = s.last(); lemma_dq_name(c, rest); lemma_en(s.drop_last(), enc1(c) + rest); assert(en(s) + rest =~= en(s.drop_last()) + (enc1(c) + rest)); encode_utf8_concat(s.drop_last(), seq![c]); assert(s.drop_last() + seq![c] =~= s);
    assert(encode_utf8(s) + dq(rest) =~= encode_utf8(s.drop_last()) + (encode_utf8(seq![c]) + dq(rest))); } }
/// a value of ASCII characters decodes to itself
pub proof fn theorem_value_round_trip(s: Seq<char>) requires ascii(s) ensures valid_utf8(dq(eq(s))), decode_utf8(dq(eq(s))) == s {
  broadcast use group_utf8_lib; lemma_enc(s, seq![]); assert(eq(s) + seq![] =~= eq(s)); assert(encode_utf8(s) + dq(seq![]) =~= encode_utf8(s)); encode_utf8_decode_utf8(s); }
/// a name of any characters decodes to itself
pub proof fn theorem_name_round_trip(s: Seq<char>) ensures valid_utf8(dq(en(s))), decode_utf8(dq(en(s))) == s {
  broadcast use group_utf8_lib; lemma_en(s, seq![]); assert(en(s) + seq![] =~= en(s)); assert(encode_utf8(s) + dq(seq![]) =~= encode_utf8(s)); encode_utf8_decode_utf8(s); }
/// nothing in an encoded value or name can be taken for the structure of the query string
pub proof fn theorem_no_structure(s: Seq<char>) ensures ascii(s) ==> forall|i: int| 0 <= i < eq(s).len() ==> (plain(#[trigger] eq(s)[i]) || eq(s)[i] == '%' || eq(s)[i] == '+'),
    forall|i: int| 0 <= i < en(s).len() ==> #[trigger] en(s)[i] != '&' && en(s)[i] != '=' decreases s.len() {
  if s.len() > 0 { let d = s.drop_last(); theorem_no_structure(d); let c = s.last(); if (c as u32) < 128 { lemma_hex((c as u8 / 16) as u8); lemma_hex((c as u8 % 16) as u8); }
    if ascii(s) { assert(ascii(d)); assert((s[s.len() - 1] as u32) < 128);
      assert forall|i: int| 0 <= i < eq(s).len() implies (plain(#[trigger] eq(s)[i]) || eq(s)[i] == '%' || eq(s)[i] == '+') by { if i < eq(d).len() { assert(eq(s)[i] == eq(d)[i]); } else { assert(eq(s)[i] == ec(c)[i - eq(d).len()]); } } }
    assert forall|i: int| 0 <= i < en(s).len() implies #[trigger] en(s)[i] != '&' && en(s)[i] != '=' by { if i < en(d).len() { assert(en(s)[i] == en(d)[i]); } else { assert(en(s)[i] == enc1(c)[i - en(d).len()]); } } } }
}
%prelude
verus! {
pub open spec fn strs(s: Seq<&str>) -> Seq<Seq<char>> { s.map_values(|x: &str| x@) }
/// the pieces of s between the characters c
pub open spec fn split(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
  if s.len() == 0 { seq![seq![]] } else { let r = split(s.drop_first(), c); if s[0] == c { seq![Seq::<char>::empty()] + r } else { seq![seq![s[0]] + r[0]] + r.drop_first() } } }
/// the part before the first '=' and the part after it
pub open spec fn cut(s: Seq<char>) -> (Seq<char>, Option<Seq<char>>) decreases s.len() {
  if s.len() == 0 { (s, None) } else if s[0] == '=' { (seq![], Some(s.drop_first())) } else { let r = cut(s.drop_first()); (seq![s[0]] + r.0, r.1) } }
#[verifier::external_body] pub fn vx_split<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>) ensures strs(r@) == split(s@, c) { unimplemented!() }
#[verifier::external_body] pub fn vx_splitn2<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>) requires c == '='
  ensures r@.len() == (if cut(s@).1 is Some { 2int } else { 1 }), r@[0]@ == cut(s@).0, cut(s@).1 is Some ==> r@[1]@ == cut(s@).1->0 { unimplemented!() }
impl VxKey for String { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
pub type QM = Map<Seq<char>, Seq<Option<Seq<char>>>>;
pub open spec fn ov(o: Option<String>) -> Option<Seq<char>> { match o { None => None, Some(s) => Some(s@) } }
pub open spec fn qm(m: Map<Seq<char>, (String, Vec<Option<String>>)>) -> QM { Map::new(m.dom(), |k: Seq<char>| m[k].1@.map_values(|o: Option<String>| ov(o))) }
/// a decoded name or value; a text that does not decode is taken as it is
pub open spec fn dn(s: Seq<char>) -> Seq<char> { if valid_utf8(dq(s)) { decode_utf8(dq(s)) } else { s } }
pub open spec fn padd(m: QM, p: Seq<char>) -> QM {
  if p.len() == 0 { m } else { let n = dn(cut(p).0); let v = match cut(p).1 { None => None, Some(x) => Some(dn(x)) }; m.insert(n, (if m.dom().contains(n) { m[n] } else { seq![] }).push(v)) } }
/// the map a list of pieces stands for: the values of a name in the order they are written
pub open spec fn pq(p: Seq<Seq<char>>) -> QM decreases p.len() { if p.len() == 0 { Map::empty() } else { padd(pq(p.drop_last()), p.last()) } }
}
%fn parse_query_string
%opt
%sub `query.split('&')` => `vx_split(query, '&')`
%sub `kv.splitn(2, '=').collect::<Vec<&str>>()` => `vx_splitn2(kv, '=')`
%sub `map.entry(name).or_insert_with(|| vec![]).push(value);` => `vx_entry(&mut map, name, Vec::new()).push(value);`
%base 0
%sig
  ensures r is None == (query@.len() == 0), r matches Some(m) ==> qm(m@) =~= pq(split(query@, '&'))
%loop 0 it
  invariant it.seq() == vx_s0@, strs(vx_s0@) == split(query@, '&'), qm(map@) =~= pq(strs(vx_s0@).take(it.index@ as int))
%loop_start 0
  let ghost n = it.index@ as int; let ghost m0 = map@;
%loop_end 0
  proof { let p = strs(vx_s0@); assert(p.take(n + 1).drop_last() =~= p.take(n)); let k = dn(cut(p[n]).0);
    assert(qm(m0).dom() =~= m0.dom()); assert(qm(map@).dom() =~= map@.dom());
    if p[n].len() > 0 { let v: Option<Seq<char>> = match cut(p[n]).1 { None => None, Some(x) => Some(dn(x)) }; assert(qm(map@)[k] =~= (if m0.dom().contains(k) { qm(m0)[k] } else { seq![] }).push(v)); }
    assert(qm(map@) =~= padd(qm(m0), p[n])); }
%after_loop 0
  proof { assert(strs(vx_s0@).take(vx_s0@.len() as int) =~= strs(vx_s0@)); }
