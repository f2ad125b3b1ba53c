// ---- the value of a text with expressions ----
verus! {
impl<'a> VxKey for &'a str { type KV = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } }
pub open spec fn opt_is(r: Option<Value>, o: Option<JV>) -> bool { r is Some == o is Some && (r is Some ==> jv(r->0) == o->0) }
/// where the first expression starts, and where its closing brace is
pub open spec fn opener() -> Seq<char> { seq!['$', '{'] }
pub open spec fn has_expr(s: Seq<char>) -> bool { !no_occ(s, opener()) }
pub open spec fn start(s: Seq<char>) -> int { choose|i: int| first_occ(s, opener(), i) }
pub open spec fn close(s: Seq<char>, i: int) -> int { i + choose|e: int| first_char(s.skip(i), '}', e) }
/// the parts of a text: literal text, and the values of its expressions; None when an expression is not closed or has no value
pub open spec fn parts(s: Seq<char>, look: spec_fn(Seq<char>) -> Option<JV>) -> Option<Seq<JV>> decreases s.len() {
  if !has_expr(s) { Some(if s.len() == 0 { seq![] } else { seq![JV::Str(s)] }) }
  else { let i = start(s); if !s.skip(i).contains('}') { None } else {
    let e = close(s, i);
    if !(0 <= i && i + 2 <= e && e < s.len()) { None } else {
    let pre = if i > 0 { seq![JV::Str(s.take(i))] } else { seq![] };
    let key = s.subrange(i + 2, e);
    if key.len() == 0 { join_parts(pre, parts(s.skip(e + 1), look)) }
    else { match look(key) { None => None, Some(v) => join_parts(pre.push(v), parts(s.skip(e + 1), look)) } } } } }
}
pub open spec fn join_parts(a: Seq<JV>, b: Option<Seq<JV>>) -> Option<Seq<JV>> { match b { Some(t) => Some(a + t), None => None } }
pub open spec fn texts(s: Seq<JV>) -> Seq<Seq<char>> { s.map_values(|v: JV| jtext(v)) }
/// one part is the value itself, several are joined as text
pub open spec fn whole(s: Seq<JV>) -> JV { if s.len() == 1 { s[0] } else { JV::Str(joined(texts(s), seq![])) } }
pub open spec fn expanded(s: Seq<char>, look: spec_fn(Seq<char>) -> Option<JV>) -> Option<JV> { match parts(s, look) { Some(p) => Some(whole(p)), None => None } }
pub open spec fn res_is(r: Result<Value, VxError>, o: Option<JV>) -> bool { r is Ok == o is Some && (r is Ok ==> jv(r->Ok_0) == o->0) }
/// a text without expressions is itself, otherwise its expressions are replaced
pub open spec fn text_value(s: Seq<char>, look: spec_fn(Seq<char>) -> Option<JV>) -> Option<JV> { if has_expr(s) { expanded(s, look) } else { Some(JV::Str(s)) } }
pub proof fn lemma_start(s: Seq<char>, i: int) requires first_occ(s, opener(), i) ensures has_expr(s), start(s) == i { let k = start(s); assert(first_occ(s, opener(), k)); if k < i { assert(!occurs(s, opener(), k)); } if i < k { assert(!occurs(s, opener(), i)); } }
pub proof fn lemma_close(s: Seq<char>, i: int, e: int) requires 0 <= i <= s.len(), first_char(s.skip(i), '}', e) ensures s.skip(i).contains('}'), close(s, i) == i + e { let t = s.skip(i); let k = choose|e: int| first_char(t, '}', e); assert(first_char(t, '}', k)); assert(t[e] == '}'); if k < e { assert(t[k] != '}'); } if e < k { assert(t[e] != '}'); } }
pub proof fn lemma_join_assoc(a: Seq<JV>, b: Seq<JV>, c: Option<Seq<JV>>) ensures join_parts(a, join_parts(b, c)) == join_parts(a + b, c) { match c { Some(t) => assert(a + (b + t) =~= (a + b) + t), None => {} } }
pub open spec fn ctx_fn<'a>(m: Map<Seq<char>, (&'a str, Value)>) -> spec_fn(Seq<char>) -> Option<JV> { |name: Seq<char>| if m.dom().contains(name) { Some(jv(m[name].1)) } else { None } }
/// the value an expression has in a context: expanded when it holds expressions, otherwise the name of an entry
pub open spec fn context_value(e: Seq<char>, m: HashMap<&str, Value>) -> Option<JV> { if has_expr(e) { expanded(e, ctx_fn(m@)) } else { ctx_fn(m@)(e) } }
}
