%unit expr
%include std.rs
%include json_val.rs
%include vxmap.rs
%include str_find.rs
%include expr_spec.rs
%src rust/pact_models/src/expression_parser.rs
%enum DataType
%struct DataValue
%prelude
verus! {
impl Clone for DataType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for DataType {}
/// ValueResolver<Value>: the values the names resolve to (assumed not to change while one text is parsed)
pub trait VxResolver { spec fn lookf(&self) -> spec_fn(Seq<char>) -> Option<JV>; fn resolve_value(&self, name: &str) -> (r: Option<Value>) ensures opt_is(r, self.lookf()(name@)); }
}
%struct MapValueResolver
%prelude
verus! {
impl<'a> VxResolver for MapValueResolver<'a> { open spec fn lookf(&self) -> spec_fn(Seq<char>) -> Option<JV> { ctx_fn(self.context@) } fn resolve_value(&self, name: &str) -> (r: Option<Value>) { self.resolve_value_(name) } }
}
%fn ValueResolver<Value> for MapValueResolver::resolve_value
%rename resolve_value_
%sub `self.context.get(name)` => `self.context.get(&name)`
%sig
  ensures opt_is(r, self.lookf()(name@))
%src rust/pact_models/src/json_utils.rs
%fn json_to_string
%sig
  ensures r@ == jtext(jv(*value))
%body_start
  proof { broadcast use axiom_jv; }
%src rust/pact_models/src/expression_parser.rs
%fn contains_expressions
%sub `value.contains("${")` => `vx_contains_str(value, "${")`
%sig
  ensures r == has_expr(value@)
%body_start
  proof { reveal_strlit("${"); assert("${"@ =~= opener()); }
%fn replace_expressions
%sub `anyhow::Result<Value>` => `Result<Value, VxError>`
%sub `&dyn ValueResolver<Value>` => `&impl VxResolver`
%sub 2 `buffer.find("${")` => `vx_find_str(buffer, "${")`
%sub `&buffer[0..index]` => `vx_slice(buffer, 0, index)`
%sub `buffer[index..].find('}')` => `vx_find_char(vx_from(buffer, index), '}')`
%sub `&buffer[(index + 2)..end_position]` => `vx_slice(buffer, index + 2, end_position)`
%sub `&buffer[(end_position + 1)..]` => `vx_from(buffer, end_position + 1)`
%opt
%chain
%closure 1 |pos: usize| -> (o: usize) requires index + pos <= usize::MAX ensures o == index + pos
%sig
  ensures res_is(r, expanded(value@, value_resolver.lookf()))
%body_start
  broadcast use axiom_jv; let ghost lk = value_resolver.lookf(); proof { reveal_strlit("${"); assert("${"@ =~= opener()); }
%before `while let`
  proof { assert(jvs(result@) =~= seq![]); assert(join_parts(seq![], parts(value@, lk)) == parts(value@, lk)) by { match parts(value@, lk) { Some(t) => assert(Seq::<JV>::empty() + t =~= t), None => {} } } }
%loop 0
  invariant lk == value_resolver.lookf(), "${"@ == opener(), parts(value@, lk) == join_parts(jvs(result@), parts(buffer@, lk)),
    position is None ==> no_occ(buffer@, opener()), position is Some ==> exists|i: int| at_char(buffer@, position->0 as int, i) && #[trigger] first_occ(buffer@, opener(), i)
  ensures no_occ(buffer@, opener())
  decreases buffer@.len()
%loop_start 0
  broadcast use axiom_jv; let ghost b = buffer@; let ghost i = choose|i: int| at_char(b, index as int, i) && #[trigger] first_occ(b, opener(), i); let ghost r0 = jvs(result@);
  proof { lemma_start(b, i); assert(b.take(0) =~= seq![]); assert(at_char(b, 0, 0)) by { reveal_with_fuel(vstd::utf8::encode_utf8, 2); } axiom_str_size(buffer); assert(occurs(b, opener(), i));
    let sub = b.subrange(i, i + 2); assert(sub == opener()); assert(b[i] == sub[0]); assert(b[i + 1] == sub[1]); lemma_ascii_step(b, index as int, i, 2);
    assert(b.subrange(0, i) =~= b.take(i)); lemma_blen_split(b, 0, i); if i > 0 { lemma_blen_ge(b.take(i)); }
    let t = b.skip(i);
    assert forall|pos: int, e: int| #[trigger] at_char(t, pos, e) implies at_char(b, index + pos, i + e) && index + pos <= isize::MAX by { lemma_blen_split(b, i, i + e); assert(b.subrange(i, i + e) =~= t.take(e)); lemma_blen_split(b, i + e, b.len() as int); assert(b.take(b.len() as int) =~= b); assert(b.take(i + e).len() >= 0); }
    assert(!t.contains('}') ==> parts(b, lk) is None);
    assert(parts(b, lk) is None ==> parts(value@, lk) is None);
  }
%before `if end_position`
  let ghost e = choose|e: int| at_char(b.skip(i), end_position - index, e) && #[trigger] first_char(b.skip(i), '}', e);
  proof { let t = b.skip(i); lemma_close(b, i, e); assert(t[0] == b[i] && t[1] == b[i + 1] && t[e] == b[i + e]); assert(e >= 2) by { if e == 0 { assert(t[0] == '}'); } if e == 1 { assert(t[1] == '}'); } }
    assert(at_char(b, end_position as int, i + e)); lemma_blen_split(b, i + 2, i + e); lemma_ascii_step(b, end_position as int, i + e, 1);
    lemma_blen_split(b, i + e, b.len() as int); assert(b.take(b.len() as int) =~= b); axiom_str_size(buffer);
    assert((end_position - index > 2) == (e > 2)) by { if e == 2 { assert(b.subrange(i + 2, i + e) =~= seq![]); reveal_with_fuel(vstd::utf8::encode_utf8, 2); } }
    let pre = if i > 0 { seq![JV::Str(b.take(i))] } else { seq![] }; assert(jvs(result@) =~= r0 + pre); }
  let ghost r1 = jvs(result@); let ghost key = b.subrange(i + 2, i + e);
%before `buffer = &buffer[(end_position`
  proof { let pre = if i > 0 { seq![JV::Str(b.take(i))] } else { seq![] }; let rest = b.skip(i + e + 1);
    if key.len() == 0 { assert(jvs(result@) == r0 + pre); lemma_join_assoc(r0, pre, parts(rest, lk)); } else { assert(jvs(result@) =~= r1.push(lk(key)->0)); assert(r1.push(lk(key)->0) =~= r0 + pre.push(lk(key)->0)); lemma_join_assoc(r0, pre.push(lk(key)->0), parts(rest, lk)); } }
%after_loop 0
  let ghost rl = jvs(result@);
%before @last `if result.len() == 1`
  proof { axiom_str_size(buffer); if buffer@.len() > 0 { lemma_str_nonempty(buffer); } reveal_with_fuel(vstd::utf8::encode_utf8, 2); assert(buffer@.len() == 0 ==> rl + seq![] =~= rl); assert(buffer@.len() > 0 ==> jvs(result@) =~= rl + seq![JV::Str(buffer@)]); assert(!has_expr(buffer@)); assert(parts(value@, lk) == join_parts(rl, parts(buffer@, lk))); assert(buffer@.len() == 0 ==> jvs(result@) == rl); assert(buffer@.len() > 0 ==> jvs(result@) == rl + seq![JV::Str(buffer@)]); assert(parts(buffer@, lk) is Some); assert(parts(value@, lk) == Some(jvs(result@))); }
%bty 1 Vec<String>
%loop 1 it
  invariant it.seq().len() == result@.len(), forall|k: int| 0 <= k < result@.len() ==> *(#[trigger] it.seq()[k]) == result@[k], vx_b1@.len() == it.index@, forall|k: int| 0 <= k < it.index@ ==> (#[trigger] vx_b1@[k])@ == jtext(jv(result@[k]))
%after_loop 1
  proof { assert(vx_b1@.map_values(|x: String| x.disp()) =~= texts(jvs(result@))); reveal_strlit(""); assert(""@ =~= seq![]); }
%fn parse_expression
%sub `anyhow::Result<Value>` => `Result<Value, VxError>`
%sub `&dyn ValueResolver<Value>` => `&impl VxResolver`
%sig
  ensures res_is(r, text_value(value@, value_resolver.lookf()))
%body_start
  broadcast use axiom_jv; 
%fn DataType::wrap
%sub `anyhow::Result<Value>` => `Result<Value, VxError>`
%sub `anyhow::Result<DataValue>` => `Result<DataValue, VxError>`
%closure 0 |val: Value| -> (o: DataValue) ensures o.wrapped == val, o.data_type == *self
%sig
  ensures r is Ok == result is Ok, r is Ok ==> r->Ok_0.wrapped == result->Ok_0 && r->Ok_0.data_type == *self
%src rust/pact_models/src/generators/mod.rs
%fn generate_value_from_context
%sub `anyhow::Result<DataValue>` => `Result<DataValue, VxError>`
%sub `context.get(expression)` => `context.get(&expression)`
%closure 0 |val: &Value| -> (o: Value) ensures jv(o) == jv(*val)
%sig
  ensures r is Ok == context_value(expression@, *context) is Some, r is Ok ==> jv(r->Ok_0.wrapped) == context_value(expression@, *context)->0 && r->Ok_0.data_type == (match *data_type { Some(t) => t, None => DataType::RAW })
%prelude
verus! {
/// literal text (any, braces included) followed by a closed expression: the text, the value, and the parts of what follows
pub proof fn theorem_substitution(t: Seq<char>, k: Seq<char>, u: Seq<char>, look: spec_fn(Seq<char>) -> Option<JV>)
  requires no_occ(t + seq!['$'], opener()), !k.contains('}'), k.len() > 0
  ensures ({ let s = t + opener() + k + seq!['}'] + u; has_expr(s) && parts(s, look) == (match look(k) { None => None, Some(v) => join_parts((if t.len() > 0 { seq![JV::Str(t)] } else { seq![] }).push(v), parts(u, look)) }) })
{
  let s = t + opener() + k + seq!['}'] + u; let n = t.len() as int;
  assert(s.subrange(n, n + 2) =~= opener()); assert(occurs(s, opener(), n));
  assert forall|j: int| 0 <= j < n implies !#[trigger] occurs(s, opener(), j) by { let w = t + seq!['$']; assert(!occurs(w, opener(), j)); assert(s.subrange(j, j + 2) =~= w.subrange(j, j + 2)); }
  assert(first_occ(s, opener(), n)); lemma_start(s, n);
  let e = 2 + k.len() as int; let r = s.skip(n);
  assert(r[e] == '}'); assert(r[0] == '$' && r[1] == '{');
  assert forall|j: int| 0 <= j < e implies #[trigger] r[j] != '}' by { if j >= 2 { assert(r[j] == k[j - 2]); assert(k.contains(k[j - 2])); } }
  assert(first_char(r, '}', e)); lemma_close(s, n, e);
  assert(s.take(n) =~= t); assert(s.subrange(n + 2, n + e) =~= k); assert(s.skip(n + e + 1) =~= u);
}
/// a text that is just one expression has the value itself, with its type
pub proof fn theorem_type_kept(k: Seq<char>, look: spec_fn(Seq<char>) -> Option<JV>)
  requires !k.contains('}'), k.len() > 0
  ensures text_value(opener() + k + seq!['}'], look) == look(k)
{
  let s = opener() + k + seq!['}'];
  assert(no_occ(Seq::<char>::empty() + seq!['$'], opener()));
  theorem_substitution(seq![], k, seq![], look);
  assert(Seq::<char>::empty() + opener() + k + seq!['}'] + Seq::<char>::empty() =~= s);
  assert(no_occ(Seq::<char>::empty(), opener())); assert(parts(seq![], look) == Some(Seq::<JV>::empty()));
  match look(k) { Some(v) => { assert(Seq::<JV>::empty().push(v) + seq![] =~= seq![v]); } None => {} }
}
}
