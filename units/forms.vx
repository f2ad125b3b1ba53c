%unit forms
%include std.rs
%include vxmap.rs
%include json_val.rs
%include path_types.vx
%include path_spec.rs
%src rust/pact_models/src/content_types.rs
%enum ContentTypeHint
%src rust/pact_models/src/bodies.rs
%enum OptionalBody
%include body_val.rs
%src rust/pact_models/src/generators/mod.rs
%enum GeneratorTestMode
%src rust/pact_models/src/generators/form_urlencoded.rs
%prelude
verus! {
/// representation invariant of paths: the expression text denotes exactly the tokens (kept by all the operations of path_ops)
pub open spec fn live(d: DocPath) -> bool { parse(d.expr@) == Some(tvs(d.path_tokens@)) && d.expr@.len() > 0 }
// by the contracts proved in path_ops
impl DocPath {
  #[verifier::external_body] pub fn root() -> (r: DocPath) ensures live(r), tvs(r.path_tokens@) =~= seq![Tok::Root], r.expr@ == seq!['$'] { unimplemented!() }
  #[verifier::external_body] pub fn join_field(&self, name: String) -> (r: DocPath) requires live(*self), name@.len() > 0
    ensures live(r), ({ let ts = tvs(self.path_tokens@); let i = Tok::Field(name@);
      tvs(r.path_tokens@) =~= (if ts.last() == Tok::Star { ts.drop_last().push(i) } else { ts.push(i) })
      && r.expr@ =~= (if ts.last() == Tok::Star { render_all(tvs(r.path_tokens@)) } else { self.expr@ + render(i) }) }) { unimplemented!() }
  #[verifier::external_body] pub fn join_index(&self, index: usize) -> (r: DocPath) requires live(*self)
    ensures live(r), ({ let ts = tvs(self.path_tokens@); let i = Tok::Index(index as nat);
      tvs(r.path_tokens@) =~= (if ts.last() == Tok::Star || ts.last() == Tok::StarIndex { ts.drop_last().push(i) } else { ts.push(i) })
      && r.expr@ =~= (if ts.last() == Tok::Star || ts.last() == Tok::StarIndex { render_all(tvs(r.path_tokens@)) } else { self.expr@ + render(i) }) }) { unimplemented!() }
  /// the PartialEq of paths compares their texts
  #[verifier::external_body] pub fn eq(&self, o: &DocPath) -> (r: bool) ensures r == (self.expr@ == o.expr@) { unimplemented!() }
}
#[verifier::external_body] pub struct Generator { _p: () }
#[verifier::external_body] pub struct VxContext { _p: () }
#[verifier::external_body] pub struct VxMatcher { _p: () }
/// the generator can make this text from that one / can fail on it
pub uninterp spec fn makes(g: Generator, c: VxContext, m: VxMatcher, old: Seq<char>, new: Seq<char>) -> bool;
pub uninterp spec fn fails(g: Generator, c: VxContext, m: VxMatcher, old: Seq<char>) -> bool;
pub open spec fn settled(g: Generator, c: VxContext, m: VxMatcher, old: Seq<char>, new: Seq<char>) -> bool { makes(g, c, m, old, new) || (fails(g, c, m, old) && new == old) }
pub uninterp spec fn for_mode(g: Generator, m: GeneratorTestMode) -> bool;
impl Generator {
  #[verifier::external_body] pub fn generate_value(&self, v: &String, c: &VxContext, m: &VxMatcher) -> (r: Result<String, VxError>) ensures r matches Ok(n) ==> makes(*self, *c, *m, v@, n@), r is Err ==> fails(*self, *c, *m, v@) { unimplemented!() }
  /// by the contract proved in gen_json
  #[verifier::external_body] pub fn corresponds_to_mode(&self, mode: &GeneratorTestMode) -> (r: bool) ensures r == for_mode(*self, *mode) { unimplemented!() }
}
// ---- form parameters ----
pub type PV = Seq<(Seq<char>, Seq<char>)>;
pub open spec fn pv(v: Vec<(String, String)>) -> PV { v@.map_values(|e: (String, String)| (e.0@, e.1@)) }
/// the pair number i: its name, and its value to write to
#[verifier::external_body] pub fn vx_pair_mut<'a>(v: &'a mut Vec<(String, String)>, i: usize) -> (r: (&'a String, &'a mut String)) requires i < old(v)@.len()
  ensures r.0@ == pv(*old(v))[i as int].0, r.1@ == pv(*old(v))[i as int].1, pv(*final(v)) == pv(*old(v)).update(i as int, (pv(*old(v))[i as int].0, final(r.1)@)) { unimplemented!() }
pub fn vx_or_insert(m: &mut HashMap<String, usize>, k: String, v: usize) -> (r: &mut usize)
  ensures *r == (if old(m)@.dom().contains(k@) { old(m)@[k@].1 } else { v }), final(m)@ == old(m)@.insert(k@, (if old(m)@.dom().contains(k@) { old(m)@[k@].0 } else { k }, *final(r))) { vx_entry(m, k, v) }
/// how many of the first i parameters have the name
pub open spec fn occ(p: PV, n: Seq<char>, i: int) -> nat decreases i { if i <= 0 { 0 } else { occ(p, n, i - 1) + (if p[i - 1].0 == n { 1nat } else { 0nat }) } }
pub open spec fn cnt(m: Map<Seq<char>, (String, usize)>, n: Seq<char>) -> nat { if m.dom().contains(n) { m[n].1 as nat } else { 0 } }
pub open spec fn counts(m: Map<Seq<char>, (String, usize)>, p: PV, i: int) -> bool { forall|n: Seq<char>| #[trigger] cnt(m, n) == occ(p, n, i) }
pub open spec fn field_path(n: Seq<char>) -> Seq<char> { seq!['$'] + render(Tok::Field(n)) }
pub open spec fn item_path(n: Seq<char>, i: nat) -> Seq<char> { field_path(n) + render(Tok::Index(i)) }
/// the path names parameter number i: by its name, or by its name and its number among those of that name
pub open spec fn names(k: Seq<char>, p: PV, i: int) -> bool { k == field_path(p[i].0) || k == item_path(p[i].0, occ(p, p[i].0, i)) }
pub open spec fn none_before(k: Seq<char>, p: PV, i: int) -> bool { forall|j: int| 0 <= j < i ==> !#[trigger] names(k, p, j) }
/// the generator has been applied to the first parameter that the path names, and to nothing else
pub open spec fn applied(g: Generator, c: VxContext, m: VxMatcher, k: Seq<char>, p: PV, q: PV) -> bool {
  p.len() == q.len() && forall|j: int| 0 <= j < p.len() ==> (#[trigger] q[j]).0 == p[j].0 && if names(k, p, j) && none_before(k, p, j) { settled(g, c, m, p[j].1, q[j].1) } else { q[j].1 == p[j].1 } }
pub open spec fn named(p: PV) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).0.len() > 0 }
pub proof fn lemma_occ(p: PV, n: Seq<char>, i: int) requires 0 <= i ensures occ(p, n, i) <= i decreases i { if i > 0 { lemma_occ(p, n, i - 1); } }
pub proof fn lemma_occ_same(p: PV, q: PV, n: Seq<char>, i: int) requires i <= p.len() == q.len(), forall|j: int| 0 <= j < p.len() ==> (#[trigger] q[j]).0 == p[j].0 ensures occ(p, n, i) == occ(q, n, i) decreases i { if i > 0 { lemma_occ_same(p, q, n, i - 1); assert(q[i - 1].0 == p[i - 1].0); } }
#[verifier::external_body] pub struct VxGens { _p: () }
/// the entries of the map, in the order that it gives them
pub uninterp spec fn entries(g: VxGens, es: Seq<(DocPath, Generator)>) -> bool;
#[verifier::external_body] pub fn vx_gen_entries<'a>(g: &'a VxGens) -> (r: Vec<(&'a DocPath, &'a Generator)>) ensures entries(*g, derefs(r@)) { unimplemented!() }
pub open spec fn derefs(s: Seq<(&DocPath, &Generator)>) -> Seq<(DocPath, Generator)> { s.map_values(|e: (&DocPath, &Generator)| (*e.0, *e.1)) }
pub open spec fn ran(es: Seq<(DocPath, Generator)>, n: int, c: VxContext, m: VxMatcher, mode: GeneratorTestMode, vs: Seq<PV>) -> bool {
  vs.len() == n + 1 && forall|i: int| 0 <= i < n ==> if for_mode((#[trigger] es[i]).1, mode) { applied(es[i].1, c, m, es[i].0.expr@, vs[i], vs[i + 1]) } else { vs[i + 1] == vs[i] } }
pub open spec fn run(g: VxGens, c: VxContext, m: VxMatcher, mode: GeneratorTestMode, v: PV, w: PV) -> bool { exists|es: Seq<(DocPath, Generator)>, vs: Seq<PV>| #[trigger] entries(g, es) && #[trigger] ran(es, es.len() as int, c, m, mode, vs) && vs[0] == v && vs.last() == w }
impl VxError { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
pub uninterp spec fn urlencoded(p: PV) -> Seq<char>;
#[verifier::external_body] pub fn vx_urlencode(v: Vec<(String, String)>) -> (r: Result<String, VxError>) ensures r is Ok, r->Ok_0@ == urlencoded(pv(v)) { unimplemented!() }
#[verifier::external_body] pub fn vx_clone_params(v: &Vec<(String, String)>) -> (r: Vec<(String, String)>) ensures pv(r) == pv(*v) { unimplemented!() }
pub uninterp spec fn ct_from(s: Seq<char>) -> CT;
#[verifier::external_body] pub fn vx_ct_from(s: &str) -> (r: ContentType) ensures ctq(r) == ct_from(s@) { unimplemented!() }
// ---- theorems ----
/// THEOREM: a path in normal form names a parameter exactly if its steps are the name, or the name and the number
pub proof fn theorem_names(ts: Seq<Tok>, p: PV, i: int) requires wf_toks(ts), ts.len() > 0, 0 <= i < p.len(), named(p), p.len() <= usize::MAX
  ensures names(render_all(ts), p, i) <==> (ts == seq![Tok::Root, Tok::Field(p[i].0)] || ts == seq![Tok::Root, Tok::Field(p[i].0), Tok::Index(occ(p, p[i].0, i))]) {
  let n = p[i].0; let a = seq![Tok::Root, Tok::Field(n)]; let o = occ(p, n, i); let b = seq![Tok::Root, Tok::Field(n), Tok::Index(o)]; lemma_occ(p, n, i);
  theorem_round_trip(ts); theorem_round_trip(a); theorem_round_trip(b);
  let r = seq![Tok::Root]; assert(r.drop_last() =~= seq![]); assert(a.drop_last() =~= r); assert(b.drop_last() =~= a);
  assert(render_all(r.drop_last()) =~= seq![]); assert(render_all(r) =~= seq!['$']); assert(render_all(a) =~= field_path(n)); assert(render_all(b) =~= item_path(n, o)); }
pub proof fn lemma_names_same(k: Seq<char>, p: PV, q: PV, i: int) requires p.len() == q.len(), forall|j: int| 0 <= j < p.len() ==> (#[trigger] q[j]).0 == p[j].0, 0 <= i < p.len() ensures names(k, p, i) == names(k, q, i) { lemma_occ_same(p, q, p[i].0, i); assert(q[i].0 == p[i].0); }
/// what one step may change
pub proof fn lemma_form_step(g: Generator, c: VxContext, m: VxMatcher, k: Seq<char>, p: PV, q: PV) requires applied(g, c, m, k, p, q)
  ensures p.len() == q.len(), forall|j: int| 0 <= j < p.len() ==> (#[trigger] q[j]).0 == p[j].0, forall|j: int| 0 <= j < p.len() && !names(k, p, j) ==> #[trigger] q[j] == p[j], forall|j: int| 0 <= j < p.len() && !none_before(k, p, j) ==> #[trigger] q[j] == p[j],
    forall|j: int| 0 <= j < p.len() && names(k, p, j) && none_before(k, p, j) ==> settled(g, c, m, p[j].1, (#[trigger] q[j]).1) {
}
pub proof fn lemma_same_before(k: Seq<char>, p: PV, q: PV, i: int) requires p.len() == q.len(), forall|j: int| 0 <= j < p.len() ==> (#[trigger] q[j]).0 == p[j].0, 0 <= i <= p.len() ensures none_before(k, p, i) == none_before(k, q, i) {
  assert forall|j: int| 0 <= j < i implies #[trigger] names(k, p, j) == names(k, q, j) by { lemma_names_same(k, p, q, j); }
  assert forall|j: int| 0 <= j < i implies names(k, p, j) == #[trigger] names(k, q, j) by { lemma_names_same(k, p, q, j); } }
pub open spec fn kept_names(p: PV, q: PV) -> bool { p.len() == q.len() && forall|j: int| 0 <= j < p.len() ==> (#[trigger] q[j]).0 == p[j].0 }
/// THEOREM: the names and the order of the parameters stay as they are, and so does the value of a parameter that no generator for the mode has as the first that its path names
pub proof fn theorem_form_outside(es: Seq<(DocPath, Generator)>, c: VxContext, m: VxMatcher, mode: GeneratorTestMode, vs: Seq<PV>, a: int, b: int, i: int)
  requires ran(es, es.len() as int, c, m, mode, vs), 0 <= a <= b <= es.len(), 0 <= i < vs[0].len(), forall|n: int| a <= n < b && for_mode((#[trigger] es[n]).1, mode) ==> !names(es[n].0.expr@, vs[0], i) || !none_before(es[n].0.expr@, vs[0], i)
  ensures kept_names(vs[0], vs[a]), kept_names(vs[0], vs[b]), vs[b][i] == vs[a][i] decreases b, b - a {
  if a < b { theorem_form_outside(es, c, m, mode, vs, a, b - 1, i); let n = b - 1; let k = es[n].0.expr@;
    if for_mode(es[n].1, mode) { lemma_form_step(es[n].1, c, m, k, vs[n], vs[n + 1]); lemma_names_same(k, vs[0], vs[n], i); lemma_same_before(k, vs[0], vs[n], i); } }
  else if a > 0 { theorem_form_names(es, c, m, mode, vs, a); } }
pub proof fn theorem_form_names(es: Seq<(DocPath, Generator)>, c: VxContext, m: VxMatcher, mode: GeneratorTestMode, vs: Seq<PV>, a: int) requires ran(es, es.len() as int, c, m, mode, vs), 0 <= a <= es.len() ensures kept_names(vs[0], vs[a]) decreases a {
  if a > 0 { theorem_form_names(es, c, m, mode, vs, a - 1); let n = a - 1; if for_mode(es[n].1, mode) { lemma_form_step(es[n].1, c, m, es[n].0.expr@, vs[n], vs[n + 1]); } } }
/// THEOREM: the first parameter that a generator's path names, if no other generator's path names it, ends with a value that this generator makes from the value it had
pub proof fn theorem_form_selected(es: Seq<(DocPath, Generator)>, c: VxContext, m: VxMatcher, mode: GeneratorTestMode, vs: Seq<PV>, n: int, i: int)
  requires ran(es, es.len() as int, c, m, mode, vs), 0 <= n < es.len(), for_mode(es[n].1, mode), 0 <= i < vs[0].len(), names(es[n].0.expr@, vs[0], i), none_before(es[n].0.expr@, vs[0], i), forall|j: int| 0 <= j < es.len() && j != n && for_mode((#[trigger] es[j]).1, mode) ==> !names(es[j].0.expr@, vs[0], i)
  ensures kept_names(vs[0], vs.last()), settled(es[n].1, c, m, vs[0][i].1, vs.last()[i].1) {
  theorem_form_outside(es, c, m, mode, vs, 0, n, i); let k = es[n].0.expr@; lemma_names_same(k, vs[0], vs[n], i); lemma_same_before(k, vs[0], vs[n], i); lemma_form_step(es[n].1, c, m, k, vs[n], vs[n + 1]);
  theorem_form_outside(es, c, m, mode, vs, n + 1, es.len() as int, i); }
}
%struct FormUrlEncodedHandler
%sub `QueryParams` => `Vec<(String, String)>`
%fn ContentTypeHandler<String> for FormUrlEncodedHandler::apply_key
%chain
%sub `&dyn GenerateValue<String>` => `&Generator`
%sub `&HashMap<&str, Value>` => `&VxContext`
%sub `&Box<dyn VariantMatcher + Send + Sync>` => `&VxMatcher`
%sub `generate_value(&param_value,` => `generate_value(&*param_value,`
%sub `for (param_key, param_value) in self.params.iter_mut()` => `let vx_n = self.params.len(); for vx_i in 0..vx_n`
%attr #[verifier::loop_isolation(false)]
%sig
  requires named(pv(old(self).params)), live(*key), 
  ensures applied(*generator, *context, *matcher, key.expr@, pv(old(self).params), pv(final(self).params))
%body_start
  let ghost p = pv(self.params); let ghost k = key.expr@;
%loop 0
  invariant vx_n == p.len(), pv(self.params) == p, none_before(k, p, vx_i as int), counts(map@, p, vx_i as int)
%loop_start 0
  let ghost m0 = map@;
  let (param_key, param_value) = vx_pair_mut(&mut self.params, vx_i);
  proof { let n = param_key@; lemma_occ(p, n, vx_i as int); assert(occ(p, n, vx_i as int) <= vx_i); assert(seq![Tok::Root].last() == Tok::Root); assert(seq![Tok::Root].push(Tok::Field(n)).last() == Tok::Field(n)); }
%before `let index = map`
  proof { let n = param_key@; assert(cnt(map@, n) == occ(p, n, vx_i as int)); }
%before `return match`
  proof { assert(names(k, p, vx_i as int)); assert(param_value@ == p[vx_i as int].1); }
%loop_end 0
  proof { assert(!names(k, p, vx_i as int)); assert forall|n: Seq<char>| #[trigger] cnt(map@, n) == occ(p, n, vx_i + 1) by { assert(cnt(m0, n) == occ(p, n, vx_i as int)); } }
%fn ContentTypeHandler<String> for FormUrlEncodedHandler::process_body
%sub `&HashMap<DocPath, Generator>` => `&VxGens`
%sub `&HashMap<&str, Value>` => `&VxContext`
%sub `&Box<dyn VariantMatcher + Send + Sync>` => `&VxMatcher`
%sub `serde_urlencoded::to_string(self.params.clone())` => `vx_urlencode(vx_clone_params(&self.params))`
%sub `query_string.into()` => `vx_bytes(query_string)`
%sub `"application/x-www-form-urlencoded".into()` => `vx_ct_from("application/x-www-form-urlencoded")`
%base 0 vx_gen_entries
%attr #[verifier::loop_isolation(false)]
%sig
  requires named(pv(old(self).params)), forall|es: Seq<(DocPath, Generator)>| #[trigger] entries(*generators, es) ==> forall|i: int| 0 <= i < es.len() ==> live(#[trigger] es[i].0)
  ensures run(*generators, *context, *matcher, *mode, pv(old(self).params), pv(final(self).params)), r is Ok, bq(r->Ok_0) == BQ::Present(utf8(urlencoded(pv(final(self).params))), Some(ct_from("application/x-www-form-urlencoded"@)), None)
%body_start
  let ghost v = pv(self.params); let ghost mut vs: Seq<PV> = seq![v]; let ghost mut es: Seq<(DocPath, Generator)> = seq![];
%after_base 0
  proof { es = derefs(vx_s0@); assert(entries(*generators, es)); }
%loop 0 it
  invariant it.seq() == vx_s0@, es == derefs(vx_s0@), ran(es, it.index@ as int, *context, *matcher, *mode, vs), vs[0] == v, vs.last() == pv(self.params), named(pv(self.params))
%loop_start 0
  let ghost i = it.index@ as int; let ghost w0 = pv(self.params);
  proof { assert(es[i] == (*key, *generator)); assert(live(es[i].0)); }
%loop_end 0
  proof { let v2 = vs.push(pv(self.params)); assert forall|k: int| 0 <= k < i + 1 implies if for_mode((#[trigger] es[k]).1, *mode) { applied(es[k].1, *context, *matcher, es[k].0.expr@, v2[k], v2[k + 1]) } else { v2[k + 1] == v2[k] } by { if k < i { assert(v2[k] == vs[k]); assert(v2[k + 1] == vs[k + 1]); } } vs = v2;
    if for_mode(es[i].1, *mode) { lemma_form_step(es[i].1, *context, *matcher, es[i].0.expr@, w0, pv(self.params)); } }
%after_loop 0
  proof { assert(entries(*generators, es) && ran(es, es.len() as int, *context, *matcher, *mode, vs)); }
