%unit apply
%include std.rs
%include vxmap.rs
%include json_val.rs
%include path_types.vx
%include apply_spec.rs
%src rust/pact_models/src/json_utils.rs
%prelude
verus! {
/// iterator over the tokens of a path: next() takes the first, by_ref().cloned().collect() takes the rest
#[verifier::external_body] pub struct VxTokens<'a> { _p: std::marker::PhantomData<&'a ()> }
impl<'a> View for VxTokens<'a> { type V = Seq<PathToken>; uninterp spec fn view(&self) -> Seq<PathToken>; }
#[verifier::external_body] pub fn vx_tokens<'a>(v: &'a Vec<PathToken>) -> (r: VxTokens<'a>) ensures r@ == v@ { unimplemented!() }
impl<'a> VxTokens<'a> {
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a PathToken>) ensures r is Some == (old(self)@.len() > 0), r matches Some(t) ==> *t == old(self)@[0] && final(self)@ == old(self)@.skip(1), r is None ==> final(self)@ == old(self)@ { unimplemented!() }
  #[verifier::external_body] pub fn rest(&mut self) -> (r: Vec<PathToken>) ensures tvs(r@) == tvs(old(self)@), final(self)@.len() == 0 { unimplemented!() }
}
impl Value {
  pub fn as_object(&self) -> (r: Option<&JMap>) ensures r is Some == (self is Object), r is Some ==> *r->0 == self->Object_0 { match self { Value::Object(m) => Some(m), _ => None } }
  pub fn as_array(&self) -> (r: Option<&Vec<Value>>) ensures r is Some == (self is Array), r is Some ==> *r->0 == self->Array_0 { match self { Value::Array(m) => Some(m), _ => None } }
}
/// the entries of an object, each once
pub open spec fn pairs_of(s: Seq<(&String, &Value)>, m: Map<Seq<char>, JV>) -> bool {
  &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0@) && jv(*s[i].1) == m[s[i].0@]
  &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0@ != (#[trigger] s[j]).0@
  &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k }
#[verifier::external_body] pub fn vx_pairs<'a>(m: &'a JMap) -> (r: Vec<(&'a String, &'a Value)>) ensures pairs_of(r@, jm(*m)) { unimplemented!() }
pub open spec fn fields(s: Seq<(&String, &Value)>) -> Seq<Step> { s.map_values(|x: (&String, &Value)| Step::F(x.0@)) }
pub open spec fn pair_at<'a>(i: int, x: (usize, &'a Value), v: Seq<Value>) -> bool { x.0 == i && *x.1 == v[i] }
/// iter().enumerate()
#[verifier::external_body] pub fn vx_enumerate<'a>(v: &'a Vec<Value>) -> (r: Vec<(usize, &'a Value)>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> pair_at(i, #[trigger] r@[i], v@) { unimplemented!() }
pub open spec fn items(n: nat) -> Seq<Step> { Seq::new(n, |i: int| Step::I(i as nat)) }
}
%fn query_object_graph
%fmt exact
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%sub `path_exp.iter()` => `vx_tokens(path_exp)`
%sub 2 `it.by_ref().cloned().collect()` => `it.rest()`
%sub `list.iter().enumerate()` => `vx_enumerate(list)`
%base 1 vx_pairs
%base 2
%sig
  requires wf(old(tree)@), has(old(tree)@, root)
  ensures queried(old(tree)@, final(tree)@, ix(root), eff(tvs(path_exp@)), jv(body)), wf(final(tree)@)
  decreases path_exp@.len()
%body_start
  let ghost a = old(tree)@; let ghost r0 = ix(root); let ghost v0 = jv(body); let ghost all = tvs(path_exp@); let ghost ts = eff(all); let ghost o: int = if all.len() > 0 && all[0] == Tok::Root { 1 } else { 0 };
  let ghost mut q: Seq<Step> = seq![]; let ghost mut n: int = 0; let ghost mut en: int = 0; let ghost mut done = false;
  proof { assert(tree@.take(a.len() as int) =~= a); assert forall|p: Seq<Step>| #[trigger] selects(ts, v0, p) implies p.take(0) == q by { assert(p.take(0) =~= q); } }
%before_loop 0
  proof { assert(it@ =~= path_exp@.skip(0)); }
%loop 0
  invariant
    wf(a), 0 <= r0 < a.len(), wf(tree@), 0 <= n <= all.len(), !done ==> it@ == path_exp@.skip(n), done ==> it@.len() == 0 && queried(a, tree@, r0, ts, v0),
    !done ==> en == (if n < o { 0 } else { n - o }) && chained(a, tree@, r0, v0, q, ix(node_cursor)) && at(v0, q) == Some(jv(body_cursor)) && through(ts, v0, q, en)
  ensures queried(a, tree@, r0, ts, v0), wf(tree@)
  decreases it@.len()
%loop_start 0
  let ghost t0 = tree@; let ghost c = ix(node_cursor); let ghost bv = jv(body_cursor); let ghost rem = it@; let ghost b0 = body_cursor;
  let ghost mut ks: Seq<Step> = seq![]; let ghost mut rs: Seq<Tok> = seq![];
  let ghost tk = if rem.len() > 0 { tv(rem[0]) } else { Tok::Root };
  broadcast use axiom_jv, axiom_ix;
  proof {
    if !done {
      lemma_cursor(a, t0, r0, v0, q, c);
      if rem.len() > 0 {
        assert(rem[0] == path_exp@[n]); assert(tk == all[n]); assert(all.skip(o) =~= ts); assert(ts.skip(en) =~= all.skip(if n < o { o } else { n }));
        if n >= o { assert(ts[en] == tk);
          if forall|k: Step| #[trigger] fits(tk, k) ==> child(bv, k) is None { lemma_dead(ts, v0, q, en); lemma_chain_done(a, t0, r0, ts, v0, q, c); } } }
      else { assert(n == all.len()); assert forall|p: Seq<Step>| #[trigger] selects(ts, v0, p) implies p == q by { assert(p.take(en) =~= p); } lemma_chain_done(a, t0, r0, ts, v0, q, c); } } }
%loop_end 0
  proof { assert(!done);
    assert(rem.skip(1) =~= path_exp@.skip(n + 1));
    n = n + 1;
    if n > o { en = en + 1; match tk {
      Tok::Field(name) => { let k = Step::F(name); assert(child(bv, k) is Some); lemma_chain_step(a, t0, tree@, r0, v0, q, c, k); lemma_through_step(ts, v0, q, en - 1, k); q = q.push(k); }
      Tok::Index(i) => { let k = Step::I(i); if child(bv, k) is Some { lemma_chain_step(a, t0, tree@, r0, v0, q, c, k); lemma_through_step(ts, v0, q, en - 1, k); q = q.push(k); } }
      Tok::Root => {} _ => { done = true; } } } }
%after_base 1
  proof { ks = fields(vx_s1@); rs = tvs(remaining@); assert(rs =~= all.skip(n + 1)); assert(rs =~= ts.skip(en + 1)); lemma_star_start(a, t0, r0, ts, v0, q, c, en, ks); 
    assert forall|i: int, j: int| 0 <= i < j < ks.len() implies stext(#[trigger] ks[i]) != stext(#[trigger] ks[j]) by { assert(vx_s1@[i].0@ != vx_s1@[j].0@); }
    assert forall|k: Step| fits(ts[en], k) && #[trigger] child(bv, k) is Some implies ks.contains(k) by { let f = k->F_0; assert(jm(*map).dom().contains(f)); let i = choose|i: int| 0 <= i < vx_s1@.len() && (#[trigger] vx_s1@[i]).0@ == f; assert(ks[i] == k); } }
%loop 1 it1
  invariant it1.seq() == vx_s1@, pairs_of(vx_s1@, jm(*map)), starred(a, t0, tree@, r0, ts, v0, q, ks, it1.index@ as int), wf(tree@)
%loop_start 1
  broadcast use axiom_jv, axiom_ix;
  let ghost ta = tree@; let ghost ii = it1.index@ as int;
  proof { assert(ks[ii] == Step::F(key@)); assert(child(bv, ks[ii]) == Some(jv(*val))); assert(t0.len() <= ta.len());
    let t2 = ta.push(TN { par: c, val: key@ }); assert forall|m: int| 0 <= m < t2.len() implies -1 <= (#[trigger] t2[m]).par < m by { if m < ta.len() { assert(t2[m] == ta[m]); } } }
%loop_end 1
  proof { lemma_star_step(a, t0, ta, ta.push(TN { par: c, val: key@ }), tree@, r0, ts, v0, q, c, en, ks, ii, rs); }
%after_loop 1
  proof { lemma_star_end(a, t0, tree@, r0, ts, v0, q, en, ks); }
%after_base 2
  proof { ks = items(list@.len()); rs = tvs(remaining@); assert(rs =~= all.skip(n + 1)); assert(rs =~= ts.skip(en + 1)); lemma_star_start(a, t0, r0, ts, v0, q, c, en, ks); 
    assert forall|i: int, j: int| 0 <= i < j < ks.len() implies stext(#[trigger] ks[i]) != stext(#[trigger] ks[j]) by { if dec(i as nat) == dec(j as nat) { lemma_dec_inj(i as nat, j as nat); } }
    assert forall|k: Step| fits(ts[en], k) && #[trigger] child(bv, k) is Some implies ks.contains(k) by { let i = k->I_0 as int; assert(ks[i] == k); } }
%loop 2 it2
  invariant it2.seq() == vx_s2@, starred(a, t0, tree@, r0, ts, v0, q, ks, it2.index@ as int), wf(tree@)
%loop_start 2
  broadcast use axiom_jv, axiom_ix;
  let ghost ta = tree@; let ghost ii = it2.index@ as int;
  proof { assert(pair_at(ii, vx_s2@[ii], list@)); assert(ks[ii] == Step::I(ii as nat)); assert(child(bv, ks[ii]) == Some(jv(*val))); assert(t0.len() <= ta.len());
    let t2 = ta.push(TN { par: c, val: dec(index as nat) }); assert forall|m: int| 0 <= m < t2.len() implies -1 <= (#[trigger] t2[m]).par < m by { if m < ta.len() { assert(t2[m] == ta[m]); } } }
%loop_end 2
  proof { lemma_star_step(a, t0, ta, ta.push(TN { par: c, val: dec(index as nat) }), tree@, r0, ts, v0, q, c, en, ks, ii, rs); }
%after_loop 2
  proof { lemma_star_end(a, t0, tree@, r0, ts, v0, q, en, ks); }
%src rust/pact_models/src/content_types.rs
%enum ContentTypeHint
%src rust/pact_models/src/bodies.rs
%enum OptionalBody
%include body_val.rs
%src rust/pact_models/src/generators/mod.rs
%enum GeneratorTestMode
%include apply_spec2.rs
%prelude
verus! {
/// ContentType::from(&str)
pub uninterp spec fn ct_from(s: Seq<char>) -> CT;
#[verifier::external_body] pub fn vx_ct_from(s: &str) -> (r: ContentType) ensures ctq(r) == ct_from(s@) { unimplemented!() }
}
%src rust/pact_models/src/path_exp.rs
%fn DocPath::len
%sig
  ensures r == self.path_tokens@.len()
%fn DocPath::tokens
%sig
  ensures r@ == self.path_tokens@
%src rust/pact_models/src/json_utils.rs
%fn resolve_path
%fmt exact
%chain
%attr #[verifier::loop_isolation(false)]
%base 0
%base 1
%sub `tree.index(n).get().replace('~', "~0").replace('/', "~1")` => `vx_replace(&vx_replace(tree.index(n).get(), '~', "~0"), '/', "~1")`
%bty 1 Vec<String>
%sub `path.iter().rev().join("/")` => `vx_rev_join(&path)`
%sub `"".into()` => `String::new()`
%sig
  requires rooted(*expression)
  ensures resolved(texts(r@), toks(*expression), jv(*value))
%body_start
  let ghost ts = toks(*expression); let ghost v = jv(*value); let ghost mut ps: Seq<Seq<Step>> = seq![]; let ghost mut src: Seq<int> = seq![]; let ghost mut a: Tree = seq![]; let ghost mut ns: Seq<int> = seq![];
  broadcast use axiom_ix;
  proof { reveal_strlit("~0"); reveal_strlit("~1"); assert("~0"@ =~= seq!['~', '0']); assert("~1"@ =~= seq!['~', '1']); }
%before `query_object_graph(expression.tokens(), &mut tree, root, value.clone());`
  proof { a = tree@; assert(wf(a)); }
%after_base 0
  proof { ns = ids(vx_s0@); assert(start(a)); assert(tree@.take(1)[0] == tree@[0]);
    assert forall|i: int, j: int| 0 <= i < j < ns.len() implies #[trigger] ns[i] != #[trigger] ns[j] by { assert(ix(vx_s0@[i]) != ix(vx_s0@[j])); }
    assert forall|i: int| 0 <= i < ns.len() implies 0 <= #[trigger] ns[i] < tree@.len() && below(tree@, 0, ns[i]) by { assert(has(tree@, vx_s0@[i])); }
    assert forall|m: int| #[trigger] below(tree@, 0, m) implies exists|i: int| 0 <= i < ns.len() && #[trigger] ns[i] == m by { let i = choose|i: int| 0 <= i < vx_s0@.len() && ix(#[trigger] vx_s0@[i]) == m; assert(ns[i] == m); }
    assert(each_once(tree@, ns)); }
%loop 0 it0
  invariant it0.seq() == vx_s0@, collected(tree@, ts, v, ns, it0.index@ as int, texts(acc@), ps, src)
%loop_start 0
  let ghost r0 = texts(acc@); let ghost i = it0.index@ as int; let ghost m = ix(node_id); let ghost us = ups(tree@, m);
  broadcast use axiom_ix;
  proof { assert(ns[i] == m); assert(below(tree@, 0, m)); lemma_ups(tree@, m); }
%loop_end 0
  proof {
    let w = npath(tree@, 0, m);
    if m > 0 && w.len() == ts.len() { lemma_leaf(a, tree@, ts, v, m); let p = choose|p: Seq<Step>| #[trigger] stands(tree@, 0, ts, v, m, p) && selects(ts, v, p); lemma_node_text(tree@, m); assert(ts.len() + 1 == expression.path_tokens@.len()); assert(w == stexts(p)); assert(w.len() + 1 == us.len()); assert(acc@.len() == r0.len() + 1); assert(texts(acc@) =~= r0.push(ptr(p))); lemma_take(a, tree@, ts, v, ns, i, r0, ps, src, p); ps = ps.push(p); src = src.push(i); }
    else { assert(texts(acc@) =~= r0); lemma_keep(tree@, ts, v, ns, i, r0, ps, src); } }
%loop 1 it1
  invariant it1.seq() == vx_s1@, ids(vx_s1@) =~= us, texts(vx_b1@) =~= pescs(vals(tree@, us.take(it1.index@ as int)))
%loop_start 1
  let ghost b0 = vx_b1@;
  proof { assert(ids(vx_s1@)[it1.index@ as int] == ix(vx_x1)); let k = it1.index@ as int; assert(us.take(k + 1) =~= us.take(k).push(us[k])); }
%loop_end 1
  proof { let k = it1.index@ as int; assert(vx_b1@ == b0.push(vx_x1_1)); assert(texts(vx_b1@) =~= texts(b0).push(vx_x1_1@)); assert(vx_x1_1@ == pesc(tree@[us[k]].val)); assert(vals(tree@, us.take(k + 1)) =~= vals(tree@, us.take(k)).push(tree@[us[k]].val)); }
%after_loop 1
  proof { assert(us.take(us.len() as int) =~= us); assert(texts(vx_b1@) == pescs(vals(tree@, us))); assert(vx_b1@.len() == texts(vx_b1@).len()); assert(us.len() == pescs(vals(tree@, us)).len()); }
%after_loop 0
  proof { lemma_collected(a, tree@, ts, v, ns, texts(acc@), ps, src); assert(resolves(texts(acc@), ps, ts, v)); }
%src rust/pact_models/src/generators/mod.rs
%struct JsonHandler
%fn ContentTypeHandler<Value> for JsonHandler::apply_key
%sub `&dyn GenerateValue<Value>` => `&Generator`
%sub `&HashMap<&str, Value>` => `&VxContext`
%sub `&Box<dyn VariantMatcher + Send + Sync>` => `&VxMatcher`
%base 0
%attr #[verifier::loop_isolation(false)]
%sig
  requires rooted(*key)
  ensures applied(*generator, *context, *matcher, toks(*key), jv(old(self).value), jv(final(self).value))
%body_start
  let ghost v = jv(self.value); let ghost ts = toks(*key); let ghost mut ps: Seq<Seq<Step>> = seq![]; let ghost mut rs: Seq<Seq<char>> = seq![];
%tail
  proof { rs = texts(expanded_paths@); ps = choose|ps: Seq<Seq<Step>>| #[trigger] resolves(rs, ps, ts, v); assert(resolves(rs, ps, ts, v)); if rs.len() == 0 { assert(applying(*generator, *context, *matcher, ts, v, v, ps, 0)); if ts.len() > 0 { lemma_apply_done(*generator, *context, *matcher, ts, v, rs, v, ps); } }
    else { assert(selects(ts, v, ps[0])); assert forall|j: int| 0 <= j < ps.len() implies at(v, #[trigger] ps[j]) is Some by { assert(selects(ts, v, ps[j])); } } }
%loop 0 it
  invariant it.seq() == vx_s0@, rs == texts(vx_s0@), resolves(rs, ps, ts, v), applying(*generator, *context, *matcher, ts, v, jv(self.value), ps, it.index@ as int)
%loop_start 0
  let ghost w = jv(self.value); let ghost i = it.index@ as int;
  proof { assert(rs[i] == pointer_str@); assert(rs[i] == ptr(ps[i])); assert(at(w, ps[i]) is Some); assert(at(w, ps[i]) == at(v, ps[i])); lemma_put_any(w, ps[i]); }
%loop_end 0
  proof { if fails(*generator, *context, *matcher, at(v, ps[i])->0) && jv(self.value) == w { lemma_apply_same(*generator, *context, *matcher, ts, v, rs, w, ps, i); } else { let x = at(jv(self.value), ps[i])->0; lemma_apply_step(*generator, *context, *matcher, ts, v, rs, w, ps, i, x, jv(self.value)); } }
%after_loop 0
  proof { assert(ps[0].len() > 0); lemma_apply_done(*generator, *context, *matcher, ts, v, rs, jv(self.value), ps); }
%body_end
  proof { if ts.len() == 0 { assert(ts =~= seq![]); lemma_apply_root(*generator, *context, *matcher, v, jv(self.value)); } }
%fn ContentTypeHandler<Value> for JsonHandler::process_body
%sub `&HashMap<DocPath, Generator>` => `&VxGens`
%sub `&HashMap<&str, Value>` => `&VxContext`
%sub `&Box<dyn VariantMatcher + Send + Sync>` => `&VxMatcher`
%sub `self.value.to_string().into()` => `vx_bytes(self.value.to_string())`
%sub `"application/json".into()` => `vx_ct_from("application/json")`
%sub `Result<OptionalBody, String>` => `Result<OptionalBody, VxError>`
%base 0 vx_gen_entries
%attr #[verifier::loop_isolation(false)]
%sig
  requires all_rooted(*generators)
  ensures run(*generators, *context, *matcher, *mode, jv(old(self).value), jv(final(self).value)), r is Ok, bq(r->Ok_0) == BQ::Present(utf8(jprint(jv(final(self).value))), Some(ct_from("application/json"@)), None)
%body_start
  let ghost v = jv(self.value); let ghost mut vs: Seq<JV> = seq![v]; let ghost mut es: Seq<(DocPath, Generator)> = seq![];
%after_base 0
  proof { es = derefs(vx_s0@); assert(entries(*generators, es)); }
%loop 0 it
  invariant it.seq() == vx_s0@, es == derefs(vx_s0@), ran(es, it.index@ as int, *context, *matcher, *mode, vs), vs[0] == v, vs.last() == jv(self.value)
%loop_start 0
  let ghost i = it.index@ as int; let ghost w0 = jv(self.value);
  proof { assert(es[i] == (*key, *generator)); }
%loop_end 0
  proof { let v2 = vs.push(jv(self.value)); assert forall|k: int| 0 <= k < i + 1 implies if for_mode((#[trigger] es[k]).1, *mode) { applied(es[k].1, *context, *matcher, toks(es[k].0), v2[k], v2[k + 1]) } else { v2[k + 1] == v2[k] } by { if k < i { assert(v2[k] == vs[k]); assert(v2[k + 1] == vs[k + 1]); } } vs = v2; }
%after_loop 0
  proof { assert(entries(*generators, es) && ran(es, es.len() as int, *context, *matcher, *mode, vs)); }
