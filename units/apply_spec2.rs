// ---- the places a path selects, as JSON pointers ----
verus! {
/// str::replace(c, t)
#[verifier::external_body] pub fn vx_replace(s: &String, c: char, t: &str) -> (r: String) ensures r@ == repl(s@, c, t@) { unimplemented!() }
/// iter().rev().join("/")
#[verifier::external_body] pub fn vx_rev_join(v: &Vec<String>) -> (r: String) ensures r@ == slashed(texts(v@).reverse()) { unimplemented!() }
pub open spec fn slashed(v: Seq<Seq<char>>) -> Seq<char> decreases v.len() { if v.len() == 0 { seq![] } else if v.len() == 1 { v[0] } else { slashed(v.drop_last()).push('/') + v.last() } }
pub open spec fn pescs(v: Seq<Seq<char>>) -> Seq<Seq<char>> { v.map_values(|s: Seq<char>| pesc(s)) }
/// joining the escaped parts after an empty one gives the pointer
pub proof fn lemma_slashed(p: Seq<Seq<char>>) ensures slashed(seq![Seq::<char>::empty()] + pescs(p)) == pointer(p) decreases p.len() {
  let v = seq![Seq::<char>::empty()] + pescs(p);
  if p.len() == 0 { assert(v.len() == 1); assert(v[0] == Seq::<char>::empty()); } else { lemma_slashed(p.drop_last()); assert(v.drop_last() =~= seq![Seq::<char>::empty()] + pescs(p.drop_last())); assert(v.last() == pesc(p.last())); } }
pub open spec fn vals(t: Tree, n: Seq<int>) -> Seq<Seq<char>> { n.map_values(|m: int| t[m].val) }
pub proof fn lemma_ups(t: Tree, m: int) requires wf(t), t.len() > 0, t[0].par == -1, 0 <= m < t.len(), below(t, 0, m)
  ensures vals(t, ups(t, m)).reverse() == seq![t[0].val] + npath(t, 0, m), ups(t, m).len() == npath(t, 0, m).len() + 1, forall|i: int| 0 <= i < ups(t, m).len() ==> 0 <= #[trigger] ups(t, m)[i] < t.len() decreases m {
  if m == 0 { assert(ups(t, -1) =~= seq![]); assert(ups(t, 0) =~= seq![0]); assert(vals(t, ups(t, 0)).reverse() =~= seq![t[0].val] + npath(t, 0, 0)); }
  else { lemma_ups(t, t[m].par); let a = vals(t, ups(t, t[m].par)); assert(vals(t, ups(t, m)) =~= seq![t[m].val] + a); assert(vals(t, ups(t, m)).reverse() =~= a.reverse().push(t[m].val)); } }
pub proof fn lemma_fit_inj(ts: Seq<Tok>, p: Seq<Step>, q: Seq<Step>) requires fit(ts, p), fit(ts, q), stexts(p) == stexts(q) ensures p == q {
  assert(stexts(p).len() == p.len()); assert(stexts(q).len() == q.len());
  assert forall|i: int| 0 <= i < p.len() implies p[i] == q[i] by { assert(stexts(p)[i] == stext(p[i])); assert(stexts(q)[i] == stext(q[i])); assert(fits(ts[i], p[i])); assert(fits(ts[i], q[i])); match (p[i], q[i]) { (Step::I(a), Step::I(b)) => { lemma_dec_inj(a, b); } _ => {} } }
  assert(p =~= q); }
pub proof fn lemma_node_text(t: Tree, m: int) requires wf(t), t.len() > 0, t[0].par == -1, t[0].val.len() == 0, 0 <= m < t.len(), below(t, 0, m) ensures slashed(pescs(vals(t, ups(t, m))).reverse()) == pointer(npath(t, 0, m)) {
  lemma_ups(t, m); let e = Seq::<char>::empty(); assert(t[0].val =~= e); assert(repl(e, '~', seq!['~', '0']) == e); assert(pesc(e) == e);
  let w = npath(t, 0, m); assert(pescs(vals(t, ups(t, m))).reverse() =~= pescs(vals(t, ups(t, m)).reverse())); assert(pescs(seq![e] + w) =~= seq![e] + pescs(w)); lemma_slashed(w); }
/// the pointers are those of the places that the path selects, each once
pub open spec fn resolves(r: Seq<Seq<char>>, ps: Seq<Seq<Step>>, ts: Seq<Tok>, v: JV) -> bool {
  &&& ps.len() == r.len() && ps.no_duplicates()
  &&& forall|i: int| 0 <= i < ps.len() ==> r[i] == ptr(#[trigger] ps[i]) && ps[i].len() > 0 && selects(ts, v, ps[i])
  &&& forall|p: Seq<Step>| #[trigger] selects(ts, v, p) && p.len() > 0 ==> ps.contains(p) }
pub open spec fn resolved(r: Seq<Seq<char>>, ts: Seq<Tok>, v: JV) -> bool { exists|ps: Seq<Seq<Step>>| #[trigger] resolves(r, ps, ts, v) }
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
/// the nodes up to number i have been looked at; result j comes from node number src[j]
pub open spec fn collected(t: Tree, ts: Seq<Tok>, v: JV, ns: Seq<int>, i: int, r: Seq<Seq<char>>, ps: Seq<Seq<Step>>, src: Seq<int>) -> bool {
  &&& r.len() == ps.len() && src.len() == ps.len()
  &&& forall|j: int| 0 <= j < ps.len() ==> r[j] == ptr(#[trigger] ps[j]) && ps[j].len() > 0 && selects(ts, v, ps[j]) && 0 <= src[j] < i && ns[src[j]] > 0 && npath(t, 0, ns[src[j]]) == stexts(ps[j])
  &&& forall|j: int, k: int| 0 <= j < k < src.len() ==> #[trigger] src[j] < #[trigger] src[k]
  &&& forall|x: int| 0 <= x < i && #[trigger] ns[x] > 0 && npath(t, 0, ns[x]).len() == ts.len() ==> took(ps, npath(t, 0, ns[x])) }
pub open spec fn took(ps: Seq<Seq<Step>>, w: Seq<Seq<char>>) -> bool { exists|j: int| 0 <= j < ps.len() && stexts(#[trigger] ps[j]) == w }
pub open spec fn ids(ns: Seq<NodeId>) -> Seq<int> { ns.map_values(|n: NodeId| ix(n)) }
pub open spec fn start(a: Tree) -> bool { a.len() == 1 && a[0].par == -1 && a[0].val.len() == 0 }
pub proof fn lemma_leaf(a: Tree, t: Tree, ts: Seq<Tok>, v: JV, m: int) requires start(a), queried(a, t, 0, ts, v), wf(a), 0 < m < t.len(), npath(t, 0, m).len() == ts.len() ensures forall|n: int| 0 <= n < t.len() ==> (#[trigger] t[n]).par != m, exists|p: Seq<Step>| #[trigger] stands(t, 0, ts, v, m, p) && selects(ts, v, p) {
  assert(stands_some(t, 0, ts, v, m)); let p = choose|p: Seq<Step>| #[trigger] stands(t, 0, ts, v, m, p); assert(stexts(p).len() == p.len()); assert(selects(ts, v, p));
  assert forall|n: int| 0 <= n < t.len() implies (#[trigger] t[n]).par != m by { if t[n].par == m { assert(n > m); assert(stands_some(t, 0, ts, v, n)); let p2 = choose|p: Seq<Step>| #[trigger] stands(t, 0, ts, v, n, p); assert(stexts(p2).len() == p2.len()); assert(npath(t, 0, n).len() == npath(t, 0, m).len() + 1); } } }
pub proof fn lemma_keep(t: Tree, ts: Seq<Tok>, v: JV, ns: Seq<int>, i: int, r: Seq<Seq<char>>, ps: Seq<Seq<Step>>, src: Seq<int>) requires collected(t, ts, v, ns, i, r, ps, src), 0 <= i < ns.len(), ns[i] > 0 ==> npath(t, 0, ns[i]).len() != ts.len() ensures collected(t, ts, v, ns, i + 1, r, ps, src) {}
pub proof fn lemma_take(a: Tree, t: Tree, ts: Seq<Tok>, v: JV, ns: Seq<int>, i: int, r: Seq<Seq<char>>, ps: Seq<Seq<Step>>, src: Seq<int>, p: Seq<Step>)
  requires collected(t, ts, v, ns, i, r, ps, src), 0 <= i < ns.len(), ns[i] > 0, npath(t, 0, ns[i]) == stexts(p), selects(ts, v, p), p.len() > 0
  ensures collected(t, ts, v, ns, i + 1, r.push(ptr(p)), ps.push(p), src.push(i)) {
  let ps2 = ps.push(p);
  assert forall|x: int| 0 <= x < i + 1 && #[trigger] ns[x] > 0 && npath(t, 0, ns[x]).len() == ts.len() implies took(ps2, npath(t, 0, ns[x])) by {
    if x < i { assert(took(ps, npath(t, 0, ns[x]))); let j = choose|j: int| 0 <= j < ps.len() && stexts(#[trigger] ps[j]) == npath(t, 0, ns[x]); assert(stexts(ps2[j]) == npath(t, 0, ns[x])); } else { assert(stexts(ps2[ps.len() as int]) == npath(t, 0, ns[x])); } }
  assert forall|j: int| 0 <= j < ps2.len() implies r.push(ptr(p))[j] == ptr(#[trigger] ps2[j]) && ps2[j].len() > 0 && selects(ts, v, ps2[j]) && 0 <= src.push(i)[j] < i + 1 && ns[src.push(i)[j]] > 0 && npath(t, 0, ns[src.push(i)[j]]) == stexts(ps2[j]) by { if j < ps.len() { assert(ps2[j] == ps[j]); } }
  let s2 = src.push(i); assert forall|j: int, k: int| 0 <= j < k < s2.len() implies #[trigger] s2[j] < #[trigger] s2[k] by { assert(ps[j] == ps[j]); if k < src.len() { assert(src[j] < src[k]); } else { assert(s2[j] == src[j]); } } }
pub open spec fn each_once(t: Tree, ns: Seq<int>) -> bool {
  &&& forall|i: int| 0 <= i < ns.len() ==> 0 <= #[trigger] ns[i] < t.len() && below(t, 0, ns[i])
  &&& forall|i: int, j: int| 0 <= i < j < ns.len() ==> #[trigger] ns[i] != #[trigger] ns[j]
  &&& forall|m: int| #[trigger] below(t, 0, m) ==> exists|i: int| 0 <= i < ns.len() && #[trigger] ns[i] == m }
pub proof fn lemma_collected(a: Tree, t: Tree, ts: Seq<Tok>, v: JV, ns: Seq<int>, r: Seq<Seq<char>>, ps: Seq<Seq<Step>>, src: Seq<int>)
  requires start(a), wf(a), queried(a, t, 0, ts, v), each_once(t, ns), collected(t, ts, v, ns, ns.len() as int, r, ps, src) ensures resolves(r, ps, ts, v) {
  assert forall|j: int, k: int| 0 <= j < k < ps.len() implies #[trigger] ps[j] != #[trigger] ps[k] by { assert(src[j] < src[k]); assert(ptr(ps[j]) == r[j] && ptr(ps[k]) == r[k]); let x = ns[src[j]]; let y = ns[src[k]]; assert(x != y); assert(npath(t, 0, x) == stexts(ps[j])); assert(npath(t, 0, y) == stexts(ps[k])); if x < y { assert(npath(t, 0, x) != npath(t, 0, y)); } else { assert(npath(t, 0, y) != npath(t, 0, x)); } }
  assert(ps.no_duplicates());
  assert forall|p: Seq<Step>| #[trigger] selects(ts, v, p) && p.len() > 0 implies ps.contains(p) by {
    assert(found(a, t, 0, p)); let m = choose|m: int| a.len() <= m < t.len() && #[trigger] npath(t, 0, m) == stexts(p); assert(stands_some(t, 0, ts, v, m)); assert(below(t, 0, m)); let x = choose|i: int| 0 <= i < ns.len() && #[trigger] ns[i] == m;
    assert(stexts(p).len() == p.len()); assert(took(ps, npath(t, 0, ns[x]))); let j = choose|j: int| 0 <= j < ps.len() && stexts(#[trigger] ps[j]) == npath(t, 0, m); lemma_fit_inj(ts, p, ps[j]); } }
// ---- changing the value at a place ----
/// a container with another value for one of its children
pub open spec fn with(c: JV, k: Step, w: JV) -> JV { match (c, k) { (JV::Obj(m), Step::F(n)) => JV::Obj(m.insert(n, w)), (JV::Arr(a), Step::I(i)) => JV::Arr(a.update(i as int, w)), _ => c } }
pub open spec fn put(v: JV, q: Seq<Step>, w: JV) -> JV decreases q.len() { if q.len() == 0 { w } else { match at(v, q.drop_last()) { Some(c) => put(v, q.drop_last(), with(c, q.last(), w)), None => v } } }
pub open spec fn prefix(q: Seq<Step>, p: Seq<Step>) -> bool { q.len() <= p.len() && p.take(q.len() as int) == q }
/// neither place is inside the other
pub open spec fn apart(q: Seq<Step>, p: Seq<Step>) -> bool { !prefix(q, p) && !prefix(p, q) }
/// what a value is apart from the values of its children
pub ghost enum HV { Leaf(JV), Obj(Set<Seq<char>>), Arr(nat) }
pub open spec fn hd(v: JV) -> HV { match v { JV::Obj(m) => HV::Obj(m.dom()), JV::Arr(a) => HV::Arr(a.len()), v => HV::Leaf(v) } }
pub open spec fn hdo(v: Option<JV>) -> Option<HV> { match v { Some(v) => Some(hd(v)), None => None } }
pub proof fn lemma_put_at(v: JV, q: Seq<Step>, w: JV) requires at(v, q) is Some ensures at(put(v, q, w), q) == Some(w) decreases q.len() {
  if q.len() > 0 { let c = at(v, q.drop_last())->0; lemma_put_at(v, q.drop_last(), with(c, q.last(), w)); } }
pub proof fn lemma_put_any(v: JV, q: Seq<Step>) requires at(v, q) is Some ensures forall|w: JV| at(#[trigger] put(v, q, w), q) == Some(w) { assert forall|w: JV| at(#[trigger] put(v, q, w), q) == Some(w) by { lemma_put_at(v, q, w); } }
pub proof fn lemma_at_first(v: JV, s: Seq<Step>) requires s.len() > 0 ensures at(v, s) == (match child(v, s[0]) { Some(c) => at(c, s.skip(1)), None => None }) {
  let f = s.take(1); assert(f.drop_last() =~= seq![]); assert(at(v, f.drop_last()) == Some(v)); assert(f.last() == s[0]); assert(at(v, f) == child(v, s[0])); assert(f + s.skip(1) =~= s);
  if at(v, f) is Some { lemma_at_cat(v, f, s.skip(1)); } else if at(v, s) is Some { lemma_at_prefix(v, s, 1); } }
/// the value at a place that the changed place is not above keeps its kind, fields and length; if the changed place is not below it either, all of it
pub proof fn lemma_put_frame(v: JV, q: Seq<Step>, w: JV, p: Seq<Step>) requires at(v, q) is Some, !prefix(q, p) ensures hdo(at(put(v, q, w), p)) == hdo(at(v, p)), !prefix(p, q) ==> at(put(v, q, w), p) == at(v, p) decreases q.len() {
  if q.len() == 0 { assert(p.take(0) =~= q); } else {
    let q0 = q.drop_last(); let k = q.last(); let c = at(v, q0)->0; let c2 = with(c, k, w); assert(q =~= q0.push(k));
    if !prefix(q0, p) { lemma_put_frame(v, q0, c2, p); if !prefix(p, q) && prefix(p, q0) { assert(q.take(p.len() as int) =~= q0.take(p.len() as int)); } }
    else { let s = p.skip(q0.len() as int); assert(p =~= q0 + s); lemma_put_at(v, q0, c2); lemma_at_cat(v, q0, s); lemma_at_cat(put(v, q0, c2), q0, s); 
      if s.len() == 0 { assert(p =~= q0); assert(at(v, p) == Some(c)); assert(q.take(p.len() as int) =~= p); match (c, k) { (JV::Obj(m), Step::F(n)) => { assert(m.insert(n, w).dom() =~= m.dom()); } _ => {} } }
      else { assert(s[0] == p[q0.len() as int]); if s[0] == k { assert(p.take(q.len() as int) =~= q); } assert(child(c2, s[0]) == child(c, s[0])); lemma_at_first(c, s); lemma_at_first(c2, s); } } } }
// ---- generators ----
#[verifier::external_body] pub struct Generator { _p: () }
#[verifier::external_body] pub struct VxContext { _p: () }
#[verifier::external_body] pub struct VxMatcher { _p: () }
/// the generator can make this value from that one / can fail on it
pub uninterp spec fn makes(g: Generator, c: VxContext, m: VxMatcher, old: JV, new: JV) -> bool;
pub uninterp spec fn fails(g: Generator, c: VxContext, m: VxMatcher, old: JV) -> bool;
/// the value after the generator has been applied: one that it makes, or the one there was if it fails
pub open spec fn settled(g: Generator, c: VxContext, m: VxMatcher, old: JV, new: JV) -> bool { makes(g, c, m, old, new) || (fails(g, c, m, old) && new == old) }
impl Generator {
  #[verifier::external_body] pub fn generate_value(&self, v: &Value, c: &VxContext, m: &VxMatcher) -> (r: Result<Value, VxError>) ensures r matches Ok(n) ==> makes(*self, *c, *m, jv(*v), jv(n)), r is Err ==> fails(*self, *c, *m, jv(*v)) { unimplemented!() }
  /// by the contract proved in gen_json
  #[verifier::external_body] pub fn corresponds_to_mode(&self, mode: &GeneratorTestMode) -> (r: bool) ensures r == for_mode(*self, *mode) { unimplemented!() }
}
pub uninterp spec fn for_mode(g: Generator, m: GeneratorTestMode) -> bool;
impl Value {
  /// the value at a JSON pointer (RFC 6901)
  #[verifier::external_body] pub fn pointer_mut(&mut self, p: &str) -> (r: Option<&mut Value>)
    ensures r is None ==> jv(*final(self)) == jv(*old(self)), forall|q: Seq<Step>| #[trigger] ptr(q) == p@ && at(jv(*old(self)), q) is Some ==> r is Some && Some(jv(*r->0)) == at(jv(*old(self)), q) && jv(*final(self)) == put(jv(*old(self)), q, jv(*final(r->0))) { unimplemented!() }
}
/// the place is one that the path selects, or inside one
pub open spec fn covers(ts: Seq<Tok>, v: JV, p: Seq<Step>) -> bool { p.len() >= ts.len() && selects(ts, v, p.take(ts.len() as int)) }
pub open spec fn clear(ts: Seq<Tok>, v: JV, p: Seq<Step>) -> bool { forall|q: Seq<Step>| #[trigger] selects(ts, v, q) ==> apart(q, p) }
/// a generator has been applied to the places of a path, and to nothing else
pub open spec fn applied(g: Generator, c: VxContext, m: VxMatcher, ts: Seq<Tok>, v: JV, w: JV) -> bool {
  &&& forall|p: Seq<Step>| #[trigger] selects(ts, v, p) ==> at(w, p) is Some && settled(g, c, m, at(v, p)->0, at(w, p)->0)
  &&& forall|p: Seq<Step>| !covers(ts, v, p) ==> hdo(#[trigger] at(w, p)) == hdo(at(v, p))
  &&& forall|p: Seq<Step>| clear(ts, v, p) ==> #[trigger] at(w, p) == at(v, p) }
/// the first i places have been dealt with
pub open spec fn applying(g: Generator, c: VxContext, m: VxMatcher, ts: Seq<Tok>, v: JV, w: JV, ps: Seq<Seq<Step>>, i: int) -> bool {
  &&& forall|j: int| 0 <= j < ps.len() ==> at(w, #[trigger] ps[j]) is Some && (if j < i { settled(g, c, m, at(v, ps[j])->0, at(w, ps[j])->0) } else { at(w, ps[j]) == at(v, ps[j]) })
  &&& forall|p: Seq<Step>| !covers(ts, v, p) ==> hdo(#[trigger] at(w, p)) == hdo(at(v, p))
  &&& forall|p: Seq<Step>| clear(ts, v, p) ==> #[trigger] at(w, p) == at(v, p) }
pub proof fn lemma_apply_step(g: Generator, c: VxContext, m: VxMatcher, ts: Seq<Tok>, v: JV, r: Seq<Seq<char>>, w: JV, ps: Seq<Seq<Step>>, i: int, x: JV, w2: JV)
  requires resolves(r, ps, ts, v), applying(g, c, m, ts, v, w, ps, i), 0 <= i < ps.len(), w2 == put(w, ps[i], x), settled(g, c, m, at(v, ps[i])->0, x) ensures applying(g, c, m, ts, v, w2, ps, i + 1) {
  let q = ps[i]; assert(at(w, q) is Some); assert(selects(ts, v, q)); lemma_put_at(w, q, x);
  assert forall|j: int| 0 <= j < ps.len() implies at(w2, #[trigger] ps[j]) is Some && (if j < i + 1 { settled(g, c, m, at(v, ps[j])->0, at(w2, ps[j])->0) } else { at(w2, ps[j]) == at(v, ps[j]) }) by {
    if j != i { assert(selects(ts, v, ps[j])); assert(ps[j] != q); assert(ps[j].take(q.len() as int) =~= ps[j]); assert(q.take(q.len() as int) =~= q); lemma_put_frame(w, q, x, ps[j]); } }
  assert forall|p: Seq<Step>| !covers(ts, v, p) implies hdo(#[trigger] at(w2, p)) == hdo(at(v, p)) by { assert(!prefix(q, p)); lemma_put_frame(w, q, x, p); assert(hdo(at(w, p)) == hdo(at(v, p))); }
  assert forall|p: Seq<Step>| clear(ts, v, p) implies #[trigger] at(w2, p) == at(v, p) by { assert(apart(q, p)); lemma_put_frame(w, q, x, p); assert(at(w, p) == at(v, p)); } }
pub proof fn lemma_apply_same(g: Generator, c: VxContext, m: VxMatcher, ts: Seq<Tok>, v: JV, r: Seq<Seq<char>>, w: JV, ps: Seq<Seq<Step>>, i: int)
  requires resolves(r, ps, ts, v), applying(g, c, m, ts, v, w, ps, i), 0 <= i < ps.len(), fails(g, c, m, at(v, ps[i])->0) ensures applying(g, c, m, ts, v, w, ps, i + 1) { assert(selects(ts, v, ps[i])); }
pub proof fn lemma_apply_done(g: Generator, c: VxContext, m: VxMatcher, ts: Seq<Tok>, v: JV, r: Seq<Seq<char>>, w: JV, ps: Seq<Seq<Step>>)
  requires resolves(r, ps, ts, v), applying(g, c, m, ts, v, w, ps, ps.len() as int), ts.len() > 0 ensures applied(g, c, m, ts, v, w) {
  assert forall|p: Seq<Step>| #[trigger] selects(ts, v, p) implies at(w, p) is Some && settled(g, c, m, at(v, p)->0, at(w, p)->0) by { assert(ps.contains(p)); let j = choose|j: int| 0 <= j < ps.len() && ps[j] == p; assert(at(w, ps[j]) is Some); } }
pub proof fn lemma_apply_root(g: Generator, c: VxContext, m: VxMatcher, v: JV, w: JV) requires settled(g, c, m, v, w) ensures applied(g, c, m, seq![], v, w) {
  let ts = Seq::<Tok>::empty();
  assert forall|p: Seq<Step>| !covers(ts, v, p) implies hdo(#[trigger] at(w, p)) == hdo(at(v, p)) by { assert(p.take(0) =~= seq![]); assert(selects(ts, v, p.take(0))); }
  assert forall|p: Seq<Step>| clear(ts, v, p) implies #[trigger] at(w, p) == at(v, p) by { let e = Seq::<Step>::empty(); assert(selects(ts, v, e)); assert(p.take(0) =~= e); assert(apart(e, p)); }
  assert forall|p: Seq<Step>| #[trigger] selects(ts, v, p) implies at(w, p) is Some && settled(g, c, m, at(v, p)->0, at(w, p)->0) by { assert(p =~= seq![]); } }
// ---- all the generators of a body ----
#[verifier::external_body] pub struct VxGens { _p: () }
/// the entries of the map, in the order that it gives them
pub uninterp spec fn entries(g: VxGens, es: Seq<(DocPath, Generator)>) -> bool;
#[verifier::external_body] pub fn vx_gen_entries<'a>(g: &'a VxGens) -> (r: Vec<(&'a DocPath, &'a Generator)>) ensures entries(*g, derefs(r@)) { unimplemented!() }
pub open spec fn derefs(s: Seq<(&DocPath, &Generator)>) -> Seq<(DocPath, Generator)> { s.map_values(|e: (&DocPath, &Generator)| (*e.0, *e.1)) }
pub open spec fn rooted(d: DocPath) -> bool { d.path_tokens@.len() > 0 && tv(d.path_tokens@[0]) == Tok::Root }
pub open spec fn all_rooted(g: VxGens) -> bool { forall|es: Seq<(DocPath, Generator)>| #[trigger] entries(g, es) ==> forall|i: int| 0 <= i < es.len() ==> rooted(#[trigger] es[i].0) }
pub open spec fn toks(d: DocPath) -> Seq<Tok> { eff(tvs(d.path_tokens@)) }
/// the entries for the mode have been applied one after another, giving the values vs
pub open spec fn ran(es: Seq<(DocPath, Generator)>, n: int, c: VxContext, m: VxMatcher, mode: GeneratorTestMode, vs: Seq<JV>) -> bool {
  vs.len() == n + 1 && forall|i: int| 0 <= i < n ==> if for_mode((#[trigger] es[i]).1, mode) { applied(es[i].1, c, m, toks(es[i].0), vs[i], vs[i + 1]) } else { vs[i + 1] == vs[i] } }
pub open spec fn run(g: VxGens, c: VxContext, m: VxMatcher, mode: GeneratorTestMode, v: JV, w: JV) -> bool { exists|es: Seq<(DocPath, Generator)>, vs: Seq<JV>| #[trigger] entries(g, es) && #[trigger] ran(es, es.len() as int, c, m, mode, vs) && vs[0] == v && vs.last() == w }
/// a place that is not among or inside those that a generator for the mode selects
pub open spec fn untouched(es: Seq<(DocPath, Generator)>, mode: GeneratorTestMode, v: JV, p: Seq<Step>) -> bool { forall|i: int| 0 <= i < es.len() && for_mode((#[trigger] es[i]).1, mode) ==> !covers(toks(es[i].0), v, p) }
pub proof fn lemma_untouched(es: Seq<(DocPath, Generator)>, c: VxContext, m: VxMatcher, mode: GeneratorTestMode, vs: Seq<JV>, n: int, p: Seq<Step>)
  requires ran(es, es.len() as int, c, m, mode, vs), 0 <= n <= es.len(), untouched(es, mode, vs[0], p) ensures hdo(at(vs[n], p)) == hdo(at(vs[0], p)) decreases n {
  if n > 0 { lemma_untouched(es, c, m, mode, vs, n - 1, p); let i = n - 1;
    if for_mode(es[i].1, mode) { let ts = toks(es[i].0); assert(!covers(ts, vs[0], p));
      if covers(ts, vs[i], p) { let q = p.take(ts.len() as int); assert(untouched(es, mode, vs[0], q)) by { assert forall|k: int| 0 <= k < es.len() && for_mode((#[trigger] es[k]).1, mode) implies !covers(toks(es[k].0), vs[0], q) by { let tk = toks(es[k].0); assert(!covers(tk, vs[0], p)); if covers(tk, vs[0], q) { assert(q.take(tk.len() as int) =~= p.take(tk.len() as int)); } } }
        lemma_untouched(es, c, m, mode, vs, i, q); assert(selects(ts, vs[0], q)); }
      assert(hdo(at(vs[i + 1], p)) == hdo(at(vs[i], p))); } } }
/// the path cannot select a place above, at or below the given one in any document
pub open spec fn path_apart(ts: Seq<Tok>, q: Seq<Step>) -> bool { forall|p: Seq<Step>| p.len() == ts.len() && #[trigger] fit(ts, p) ==> apart(p, q) }
pub proof fn lemma_kept(es: Seq<(DocPath, Generator)>, c: VxContext, m: VxMatcher, mode: GeneratorTestMode, vs: Seq<JV>, a: int, b: int, q: Seq<Step>)
  requires ran(es, es.len() as int, c, m, mode, vs), 0 <= a <= b <= es.len(), forall|i: int| a <= i < b && for_mode((#[trigger] es[i]).1, mode) ==> path_apart(toks(es[i].0), q) ensures at(vs[b], q) == at(vs[a], q) decreases b - a {
  if a < b { lemma_kept(es, c, m, mode, vs, a, b - 1, q); let i = b - 1; if for_mode(es[i].1, mode) { assert(clear(toks(es[i].0), vs[i], q)); assert(at(vs[i + 1], q) == at(vs[i], q)); } } }
/// THEOREM: after the generators of a body have been applied (in whatever order), everything outside the selected places is as it was: at each place outside them there is the same
/// kind of value with the same fields, length or scalar
pub proof fn theorem_outside(es: Seq<(DocPath, Generator)>, c: VxContext, m: VxMatcher, mode: GeneratorTestMode, vs: Seq<JV>, p: Seq<Step>)
  requires ran(es, es.len() as int, c, m, mode, vs), untouched(es, mode, vs[0], p) ensures hdo(at(vs.last(), p)) == hdo(at(vs[0], p)) { lemma_untouched(es, c, m, mode, vs, es.len() as int, p); }
/// THEOREM: a place that a generator's path selects, and that no other generator's path can meet, ends with a value that this generator makes from the value it had
pub proof fn theorem_selected(es: Seq<(DocPath, Generator)>, c: VxContext, m: VxMatcher, mode: GeneratorTestMode, vs: Seq<JV>, i: int, q: Seq<Step>)
  requires ran(es, es.len() as int, c, m, mode, vs), 0 <= i < es.len(), for_mode(es[i].1, mode), selects(toks(es[i].0), vs[0], q), forall|j: int| 0 <= j < es.len() && j != i && for_mode((#[trigger] es[j]).1, mode) ==> path_apart(toks(es[j].0), q)
  ensures at(vs.last(), q) is Some, settled(es[i].1, c, m, at(vs[0], q)->0, at(vs.last(), q)->0) {
  lemma_kept(es, c, m, mode, vs, 0, i, q); lemma_kept(es, c, m, mode, vs, i + 1, es.len() as int, q); assert(selects(toks(es[i].0), vs[i], q)); }
}
