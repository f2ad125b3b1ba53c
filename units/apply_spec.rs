// ---- what a path selects in a JSON document ----
verus! {
/// a step into a document: the field of an object, or the item of a list
pub ghost enum Step { F(Seq<char>), I(nat) }
pub open spec fn child(v: JV, k: Step) -> Option<JV> { match (v, k) { (JV::Obj(m), Step::F(n)) => if m.dom().contains(n) { Some(m[n]) } else { None }, (JV::Arr(a), Step::I(i)) => if i < a.len() { Some(a[i as int]) } else { None }, _ => None } }
/// the value at a place in a document
pub open spec fn at(v: JV, p: Seq<Step>) -> Option<JV> decreases p.len() { if p.len() == 0 { Some(v) } else { match at(v, p.drop_last()) { Some(c) => child(c, p.last()), None => None } } }
pub open spec fn fits(t: Tok, k: Step) -> bool { match (t, k) { (Tok::Field(n), Step::F(m)) => n == m, (Tok::Star, Step::F(_)) => true, (Tok::Index(i), Step::I(j)) => i == j, (Tok::StarIndex, Step::I(_)) => true, _ => false } }
/// the first tokens of a path fit the steps
pub open spec fn fit(ts: Seq<Tok>, p: Seq<Step>) -> bool { p.len() <= ts.len() && forall|i: int| 0 <= i < p.len() ==> fits(ts[i], #[trigger] p[i]) }
/// the place is one that the path (without its root marker) selects
pub open spec fn selects(ts: Seq<Tok>, v: JV, p: Seq<Step>) -> bool { p.len() == ts.len() && fit(ts, p) && at(v, p) is Some }
pub open spec fn stext(k: Step) -> Seq<char> { match k { Step::F(n) => n, Step::I(i) => dec(i) } }
pub open spec fn stexts(p: Seq<Step>) -> Seq<Seq<char>> { p.map_values(|k: Step| stext(k)) }
/// str::replace of a character
pub open spec fn repl(s: Seq<char>, c: char, t: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { seq![] } else if s.last() == c { repl(s.drop_last(), c, t) + t } else { repl(s.drop_last(), c, t).push(s.last()) } }
/// the text of a step in a JSON pointer (RFC 6901): ~ is written ~0 and / is written ~1
pub open spec fn pesc(s: Seq<char>) -> Seq<char> { repl(repl(s, '~', seq!['~', '0']), '/', seq!['~', '1']) }
pub open spec fn pointer(p: Seq<Seq<char>>) -> Seq<char> decreases p.len() { if p.len() == 0 { seq![] } else { pointer(p.drop_last()).push('/') + pesc(p.last()) } }
pub open spec fn ptr(p: Seq<Step>) -> Seq<char> { pointer(stexts(p)) }
pub proof fn lemma_digit(a: nat, b: nat) requires a < 10, b < 10, digit(a) == digit(b) ensures a == b { assert(digit(a) as int == 48 + a); assert(digit(b) as int == 48 + b); }
pub proof fn lemma_dec_inj(a: nat, b: nat) requires dec(a) == dec(b) ensures a == b decreases a {
  if a < 10 && b < 10 { assert(seq![digit(a)][0] == digit(a)); assert(seq![digit(b)][0] == digit(b)); lemma_digit(a, b); } else if a < 10 { lemma_dec_len(b / 10); assert(dec(b).len() > 1); } else if b < 10 { lemma_dec_len(a / 10); assert(dec(a).len() > 1); }
  else { assert(dec(a) == dec(a / 10).push(digit(a % 10))); assert(dec(b) == dec(b / 10).push(digit(b % 10))); assert(dec(a).last() == digit(a % 10)); assert(dec(b).last() == digit(b % 10)); lemma_digit(a % 10, b % 10); assert(dec(a).drop_last() =~= dec(a / 10)); assert(dec(b).drop_last() =~= dec(b / 10)); lemma_dec_inj(a / 10, b / 10); } }
pub proof fn lemma_dec_len(a: nat) ensures dec(a).len() > 0 decreases a { if a >= 10 { lemma_dec_len(a / 10); } }
pub proof fn lemma_at_prefix(v: JV, p: Seq<Step>, n: int) requires 0 <= n <= p.len(), at(v, p) is Some ensures at(v, p.take(n)) is Some decreases p.len() {
  if n < p.len() { lemma_at_prefix(v, p.drop_last(), n); assert(p.drop_last().take(n) =~= p.take(n)); } else { assert(p.take(n) =~= p); } }
pub proof fn lemma_at_step(v: JV, q: Seq<Step>, k: Step) requires at(v, q) is Some ensures at(v, q.push(k)) == child(at(v, q)->0, k) { assert(q.push(k).drop_last() =~= q); }
pub proof fn lemma_at_cat(v: JV, q: Seq<Step>, p: Seq<Step>) requires at(v, q) is Some ensures at(v, q + p) == at(at(v, q)->0, p) decreases p.len() {
  if p.len() == 0 { assert(q + p =~= q); } else { lemma_at_cat(v, q, p.drop_last()); assert((q + p).drop_last() =~= q + p.drop_last()); } }
// ---- indextree: an arena of nodes, each under its parent ----
pub ghost struct TN { pub par: int, pub val: Seq<char> }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Arena<T> { _p: std::marker::PhantomData<T> }
#[derive(Clone, Copy)] #[verifier::external_body] pub struct NodeId { _p: () }
#[verifier::external_body] pub struct Node { _p: () }
pub type Tree = Seq<TN>;
impl View for Arena<String> { type V = Tree; uninterp spec fn view(&self) -> Tree; }
pub uninterp spec fn ix(n: NodeId) -> int;
pub broadcast axiom fn axiom_ix(a: NodeId, b: NodeId) ensures #[trigger] ix(a) == #[trigger] ix(b) ==> a == b;
pub uninterp spec fn nval(n: Node) -> Seq<char>;
pub uninterp spec fn nleaf(n: Node) -> bool;
/// a parent comes before its children
pub open spec fn wf(t: Tree) -> bool { forall|i: int| 0 <= i < t.len() ==> -1 <= (#[trigger] t[i]).par < i }
pub open spec fn has(t: Tree, n: NodeId) -> bool { 0 <= ix(n) < t.len() }
pub open spec fn below(t: Tree, r: int, m: int) -> bool decreases m { m == r || (0 <= r < m < t.len() && r <= t[m].par < m && below(t, r, t[m].par)) }
/// the texts from below r down to m
pub open spec fn npath(t: Tree, r: int, m: int) -> Seq<Seq<char>> decreases m { if !(0 <= r < m < t.len() && r <= t[m].par < m) { seq![] } else { npath(t, r, t[m].par).push(t[m].val) } }
/// the nodes from m up to the top
pub open spec fn ups(t: Tree, m: int) -> Seq<int> decreases m + 1 { if !(0 <= m < t.len() && -1 <= t[m].par < m) { seq![] } else { seq![m] + ups(t, t[m].par) } }
impl Arena<String> {
  #[verifier::external_body] pub fn new() -> (r: Arena<String>) ensures r@.len() == 0 { unimplemented!() }
  #[verifier::external_body] pub fn new_node(&mut self, s: String) -> (r: NodeId) ensures final(self)@ == old(self)@.push(TN { par: -1, val: s@ }), ix(r) == old(self)@.len() { unimplemented!() }
  #[verifier::external_body] pub fn index(&self, n: NodeId) -> (r: &Node) requires has(self@, n) ensures nval(*r) == self@[ix(n)].val, nleaf(*r) == (forall|m: int| 0 <= m < self@.len() ==> (#[trigger] self@[m]).par != ix(n)) { unimplemented!() }
}
impl Node {
  #[verifier::external_body] pub fn get(&self) -> (r: &String) ensures r@ == nval(*self) { unimplemented!() }
  #[verifier::external_body] pub fn first_child(&self) -> (r: Option<NodeId>) ensures r is None == nleaf(*self) { unimplemented!() }
}
impl NodeId {
  #[verifier::external_body] pub fn append_value(self, s: String, tree: &mut Arena<String>) -> (r: NodeId) requires has(old(tree)@, self) ensures final(tree)@ == old(tree)@.push(TN { par: ix(self), val: s@ }), ix(r) == old(tree)@.len() { unimplemented!() }
  /// the node and all the nodes below it, each once
  #[verifier::external_body] pub fn descendants(self, tree: &Arena<String>) -> (r: Vec<NodeId>) requires has(tree@, self), wf(tree@)
    ensures forall|i: int| 0 <= i < r@.len() ==> has(tree@, #[trigger] r@[i]) && below(tree@, ix(self), ix(r@[i])), forall|i: int, j: int| 0 <= i < j < r@.len() ==> ix(#[trigger] r@[i]) != ix(#[trigger] r@[j]),
      forall|m: int| #[trigger] below(tree@, ix(self), m) ==> exists|i: int| 0 <= i < r@.len() && ix(#[trigger] r@[i]) == m { unimplemented!() }
  /// the node and the nodes above it
  #[verifier::external_body] pub fn ancestors(self, tree: &Arena<String>) -> (r: Vec<NodeId>) requires has(tree@, self), wf(tree@)
    ensures r@.len() == ups(tree@, ix(self)).len(), forall|i: int| 0 <= i < r@.len() ==> ix(#[trigger] r@[i]) == ups(tree@, ix(self))[i] { unimplemented!() }
}
impl PartialEq for NodeId { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) ensures r == (ix(*self) == ix(*o)) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for NodeId { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { ix(*self) == ix(*o) } }
/// the tree has only grown
pub open spec fn grown(a: Tree, b: Tree) -> bool { a.len() <= b.len() && wf(b) && b.take(a.len() as int) == a }
pub proof fn lemma_grown(a: Tree, b: Tree, r: int, m: int) requires grown(a, b), wf(a), m < a.len(), 0 <= r ensures npath(a, r, m) == npath(b, r, m), below(a, r, m) == below(b, r, m) decreases m {
  if m > r { assert(b.take(a.len() as int)[m] == b[m]); if r <= a[m].par { lemma_grown(a, b, r, a[m].par); } } }
pub proof fn lemma_grown_trans(a: Tree, b: Tree, c: Tree) requires grown(a, b), grown(b, c) ensures grown(a, c) { assert(c.take(a.len() as int) =~= c.take(b.len() as int).take(a.len() as int)); }
pub proof fn lemma_through(t: Tree, r: int, n: int, m: int) requires wf(t), 0 <= r <= n, below(t, r, n), below(t, n, m), n < t.len() ensures below(t, r, m), npath(t, r, m) =~= npath(t, r, n) + npath(t, n, m) decreases m {
  if m != n { lemma_through(t, r, n, t[m].par); } }
// ---- the nodes that a path makes ----
/// node m stands for a place p of the document
pub open spec fn stands(t: Tree, r: int, ts: Seq<Tok>, v: JV, m: int, p: Seq<Step>) -> bool { npath(t, r, m) == stexts(p) && at(v, p) is Some && 0 < p.len() <= ts.len() && (p.len() == ts.len() ==> fit(ts, p)) }
pub open spec fn stands_some(t: Tree, r: int, ts: Seq<Tok>, v: JV, m: int) -> bool { below(t, r, m) && exists|p: Seq<Step>| #[trigger] stands(t, r, ts, v, m, p) }
pub open spec fn sound(a: Tree, t: Tree, r: int, ts: Seq<Tok>, v: JV) -> bool { forall|m: int| a.len() <= m < t.len() ==> #[trigger] stands_some(t, r, ts, v, m) }
pub open spec fn unique(a: Tree, t: Tree, r: int) -> bool { forall|m: int, n: int| a.len() <= m < n < t.len() ==> #[trigger] npath(t, r, m) != #[trigger] npath(t, r, n) }
pub open spec fn found(a: Tree, t: Tree, r: int, p: Seq<Step>) -> bool { exists|m: int| a.len() <= m < t.len() && #[trigger] npath(t, r, m) == stexts(p) }
pub open spec fn complete(a: Tree, t: Tree, r: int, ts: Seq<Tok>, v: JV) -> bool { forall|p: Seq<Step>| #[trigger] selects(ts, v, p) && p.len() > 0 ==> found(a, t, r, p) }
pub open spec fn queried(a: Tree, t: Tree, r: int, ts: Seq<Tok>, v: JV) -> bool { grown(a, t) && sound(a, t, r, ts, v) && unique(a, t, r) && complete(a, t, r, ts, v) }
/// a path without its root marker
pub open spec fn eff(ts: Seq<Tok>) -> Seq<Tok> { if ts.len() > 0 && ts[0] == Tok::Root { ts.skip(1) } else { ts } }
/// the nodes made so far are the places q.take(1), q.take(2), ... up to q, where the cursor is
pub open spec fn chained(a: Tree, t: Tree, r: int, v: JV, q: Seq<Step>, c: int) -> bool {
  &&& grown(a, t) && at(v, q) is Some && t.len() == a.len() + q.len() && c == (if q.len() == 0 { r } else { t.len() - 1 })
  &&& forall|i: int| 0 <= i < q.len() ==> (#[trigger] t[a.len() + i]).val == stext(q[i]) && t[a.len() + i].par == (if i == 0 { r } else { a.len() + i - 1 }) }
/// after n tokens every place that the path selects goes through q
pub open spec fn through(ts: Seq<Tok>, v: JV, q: Seq<Step>, n: int) -> bool { q.len() <= n <= ts.len() && (q.len() == n ==> fit(ts, q)) && forall|p: Seq<Step>| #[trigger] selects(ts, v, p) ==> q.len() == n && p.take(n) == q }
pub proof fn lemma_chained(a: Tree, t: Tree, r: int, v: JV, q: Seq<Step>, c: int, i: int) requires chained(a, t, r, v, q, c), wf(t), 0 <= r < a.len(), 0 <= i < q.len()
  ensures below(t, r, a.len() + i), npath(t, r, a.len() + i) == stexts(q.take(i + 1)) decreases i {
  let m = a.len() + i; assert(t[m].val == stext(q[i])); if i > 0 { lemma_chained(a, t, r, v, q, c, i - 1); } else { assert(npath(t, r, r) =~= seq![]); assert(stexts(q.take(0)) =~= seq![]); assert(below(t, r, r)); }
  assert(t[m].par == (if i == 0 { r } else { a.len() + i - 1 })); assert(below(t, r, t[m].par));
  assert(npath(t, r, m) =~= stexts(q.take(i)).push(stext(q[i]))); assert(stexts(q.take(i + 1)) =~= stexts(q.take(i)).push(stext(q[i]))); }
pub proof fn lemma_cursor(a: Tree, t: Tree, r: int, v: JV, q: Seq<Step>, c: int) requires chained(a, t, r, v, q, c), wf(t), 0 <= r < a.len() ensures 0 <= c < t.len(), below(t, r, c), npath(t, r, c) == stexts(q) {
  if q.len() > 0 { lemma_chained(a, t, r, v, q, c, q.len() - 1); assert(q.take(q.len() as int) =~= q); } else { assert(stexts(q) =~= seq![]); assert(npath(t, r, r) =~= seq![]); } }
/// one more node at the end of the chain
pub proof fn lemma_chain_step(a: Tree, t: Tree, t2: Tree, r: int, v: JV, q: Seq<Step>, c: int, k: Step) requires chained(a, t, r, v, q, c), wf(t), 0 <= r < a.len(), child(at(v, q)->0, k) is Some, t2 == t.push(TN { par: c, val: stext(k) })
  ensures chained(a, t2, r, v, q.push(k), t2.len() - 1), at(v, q.push(k)) == child(at(v, q)->0, k) {
  lemma_at_step(v, q, k); assert(t2.take(a.len() as int) =~= t.take(a.len() as int)); assert forall|i: int| 0 <= i < t2.len() implies -1 <= (#[trigger] t2[i]).par < i by { if i < t.len() { assert(t2[i] == t[i]); } }
  assert forall|i: int| 0 <= i < q.push(k).len() implies (#[trigger] t2[a.len() + i]).val == stext(q.push(k)[i]) && t2[a.len() + i].par == (if i == 0 { r } else { a.len() + i - 1 }) by { if i < q.len() { assert(t2[a.len() + i] == t[a.len() + i]); } } }
/// a token that names one child, which is there
pub proof fn lemma_through_step(ts: Seq<Tok>, v: JV, q: Seq<Step>, n: int, k: Step) requires through(ts, v, q, n), n < ts.len(), at(v, q) is Some, child(at(v, q)->0, k) is Some, fits(ts[n], k), !(ts[n] is Star), !(ts[n] is StarIndex) ensures through(ts, v, q.push(k), n + 1) {
  let q2 = q.push(k);
  assert forall|p: Seq<Step>| #[trigger] selects(ts, v, p) implies q2.len() == n + 1 && p.take(n + 1) == q2 by { assert(p.take(n) == q); assert(fits(ts[n], p[n])); assert(p[n] == k); assert(p.take(n + 1) =~= p.take(n).push(p[n])); }
  if q2.len() == n + 1 { assert forall|i: int| 0 <= i < q2.len() implies fits(ts[i], #[trigger] q2[i]) by { if i < n { assert(q2[i] == q[i]); } } } }
/// a token that no child fits: nothing is selected
pub proof fn lemma_dead(ts: Seq<Tok>, v: JV, q: Seq<Step>, n: int) requires through(ts, v, q, n), n < ts.len(), at(v, q) is Some, forall|k: Step| #[trigger] fits(ts[n], k) ==> child(at(v, q)->0, k) is None
  ensures forall|p: Seq<Step>| !(#[trigger] selects(ts, v, p)), q.len() <= n ==> through(ts, v, q, n + 1) {
  assert forall|p: Seq<Step>| !(#[trigger] selects(ts, v, p)) by { if selects(ts, v, p) { assert(p.take(n) == q); assert(fits(ts[n], p[n])); lemma_at_prefix(v, p, n + 1); assert(p.take(n + 1) =~= q.push(p[n])); lemma_at_step(v, q, p[n]); } } }
/// a chain that cannot go on, or has used all of the path
pub proof fn lemma_chain_done(a: Tree, t: Tree, r: int, ts: Seq<Tok>, v: JV, q: Seq<Step>, c: int) requires chained(a, t, r, v, q, c), wf(t), wf(a), 0 <= r < a.len(), q.len() <= ts.len(), q.len() == ts.len() ==> fit(ts, q), forall|p: Seq<Step>| #[trigger] selects(ts, v, p) ==> p == q
  ensures queried(a, t, r, ts, v) {
  assert forall|m: int| a.len() <= m < t.len() implies #[trigger] stands_some(t, r, ts, v, m) by { let i = m - a.len(); lemma_chained(a, t, r, v, q, c, i); lemma_at_prefix(v, q, i + 1); if i + 1 == q.len() { assert(q.take(i + 1) =~= q); } assert(stands(t, r, ts, v, m, q.take(i + 1))); }
  assert forall|m: int, n: int| a.len() <= m < n < t.len() implies #[trigger] npath(t, r, m) != #[trigger] npath(t, r, n) by { lemma_chained(a, t, r, v, q, c, m - a.len()); lemma_chained(a, t, r, v, q, c, n - a.len()); assert(stexts(q.take(m - a.len() + 1)).len() != stexts(q.take(n - a.len() + 1)).len()); }
  assert forall|p: Seq<Step>| #[trigger] selects(ts, v, p) && p.len() > 0 implies found(a, t, r, p) by { lemma_cursor(a, t, r, v, q, c); assert(npath(t, r, c) == stexts(p)); } }
// ---- a token for all the children ----
/// the children of the cursor have been dealt with up to number i
pub open spec fn starred(a: Tree, t0: Tree, t: Tree, r: int, ts: Seq<Tok>, v: JV, q: Seq<Step>, ks: Seq<Step>, i: int) -> bool {
  &&& grown(a, t) && grown(t0, t) && sound(a, t, r, ts, v) && unique(a, t, r)
  &&& forall|m: int| t0.len() <= m < t.len() ==> in_child(#[trigger] npath(t, r, m), q, ks, i)
  &&& forall|p: Seq<Step>| #[trigger] selects(ts, v, p) && child_done(p, q, ks, i) ==> found(a, t, r, p) }
pub open spec fn in_child(x: Seq<Seq<char>>, q: Seq<Step>, ks: Seq<Step>, i: int) -> bool { x.len() > q.len() && exists|j: int| 0 <= j < i && stext(#[trigger] ks[j]) == x[q.len() as int] }
pub open spec fn child_done(p: Seq<Step>, q: Seq<Step>, ks: Seq<Step>, i: int) -> bool { p.len() > q.len() && exists|j: int| 0 <= j < i && #[trigger] ks[j] == p[q.len() as int] }
pub open spec fn other_texts(ks: Seq<Step>) -> bool { forall|i: int, j: int| 0 <= i < j < ks.len() ==> stext(#[trigger] ks[i]) != stext(#[trigger] ks[j]) }
pub proof fn lemma_star_start(a: Tree, t: Tree, r: int, ts: Seq<Tok>, v: JV, q: Seq<Step>, c: int, n: int, ks: Seq<Step>) requires chained(a, t, r, v, q, c), wf(t), wf(a), 0 <= r < a.len(), through(ts, v, q, n), n < ts.len() ensures starred(a, t, t, r, ts, v, q, ks, 0) {
  assert(t.take(t.len() as int) =~= t);
  assert forall|m: int| a.len() <= m < t.len() implies #[trigger] stands_some(t, r, ts, v, m) by { let i = m - a.len(); lemma_chained(a, t, r, v, q, c, i); lemma_at_prefix(v, q, i + 1); assert(stands(t, r, ts, v, m, q.take(i + 1))); }
  assert forall|m: int, n: int| a.len() <= m < n < t.len() implies #[trigger] npath(t, r, m) != #[trigger] npath(t, r, n) by { lemma_chained(a, t, r, v, q, c, m - a.len()); lemma_chained(a, t, r, v, q, c, n - a.len()); assert(stexts(q.take(m - a.len() + 1)).len() != stexts(q.take(n - a.len() + 1)).len()); } }
pub proof fn lemma_stexts_cat(q: Seq<Step>, p: Seq<Step>) ensures stexts(q + p) == stexts(q) + stexts(p) { assert(stexts(q + p) =~= stexts(q) + stexts(p)); }
pub open spec fn via(t: Tree, r: int, n: int, rem: Seq<Tok>, cv: JV, qk: Seq<Step>, m: int, p: Seq<Step>) -> bool { stands(t, n, rem, cv, m, p) && below(t, r, m) && npath(t, r, m) == stexts(qk) + npath(t, n, m) && npath(t, r, m) == stexts(qk + p) }
pub open spec fn via_some(t: Tree, r: int, n: int, rem: Seq<Tok>, cv: JV, qk: Seq<Step>, m: int) -> bool { exists|p: Seq<Step>| #[trigger] via(t, r, n, rem, cv, qk, m, p) }
pub proof fn lemma_star_step(a: Tree, t0: Tree, t: Tree, t2: Tree, t3: Tree, r: int, ts: Seq<Tok>, v: JV, q: Seq<Step>, c: int, n: int, ks: Seq<Step>, i: int, rem: Seq<Tok>)
  requires chained(a, t0, r, v, q, c), wf(a), wf(t0), wf(t), 0 <= r < a.len(), through(ts, v, q, n), n < ts.len(), rem == ts.skip(n + 1), ts[n] is Star || ts[n] is StarIndex, other_texts(ks),
    starred(a, t0, t, r, ts, v, q, ks, i), 0 <= i < ks.len(), child(at(v, q)->0, ks[i]) is Some, fits(ts[n], ks[i]), t2 == t.push(TN { par: c, val: stext(ks[i]) }), queried(t2, t3, t.len() as int, eff(rem), child(at(v, q)->0, ks[i])->0)
  ensures starred(a, t0, t3, r, ts, v, q, ks, i + 1) {
  let k = ks[i]; let cv = child(at(v, q)->0, k)->0; let nn = t.len() as int; let qk = q.push(k);
  lemma_cursor(a, t0, r, v, q, c);
  assert(t2.take(t.len() as int) =~= t); assert(wf(t2)) by { assert forall|m: int| 0 <= m < t2.len() implies -1 <= (#[trigger] t2[m]).par < m by { if m < t.len() { assert(t2[m] == t[m]); } } }
  assert(grown(t, t2)); lemma_grown_trans(t, t2, t3); lemma_grown_trans(t0, t, t3); lemma_grown_trans(a, t, t3);
  lemma_grown(t0, t3, r, c);
  assert(t3.take(t2.len() as int)[nn] == t2[nn]); assert(t3[nn].par == c && t3[nn].val == stext(k));
  assert(below(t3, r, nn)); assert(stexts(qk) =~= stexts(q).push(stext(k))); assert(npath(t3, r, nn) =~= stexts(qk)); lemma_at_step(v, q, k);
  // the nodes below the new one
  assert forall|m: int| t2.len() <= m < t3.len() implies #[trigger] via_some(t3, r, nn, eff(rem), cv, qk, m) by {
    assert(stands_some(t3, nn, eff(rem), cv, m)); let p = choose|p: Seq<Step>| #[trigger] stands(t3, nn, eff(rem), cv, m, p); lemma_through(t3, r, nn, m); lemma_stexts_cat(qk, p); assert(via(t3, r, nn, eff(rem), cv, qk, m, p)); }
  assert forall|m: int| t2.len() <= m < t3.len() implies (#[trigger] npath(t3, r, m)).len() > qk.len() && npath(t3, r, m)[q.len() as int] == stext(k) && npath(t3, r, m) == stexts(qk) + npath(t3, nn, m) by { assert(via_some(t3, r, nn, eff(rem), cv, qk, m)); let p = choose|p: Seq<Step>| #[trigger] via(t3, r, nn, eff(rem), cv, qk, m, p); assert(stexts(qk + p)[q.len() as int] == stext(k)); }
  assert forall|m: int| a.len() <= m < t3.len() implies #[trigger] stands_some(t3, r, ts, v, m) by {
    if m < t.len() { assert(stands_some(t, r, ts, v, m)); let p = choose|p: Seq<Step>| #[trigger] stands(t, r, ts, v, m, p); lemma_grown(t, t3, r, m); assert(stands(t3, r, ts, v, m, p)); }
    else if m == nn { if qk.len() == ts.len() { assert forall|j: int| 0 <= j < qk.len() implies fits(ts[j], #[trigger] qk[j]) by { if j < q.len() { assert(qk[j] == q[j]); } } } assert(stands(t3, r, ts, v, m, qk)); }
    else { assert(via_some(t3, r, nn, eff(rem), cv, qk, m)); let p = choose|p: Seq<Step>| #[trigger] via(t3, r, nn, eff(rem), cv, qk, m, p); let w = qk + p; lemma_at_cat(v, qk, p);
      if w.len() == ts.len() { assert(eff(rem) == rem); assert forall|j: int| 0 <= j < w.len() implies fits(ts[j], #[trigger] w[j]) by { if j < q.len() { assert(w[j] == q[j]); } else if j > q.len() { assert(w[j] == p[j - q.len() - 1]); assert(ts[j] == rem[j - n - 1]); } } }
      assert(stands(t3, r, ts, v, m, w)); } }
  assert forall|m: int| t0.len() <= m < t3.len() implies in_child(#[trigger] npath(t3, r, m), q, ks, i + 1) by {
    if m < t.len() { lemma_grown(t, t3, r, m); assert(in_child(npath(t, r, m), q, ks, i)); let j = choose|j: int| 0 <= j < i && stext(#[trigger] ks[j]) == npath(t, r, m)[q.len() as int]; assert(stext(ks[j]) == npath(t3, r, m)[q.len() as int]); }
    else if m == nn { assert(npath(t3, r, m)[q.len() as int] == stext(ks[i])); }
    else { assert(npath(t3, r, m)[q.len() as int] == stext(ks[i])); } }
  assert forall|m1: int, m2: int| a.len() <= m1 < m2 < t3.len() implies #[trigger] npath(t3, r, m1) != #[trigger] npath(t3, r, m2) by {
    if m2 < t.len() { lemma_grown(t, t3, r, m1); lemma_grown(t, t3, r, m2); assert(npath(t, r, m1) != npath(t, r, m2)); }
    else if m1 < t0.len() { lemma_grown(t0, t3, r, m1); lemma_chained(a, t0, r, v, q, c, m1 - a.len()); assert(npath(t3, r, m1).len() <= q.len()); assert(in_child(npath(t3, r, m2), q, ks, i + 1)); }
    else if m1 < t.len() { lemma_grown(t, t3, r, m1); assert(in_child(npath(t, r, m1), q, ks, i)); let j = choose|j: int| 0 <= j < i && stext(#[trigger] ks[j]) == npath(t, r, m1)[q.len() as int]; assert(npath(t3, r, m2)[q.len() as int] == stext(k)); assert(stext(ks[j]) != stext(ks[i])); }
    else if m1 == nn { assert(npath(t3, nn, m2).len() > 0) by { assert(via_some(t3, r, nn, eff(rem), cv, qk, m2)); } assert(npath(t3, r, m2).len() > npath(t3, r, m1).len()); }
    else { assert(npath(t3, nn, m1) != npath(t3, nn, m2)); if npath(t3, r, m1) == npath(t3, r, m2) { assert((stexts(qk) + npath(t3, nn, m1)).skip(qk.len() as int) =~= npath(t3, nn, m1)); assert((stexts(qk) + npath(t3, nn, m2)).skip(qk.len() as int) =~= npath(t3, nn, m2)); } } }
  assert forall|p: Seq<Step>| #[trigger] selects(ts, v, p) && child_done(p, q, ks, i + 1) implies found(a, t3, r, p) by {
    let j = choose|j: int| 0 <= j < i + 1 && #[trigger] ks[j] == p[q.len() as int];
    if j < i { assert(child_done(p, q, ks, i)); assert(found(a, t, r, p)); let m = choose|m: int| a.len() <= m < t.len() && #[trigger] npath(t, r, m) == stexts(p); lemma_grown(t, t3, r, m); assert(npath(t3, r, m) == stexts(p)); }
    else { assert(p.take(n) == q); let w = p.skip(n + 1); assert(p =~= qk + w); lemma_stexts_cat(qk, w);
      if w.len() == 0 { assert(p =~= qk); assert(npath(t3, r, nn) == stexts(p)); }
      else { lemma_at_cat(v, qk, w); assert forall|x: int| 0 <= x < w.len() implies fits(rem[x], #[trigger] w[x]) by { assert(w[x] == p[x + n + 1]); assert(rem[x] == ts[x + n + 1]); } assert(fits(rem[0], w[0])); assert(eff(rem) == rem); assert(selects(rem, cv, w)); assert(found(t2, t3, nn, w));
        let m = choose|m: int| t2.len() <= m < t3.len() && #[trigger] npath(t3, nn, m) == stexts(w); assert(npath(t3, r, m) == stexts(qk) + npath(t3, nn, m)) by { assert(via_some(t3, r, nn, eff(rem), cv, qk, m)); let p = choose|p: Seq<Step>| #[trigger] via(t3, r, nn, eff(rem), cv, qk, m, p); } assert(npath(t3, r, m) == stexts(p)); } } } }
/// all the children the token fits have been dealt with
pub proof fn lemma_star_end(a: Tree, t0: Tree, t: Tree, r: int, ts: Seq<Tok>, v: JV, q: Seq<Step>, n: int, ks: Seq<Step>)
  requires starred(a, t0, t, r, ts, v, q, ks, ks.len() as int), through(ts, v, q, n), n < ts.len(), at(v, q) is Some, forall|k: Step| fits(ts[n], k) && #[trigger] child(at(v, q)->0, k) is Some ==> ks.contains(k)
  ensures queried(a, t, r, ts, v) {
  assert forall|p: Seq<Step>| #[trigger] selects(ts, v, p) && p.len() > 0 implies found(a, t, r, p) by { assert(p.take(n) == q); assert(fits(ts[n], p[n])); lemma_at_prefix(v, p, n + 1); assert(p.take(n + 1) =~= q.push(p[n])); lemma_at_step(v, q, p[n]); assert(ks.contains(p[n])); assert(child_done(p, q, ks, ks.len() as int)); } }
}
