%unit eq_parts
%include eq_base.vx
%include json_std.rs
%prelude
verus! {
vx_part!(MatchingRules, RulesQ, part_rules); vx_part!(Generators, GensQ, part_gens); vx_part!(Bytes, BytesQ, part_bytes);
#[verifier::external_body] pub struct ContentType { _p: () } #[verifier::external_body] pub struct ContentTypeHint { _p: () } #[verifier::external_body] pub struct InteractionMarkup { _p: () }
// the text of a float: equal floats, equal texts (0.0 and -0.0 are the same float)
#[verifier::external_body] pub fn vx_float_text(f: F64) -> (r: String) ensures r@ == float_text(fq(f)) { unimplemented!() }
pub uninterp spec fn float_text(f: FQ) -> Seq<char>;
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_upper(s: &str) -> (r: String) ensures r@ == upper(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_lower(s: &str) -> (r: String) ensures r@ == lower(s@) { unimplemented!() }
/// std::collections::hash_map::DefaultHasher::new(): fixed keys, so the result is a function of what it is fed
#[verifier::external_body] pub struct DefaultHasher { _p: () }
impl Hasher for DefaultHasher { uninterp spec fn fed(&self) -> Seq<Tk>; }
pub uninterp spec fn digest(f: Seq<Tk>) -> u64;
pub uninterp spec fn hex(n: u64) -> Seq<char>;
impl DefaultHasher { #[verifier::external_body] pub fn new() -> (r: Self) ensures r.fed() == Seq::<Tk>::empty() { unimplemented!() } #[verifier::external_body] pub fn finish(&self) -> (r: u64) ensures r == digest(self.fed()) { unimplemented!() } }
#[verifier::external_body] pub fn vx_hex(n: u64) -> (r: String) ensures r@ == hex(n) { unimplemented!() }
pub open spec fn key_of(f: Seq<Tk>) -> Seq<char> { hex(digest(f)) }
pub type PairsQ = Map<Seq<char>, VQ>;
// ---- JSON values ----
pub open spec fn num_feed(n: NQ) -> Seq<Tk> { (match n { NQ::Pos(u) => feed_of(u), _ => seq![] }) + feed_of(float_text(num_float(n))) + (match n { NQ::Pos(u) => if u <= i64::MAX as u64 { feed_of(u as i64) } else { seq![] }, NQ::Neg(i) => feed_of(i), _ => seq![] }) }
pub open spec fn json_feed(q: VQ) -> Seq<Tk> decreases q, 0nat { match q { VQ::Null => seq![], VQ::Bool(b) => feed_of(b), VQ::Num(n) => num_feed(n), VQ::Str(s) => feed_of(s), VQ::Arr(a) => arr_feed(a, a.len()), VQ::Obj(m) => obj_feed(m, skeys::<String>(m.dom()), m.dom().len()) } }
pub open spec fn arr_feed(a: Seq<VQ>, n: nat) -> Seq<Tk> decreases a, n { if n == 0 || n > a.len() { seq![] } else { arr_feed(a, (n - 1) as nat) + json_feed(a[n - 1]) } }
pub open spec fn obj_feed(m: PairsQ, ks: Seq<Seq<char>>, n: nat) -> Seq<Tk> decreases m, n { if n == 0 || n > ks.len() || !m.dom().contains(ks[n - 1]) { seq![] } else { obj_feed(m, ks, (n - 1) as nat) + feed_of(ks[n - 1]) + json_feed(m[ks[n - 1]]) } }
}
%src rust/pact_models/src/json_utils.rs
%fn hash_json
%attr #[verifier::exec_allows_no_decreases_clause]
%sub `(num + 0.0).to_string()` => `vx_float_text(num)`
%sig
  ensures final(state).fed() == old(state).fed() + json_feed(vq(*v))
%body_start
  broadcast use axiom_vq, axiom_nq; let ghost st0 = state.fed();
%loop 0 it
  invariant st0 == old(state).fed(), *v matches Value::Array(a) && *values == a, it.seq().len() == values@.len(), forall|i: int| 0 <= i < values@.len() ==> *(#[trigger] it.seq()[i]) == values@[i], state.fed() == st0 + arr_feed(vqs(values@), it.index@ as nat)
%loop_end 0
  proof { let i = it.index@ as int; assert(vqs(values@)[i] == vq(*value)); assert(state.fed() =~= st0 + arr_feed(vqs(values@), (i + 1) as nat)); }
%base 1 vx_pairs
%loop 1 it
  invariant st0 == old(state).fed(), it.seq() == vx_s1@, jpairs(vx_s1@, jq(*map)), state.fed() == st0 + obj_feed(jq(*map), skeys::<String>(jq(*map).dom()), it.index@ as nat)
%loop_end 1
  proof { let i = it.index@ as int; let ks = skeys::<String>(jq(*map).dom()); assert(ks[i] == vx_s1@.map_values(|p: (&String, &Value)| p.0@)[i]); assert(jq(*map).dom().contains(vx_s1@[i].0@)); assert(state.fed() =~= st0 + obj_feed(jq(*map), ks, (i + 1) as nat)); }
%loop_start 1
  proof { let i = it.index@ as int; assert(vx_s1@[i].0@ == k@); assert(*vx_s1@[i].1 == *v); }
%src rust/pact_models/src/provider_states.rs
%struct ProviderState
%prelude
verus! {
pub ghost struct PSQ { pub name: Seq<char>, pub params: PairsQ }
pub open spec fn param_feed(q: VQ) -> Seq<Tk> { match q { VQ::Num(NQ::Pos(u)) => feed_of(u), VQ::Num(NQ::Neg(i)) => feed_of(i), VQ::Num(NQ::Float(f)) => feed_of(float_text(num_float(NQ::Float(f)))), VQ::Str(s) => feed_of(s), VQ::Bool(b) => feed_of(b), _ => seq![] } }
pub open spec fn params_feed(m: PairsQ, ks: Seq<Seq<char>>, n: nat) -> Seq<Tk> decreases n { if n == 0 || n > ks.len() { seq![] } else { params_feed(m, ks, (n - 1) as nat) + (feed_of(ks[n - 1]) + param_feed(m[ks[n - 1]])) } }
pub open spec fn ps_feed(q: PSQ) -> Seq<Tk> { let ks = skeys::<String>(q.params.dom()); feed_of(q.name) + params_feed(q.params, ks, ks.len()) }
impl VxEq for ProviderState { type Q = PSQ; open spec fn q(&self) -> PSQ { PSQ { name: self.name@, params: q_map(self.params@) } } fn vx_eqf(&self, o: &Self) -> (r: bool) { self.eq_(o) } }
impl Hash for ProviderState { open spec fn feed(q: PSQ) -> Seq<Tk> { ps_feed(q) } fn hash<H: Hasher>(&self, state: &mut H) { self.hash_(state) } }
}
%fn PartialEq for ProviderState::eq
%rename eq_
%eq
%sig
  ensures r == (self.q() == other.q())
%fn Hash for ProviderState::hash
%rename hash_
%chain
%sub `(n.as_f64().unwrap() + 0.0).to_string()` => `vx_float_text(n.as_f64().unwrap())`
%sig
  ensures final(state).fed() == old(state).fed() + ProviderState::feed(self.q())
%body_start
  broadcast use axiom_vq, axiom_nq; let ghost st0 = state.fed(); let ghost qm = q_map(self.params@); let ghost ks = skeys::<String>(qm.dom());
%base 0
%after_base 0
  proof { assert(qm.dom() =~= self.params@.dom()); assert(entries_of(vx_s0@, self.params@)); assert(kvs(vx_s0@) == ks); assert(state.fed() =~= st0 + (feed_of(self.name@) + params_feed(qm, ks, 0))); }
%loop 0 it
  invariant st0 == old(state).fed(), it.seq() == vx_s0@, entries_of(vx_s0@, self.params@), kvs(vx_s0@) == ks, qm == q_map(self.params@),
    state.fed() == st0 + (feed_of(self.name@) + params_feed(qm, ks, it.index@ as nat))
%loop_start 0
  broadcast use axiom_vq, axiom_nq; let ghost fed1 = state.fed();
  proof { let i = it.index@ as int; assert(vx_s0@[i].0.kv() == kvs(vx_s0@)[i]); assert(self.params@[ks[i]].1 == *v); assert(qm[ks[i]] == v.q()); assert(forall|s: Seq<Tk>| #[trigger] (s + Seq::<Tk>::empty()) =~= s); }
%loop_end 0
  proof { let i = it.index@ as int;
    match v { Value::Number(n) => { let x = nq(*n); match x { NQ::Pos(u) => { assert(state.fed() =~= (fed1 + feed_of(ks[i])) + feed_of(u)); } NQ::Neg(w) => { assert(state.fed() =~= (fed1 + feed_of(ks[i])) + feed_of(w)); } NQ::Float(f) => { assert(state.fed() =~= (fed1 + feed_of(ks[i])) + feed_of(float_text(num_float(x)))); } } }
      Value::String(t) => { assert(state.fed() =~= (fed1 + feed_of(ks[i])) + feed_of(t@)); } Value::Bool(b) => { assert(state.fed() =~= (fed1 + feed_of(ks[i])) + feed_of(*b)); } _ => { assert(state.fed() =~= (fed1 + feed_of(ks[i]))); assert(param_feed(vq(*v)) =~= Seq::<Tk>::empty()); } }
    assert(state.fed() =~= (fed1 + feed_of(ks[i])) + param_feed(vq(*v))); assert(state.fed() =~= st0 + (feed_of(self.name@) + params_feed(qm, ks, (i + 1) as nat))); }
%src rust/pact_models/src/bodies.rs
%enum OptionalBody
%prelude
verus! {
pub ghost enum BQ { Missing, Empty, Null, Present(BytesQ) }
pub open spec fn bdisc(q: BQ) -> u64 { match q { BQ::Missing => 0, BQ::Empty => 1, BQ::Null => 2, BQ::Present(_) => 3 } }
pub open spec fn body_q(b: OptionalBody) -> BQ { match b { OptionalBody::Missing => BQ::Missing, OptionalBody::Empty => BQ::Empty, OptionalBody::Null => BQ::Null, OptionalBody::Present(b, _, _) => BQ::Present(b.q()) } }
pub open spec fn body_feed(q: BQ) -> Seq<Tk> { feed_of(bdisc(q)) + match q { BQ::Present(b) => feed_of(b), _ => seq![] } }
#[verifier::external_body] pub fn vx_discr(b: &OptionalBody) -> (d: VxDiscr) ensures d.d == bdisc(body_q(*b)) { unimplemented!() }
impl VxEq for OptionalBody { type Q = BQ; open spec fn q(&self) -> BQ { body_q(*self) } fn vx_eqf(&self, o: &Self) -> (r: bool) { self.eq_(o) } }
impl Hash for OptionalBody { open spec fn feed(q: BQ) -> Seq<Tk> { body_feed(q) } fn hash<H: Hasher>(&self, state: &mut H) { self.hash_(state) } }
}
%fn PartialEq for OptionalBody::eq
%rename eq_
%eq
%sub `b1.eq(b2)` => `vx_eq(b1, b2)`
%sub `mem::discriminant(self)` => `vx_discr(self)`
%sub `mem::discriminant(other)` => `vx_discr(other)`
%sig
  ensures r == (self.q() == other.q())
%fn Hash for OptionalBody::hash
%rename hash_
%sub `mem::discriminant(self)` => `vx_discr(self)`
%sig
  ensures final(state).fed() == old(state).fed() + OptionalBody::feed(self.q())
%before `if let`
  proof { assert(state.fed() + seq![] =~= state.fed()); }
%body_start
  let ghost st0 = state.fed();
%body_end
  proof { assert(state.fed() =~= st0 + body_feed(self.q())); }
%src rust/pact_models/src/v4/message_parts.rs
%struct MessageContents
%src rust/pact_models/src/v4/http_parts.rs
%struct HttpRequest
%struct HttpResponse
%src rust/pact_models/src/request.rs
%struct Request
%src rust/pact_models/src/response.rs
%struct Response
%src rust/pact_models/src/v4/synch_http.rs
%struct SynchronousHttp
%src rust/pact_models/src/v4/sync_message.rs
%struct SynchronousMessage
%src rust/pact_models/src/v4/async_message.rs
%struct AsynchronousMessage
%prelude
verus! {
pub type QueryQ = Map<Seq<char>, Seq<Option<Seq<char>>>>; pub type HeadQ = Map<Seq<char>, Seq<Seq<char>>>;
#[verifier::opaque] pub open spec fn query_feed(m: QueryQ, ks: Seq<Seq<char>>, n: nat) -> Seq<Tk> decreases n { if n == 0 || n > ks.len() { seq![] } else { query_feed(m, ks, (n - 1) as nat) + (feed_of(ks[n - 1]) + feed_of(m[ks[n - 1]])) } }
pub proof fn lemma_query_step(m: QueryQ, ks: Seq<Seq<char>>, n: nat) ensures query_feed(m, ks, 0) == Seq::<Tk>::empty(), 0 < n <= ks.len() ==> query_feed(m, ks, n) == query_feed(m, ks, (n - 1) as nat) + (feed_of(ks[n - 1]) + feed_of(m[ks[n - 1]])) { reveal(query_feed); }
#[verifier::opaque] pub open spec fn head_feed(m: HeadQ, ks: Seq<Seq<char>>, n: nat, low: bool) -> Seq<Tk> decreases n { if n == 0 || n > ks.len() { seq![] } else { head_feed(m, ks, (n - 1) as nat, low) + (feed_of(hk(ks[n - 1], low)) + feed_of(m[ks[n - 1]])) } }
pub proof fn lemma_head_step(m: HeadQ, ks: Seq<Seq<char>>, n: nat, low: bool) ensures head_feed(m, ks, 0, low) == Seq::<Tk>::empty(), 0 < n <= ks.len() ==> head_feed(m, ks, n, low) == head_feed(m, ks, (n - 1) as nat, low) + (feed_of(hk(ks[n - 1], low)) + feed_of(m[ks[n - 1]])) { reveal(head_feed); }
#[verifier::opaque] pub open spec fn meta_feed(m: PairsQ, ks: Seq<Seq<char>>, n: nat) -> Seq<Tk> decreases n { if n == 0 || n > ks.len() { seq![] } else { meta_feed(m, ks, (n - 1) as nat) + (feed_of(ks[n - 1]) + json_feed(m[ks[n - 1]])) } }
pub proof fn lemma_meta_step(m: PairsQ, ks: Seq<Seq<char>>, n: nat) ensures meta_feed(m, ks, 0) == Seq::<Tk>::empty(), 0 < n <= ks.len() ==> meta_feed(m, ks, n) == meta_feed(m, ks, (n - 1) as nat) + (feed_of(ks[n - 1]) + json_feed(m[ks[n - 1]])) { reveal(meta_feed); }
pub open spec fn hk(k: Seq<char>, low: bool) -> Seq<char> { if low { lower(k) } else { k } }
pub open spec fn query_all(q: Option<QueryQ>) -> Seq<Tk> { match q { Some(m) => { let ks = skeys::<String>(m.dom()); query_feed(m, ks, ks.len()) }, None => seq![] } }
pub open spec fn head_all(q: Option<HeadQ>, low: bool) -> Seq<Tk> { match q { Some(m) => { let ks = skeys::<String>(m.dom()); head_feed(m, ks, ks.len(), low) }, None => seq![] } }
pub open spec fn meta_all(m: PairsQ) -> Seq<Tk> { let ks = skeys::<String>(m.dom()); meta_feed(m, ks, ks.len()) }
pub ghost struct ReqQ { pub method: Seq<char>, pub path: Seq<char>, pub query: Option<QueryQ>, pub headers: Option<HeadQ>, pub body: BQ, pub rules: RulesQ, pub gens: GensQ }
pub ghost struct RespQ { pub status: u16, pub headers: Option<HeadQ>, pub body: BQ, pub rules: RulesQ, pub gens: GensQ }
pub ghost struct MsgQ { pub contents: BQ, pub metadata: PairsQ, pub rules: RulesQ, pub gens: GensQ }
pub open spec fn req_feed(q: ReqQ, low: bool) -> Seq<Tk> { feed_of(q.method) + feed_of(q.path) + query_all(q.query) + head_all(q.headers, low) + body_feed(q.body) + feed_of(q.rules) + feed_of(q.gens) }
pub open spec fn resp_feed(q: RespQ, low: bool) -> Seq<Tk> { feed_of(q.status) + head_all(q.headers, low) + body_feed(q.body) + feed_of(q.rules) + feed_of(q.gens) }
pub open spec fn msg_feed(q: MsgQ) -> Seq<Tk> { body_feed(q.contents) + meta_all(q.metadata) + feed_of(q.rules) + feed_of(q.gens) }
pub ghost struct HttpQ { pub key: Option<Seq<char>>, pub description: Seq<char>, pub states: Seq<PSQ>, pub request: ReqQ, pub response: RespQ, pub pending: bool }
pub ghost struct SyncQ { pub key: Option<Seq<char>>, pub description: Seq<char>, pub states: Seq<PSQ>, pub request: MsgQ, pub response: Seq<MsgQ>, pub pending: bool }
pub ghost struct AsyncQ { pub key: Option<Seq<char>>, pub description: Seq<char>, pub states: Seq<PSQ>, pub contents: MsgQ, pub pending: bool }

impl VxEq for HttpRequest { type Q = ReqQ; open spec fn q(&self) -> ReqQ { ReqQ { method: upper(self.method@), path: self.path@, query: self.query.q(), headers: self.headers.q(), body: self.body.q(), rules: self.matching_rules.q(), gens: self.generators.q() } } fn vx_eqf(&self, o: &Self) -> (r: bool) { self.eq_(o) } }
impl Hash for HttpRequest { open spec fn feed(q: ReqQ) -> Seq<Tk> { req_feed(q, true) } fn hash<H: Hasher>(&self, state: &mut H) { self.hash_(state) } }
impl VxEq for Request { type Q = ReqQ; open spec fn q(&self) -> ReqQ { ReqQ { method: self.method@, path: self.path@, query: self.query.q(), headers: self.headers.q(), body: self.body.q(), rules: self.matching_rules.q(), gens: self.generators.q() } } fn vx_eqf(&self, o: &Self) -> (r: bool) { self.eq_(o) } }
impl Hash for Request { open spec fn feed(q: ReqQ) -> Seq<Tk> { req_feed(q, false) } fn hash<H: Hasher>(&self, state: &mut H) { self.hash_(state) } }
impl VxEq for HttpResponse { type Q = RespQ; open spec fn q(&self) -> RespQ { RespQ { status: self.status, headers: self.headers.q(), body: self.body.q(), rules: self.matching_rules.q(), gens: self.generators.q() } } fn vx_eqf(&self, o: &Self) -> (r: bool) { self.eq_(o) } }
impl Hash for HttpResponse { open spec fn feed(q: RespQ) -> Seq<Tk> { resp_feed(q, true) } fn hash<H: Hasher>(&self, state: &mut H) { self.hash_(state) } }
impl VxEq for Response { type Q = RespQ; open spec fn q(&self) -> RespQ { RespQ { status: self.status, headers: self.headers.q(), body: self.body.q(), rules: self.matching_rules.q(), gens: self.generators.q() } } fn vx_eqf(&self, o: &Self) -> (r: bool) { self.eq_(o) } }
impl Hash for Response { open spec fn feed(q: RespQ) -> Seq<Tk> { resp_feed(q, false) } fn hash<H: Hasher>(&self, state: &mut H) { self.hash_(state) } }
impl VxEq for MessageContents { type Q = MsgQ; open spec fn q(&self) -> MsgQ { MsgQ { contents: self.contents.q(), metadata: q_map(self.metadata@), rules: self.matching_rules.q(), gens: self.generators.q() } } fn vx_eqf(&self, o: &Self) -> (r: bool) { self.eq_(o) } }
impl Hash for MessageContents { open spec fn feed(q: MsgQ) -> Seq<Tk> { msg_feed(q) } fn hash<H: Hasher>(&self, state: &mut H) { self.hash_(state) } }
impl VxEq for SynchronousHttp { type Q = HttpQ; open spec fn q(&self) -> HttpQ { HttpQ { key: q_opt(self.key), description: self.description@, states: q_seq(self.provider_states@), request: self.request.q(), response: self.response.q(), pending: self.pending } } fn vx_eqf(&self, o: &Self) -> (r: bool) { self.eq_(o) } }
impl Hash for SynchronousHttp { open spec fn feed(q: HttpQ) -> Seq<Tk> { feed_of(q.description) + feed_of(q.states) + req_feed(q.request, true) + resp_feed(q.response, true) + feed_of(q.pending) } fn hash<H: Hasher>(&self, state: &mut H) { self.hash_(state) } }
impl VxEq for SynchronousMessage { type Q = SyncQ; open spec fn q(&self) -> SyncQ { SyncQ { key: q_opt(self.key), description: self.description@, states: q_seq(self.provider_states@), request: self.request.q(), response: q_seq(self.response@), pending: self.pending } } fn vx_eqf(&self, o: &Self) -> (r: bool) { self.eq_(o) } }
impl Hash for SynchronousMessage { open spec fn feed(q: SyncQ) -> Seq<Tk> { feed_of(q.description) + feed_of(q.states) + msg_feed(q.request) + feed_of(q.response) + feed_of(q.pending) } fn hash<H: Hasher>(&self, state: &mut H) { self.hash_(state) } }
impl VxEq for AsynchronousMessage { type Q = AsyncQ; open spec fn q(&self) -> AsyncQ { AsyncQ { key: q_opt(self.key), description: self.description@, states: q_seq(self.provider_states@), contents: self.contents.q(), pending: self.pending } } fn vx_eqf(&self, o: &Self) -> (r: bool) { self.eq_(o) } }
impl Hash for AsynchronousMessage { open spec fn feed(q: AsyncQ) -> Seq<Tk> { feed_of(q.description) + feed_of(q.states) + msg_feed(q.contents) + feed_of(q.pending) } fn hash<H: Hasher>(&self, state: &mut H) { self.hash_(state) } }
/// derived Clone: a value comparing equal, other fields not described
impl Clone for SynchronousHttp { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// the key of two interactions that differ in nothing but the key is the same, on every run
pub proof fn theorem_key_synchronoushttp(a: SynchronousHttp, b: SynchronousHttp) requires ({ let x = a.q(); let y = b.q(); y == HttpQ { key: y.key, ..x } }) ensures key_of(SynchronousHttp::feed(a.q())) == key_of(SynchronousHttp::feed(b.q())) {}
/// derived Clone: a value comparing equal, other fields not described
impl Clone for SynchronousMessage { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// the key of two interactions that differ in nothing but the key is the same, on every run
pub proof fn theorem_key_synchronousmessage(a: SynchronousMessage, b: SynchronousMessage) requires ({ let x = a.q(); let y = b.q(); y == SyncQ { key: y.key, ..x } }) ensures key_of(SynchronousMessage::feed(a.q())) == key_of(SynchronousMessage::feed(b.q())) {}
/// derived Clone: a value comparing equal, other fields not described
impl Clone for AsynchronousMessage { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// the key of two interactions that differ in nothing but the key is the same, on every run
pub proof fn theorem_key_asynchronousmessage(a: AsynchronousMessage, b: AsynchronousMessage) requires ({ let x = a.q(); let y = b.q(); y == AsyncQ { key: y.key, ..x } }) ensures key_of(AsynchronousMessage::feed(a.q())) == key_of(AsynchronousMessage::feed(b.q())) {}
}
%src rust/pact_models/src/v4/http_parts.rs
%fn PartialEq for HttpRequest::eq
%rename eq_
%eq
%sub `self.method.to_uppercase()` => `vx_upper(&self.method)`
%sub `other.method.to_uppercase()` => `vx_upper(&other.method)`
%sig
  ensures r == (self.q() == other.q())
%body_start
  proof { assert(self.q() == other.q() ==> self.q().method == other.q().method); }
%src rust/pact_models/src/v4/http_parts.rs
%fn Hash for HttpRequest::hash
%rename hash_
%chain
%sub `self.method.to_uppercase()` => `vx_upper(&self.method)`
%sub `k.to_lowercase()` => `vx_lower(k)`
%sig
  ensures final(state).fed() == old(state).fed() + HttpRequest::feed(self.q())
%body_start
  let ghost st0 = state.fed(); let ghost q = self.q();
%base 0
%after_base 0
  let ghost sl = state.fed(); let ghost qm = q_map(query@); let ghost ks = skeys::<String>(qm.dom());
  proof { assert(qm.dom() =~= query@.dom()); assert(entries_of(vx_s0@, query@)); assert(kvs(vx_s0@) == ks); lemma_query_step(qm, ks, 0); assert(state.fed() =~= sl + query_feed(qm, ks, 0)); }
%loop 0 it
  invariant it.seq() == vx_s0@, entries_of(vx_s0@, query@), kvs(vx_s0@) == ks, qm == q_map(query@), state.fed() == sl + query_feed(qm, ks, it.index@ as nat)
%loop_start 0
  proof { let i = it.index@ as int; assert(vx_s0@[i].0.kv() == kvs(vx_s0@)[i]); assert(query@[ks[i]].1 == *v); assert(qm[ks[i]] == v.q()); }
%loop_end 0
  proof { let i = it.index@ as int; lemma_query_step(qm, ks, (i + 1) as nat); assert(state.fed() =~= sl + query_feed(qm, ks, (i + 1) as nat)); }
%base 1
%after_base 1
  let ghost sl = state.fed(); let ghost qm = q_map(headers@); let ghost ks = skeys::<String>(qm.dom());
  proof { assert(qm.dom() =~= headers@.dom()); assert(entries_of(vx_s1@, headers@)); assert(kvs(vx_s1@) == ks); lemma_head_step(qm, ks, 0, true); assert(state.fed() =~= sl + head_feed(qm, ks, 0, true)); }
%loop 1 it
  invariant it.seq() == vx_s1@, entries_of(vx_s1@, headers@), kvs(vx_s1@) == ks, qm == q_map(headers@), state.fed() == sl + head_feed(qm, ks, it.index@ as nat, true)
%loop_start 1
  proof { let i = it.index@ as int; assert(vx_s1@[i].0.kv() == kvs(vx_s1@)[i]); assert(headers@[ks[i]].1 == *v); assert(qm[ks[i]] == v.q()); }
%loop_end 1
  proof { let i = it.index@ as int; lemma_head_step(qm, ks, (i + 1) as nat, true); assert(state.fed() =~= sl + head_feed(qm, ks, (i + 1) as nat, true)); }
%body_end
  proof { assert(forall|s: Seq<Tk>| #[trigger] (s + seq![]) =~= s); assert(state.fed() =~= st0 + HttpRequest::feed(q)); }
%src rust/pact_models/src/v4/http_parts.rs
%fn PartialEq for HttpResponse::eq
%rename eq_
%eq
%sig
  ensures r == (self.q() == other.q())
%body_start
  proof {  }
%src rust/pact_models/src/v4/http_parts.rs
%fn Hash for HttpResponse::hash
%rename hash_
%chain
%sub `k.to_lowercase()` => `vx_lower(k)`
%sig
  ensures final(state).fed() == old(state).fed() + HttpResponse::feed(self.q())
%body_start
  let ghost st0 = state.fed(); let ghost q = self.q();
%base 0
%after_base 0
  let ghost sl = state.fed(); let ghost qm = q_map(headers@); let ghost ks = skeys::<String>(qm.dom());
  proof { assert(qm.dom() =~= headers@.dom()); assert(entries_of(vx_s0@, headers@)); assert(kvs(vx_s0@) == ks); lemma_head_step(qm, ks, 0, true); assert(state.fed() =~= sl + head_feed(qm, ks, 0, true)); }
%loop 0 it
  invariant it.seq() == vx_s0@, entries_of(vx_s0@, headers@), kvs(vx_s0@) == ks, qm == q_map(headers@), state.fed() == sl + head_feed(qm, ks, it.index@ as nat, true)
%loop_start 0
  proof { let i = it.index@ as int; assert(vx_s0@[i].0.kv() == kvs(vx_s0@)[i]); assert(headers@[ks[i]].1 == *v); assert(qm[ks[i]] == v.q()); }
%loop_end 0
  proof { let i = it.index@ as int; lemma_head_step(qm, ks, (i + 1) as nat, true); assert(state.fed() =~= sl + head_feed(qm, ks, (i + 1) as nat, true)); }
%body_end
  proof { assert(forall|s: Seq<Tk>| #[trigger] (s + seq![]) =~= s); assert(state.fed() =~= st0 + HttpResponse::feed(q)); }
%src rust/pact_models/src/request.rs
%fn PartialEq for Request::eq
%rename eq_
%eq
%sig
  ensures r == (self.q() == other.q())
%body_start
  proof {  }
%fn PartialEq for Request::ne
%rename ne_
%eq
%sig
  ensures r == !(self.q() == other.q())
%body_start
  proof {  }
%src rust/pact_models/src/request.rs
%fn Hash for Request::hash
%rename hash_
%chain
%sig
  ensures final(state).fed() == old(state).fed() + Request::feed(self.q())
%body_start
  let ghost st0 = state.fed(); let ghost q = self.q();
%base 0
%after_base 0
  let ghost sl = state.fed(); let ghost qm = q_map(query@); let ghost ks = skeys::<String>(qm.dom());
  proof { assert(qm.dom() =~= query@.dom()); assert(entries_of(vx_s0@, query@)); assert(kvs(vx_s0@) == ks); lemma_query_step(qm, ks, 0); assert(state.fed() =~= sl + query_feed(qm, ks, 0)); }
%loop 0 it
  invariant it.seq() == vx_s0@, entries_of(vx_s0@, query@), kvs(vx_s0@) == ks, qm == q_map(query@), state.fed() == sl + query_feed(qm, ks, it.index@ as nat)
%loop_start 0
  proof { let i = it.index@ as int; assert(vx_s0@[i].0.kv() == kvs(vx_s0@)[i]); assert(query@[ks[i]].1 == *v); assert(qm[ks[i]] == v.q()); }
%loop_end 0
  proof { let i = it.index@ as int; lemma_query_step(qm, ks, (i + 1) as nat); assert(state.fed() =~= sl + query_feed(qm, ks, (i + 1) as nat)); }
%base 1
%after_base 1
  let ghost sl = state.fed(); let ghost qm = q_map(headers@); let ghost ks = skeys::<String>(qm.dom());
  proof { assert(qm.dom() =~= headers@.dom()); assert(entries_of(vx_s1@, headers@)); assert(kvs(vx_s1@) == ks); lemma_head_step(qm, ks, 0, false); assert(state.fed() =~= sl + head_feed(qm, ks, 0, false)); }
%loop 1 it
  invariant it.seq() == vx_s1@, entries_of(vx_s1@, headers@), kvs(vx_s1@) == ks, qm == q_map(headers@), state.fed() == sl + head_feed(qm, ks, it.index@ as nat, false)
%loop_start 1
  proof { let i = it.index@ as int; assert(vx_s1@[i].0.kv() == kvs(vx_s1@)[i]); assert(headers@[ks[i]].1 == *v); assert(qm[ks[i]] == v.q()); }
%loop_end 1
  proof { let i = it.index@ as int; lemma_head_step(qm, ks, (i + 1) as nat, false); assert(state.fed() =~= sl + head_feed(qm, ks, (i + 1) as nat, false)); }
%body_end
  proof { assert(forall|s: Seq<Tk>| #[trigger] (s + seq![]) =~= s); assert(state.fed() =~= st0 + Request::feed(q)); }
%src rust/pact_models/src/response.rs
%fn PartialEq for Response::eq
%rename eq_
%eq
%sig
  ensures r == (self.q() == other.q())
%body_start
  proof {  }
%fn PartialEq for Response::ne
%rename ne_
%eq
%sig
  ensures r == !(self.q() == other.q())
%body_start
  proof {  }
%src rust/pact_models/src/response.rs
%fn Hash for Response::hash
%rename hash_
%chain
%sig
  ensures final(state).fed() == old(state).fed() + Response::feed(self.q())
%body_start
  let ghost st0 = state.fed(); let ghost q = self.q();
%base 0
%after_base 0
  let ghost sl = state.fed(); let ghost qm = q_map(headers@); let ghost ks = skeys::<String>(qm.dom());
  proof { assert(qm.dom() =~= headers@.dom()); assert(entries_of(vx_s0@, headers@)); assert(kvs(vx_s0@) == ks); lemma_head_step(qm, ks, 0, false); assert(state.fed() =~= sl + head_feed(qm, ks, 0, false)); }
%loop 0 it
  invariant it.seq() == vx_s0@, entries_of(vx_s0@, headers@), kvs(vx_s0@) == ks, qm == q_map(headers@), state.fed() == sl + head_feed(qm, ks, it.index@ as nat, false)
%loop_start 0
  proof { let i = it.index@ as int; assert(vx_s0@[i].0.kv() == kvs(vx_s0@)[i]); assert(headers@[ks[i]].1 == *v); assert(qm[ks[i]] == v.q()); }
%loop_end 0
  proof { let i = it.index@ as int; lemma_head_step(qm, ks, (i + 1) as nat, false); assert(state.fed() =~= sl + head_feed(qm, ks, (i + 1) as nat, false)); }
%body_end
  proof { assert(forall|s: Seq<Tk>| #[trigger] (s + seq![]) =~= s); assert(state.fed() =~= st0 + Response::feed(q)); }
%src rust/pact_models/src/v4/message_parts.rs
%fn PartialEq for MessageContents::eq
%rename eq_
%eq
%sig
  ensures r == (self.q() == other.q())
%body_start
  proof {  }
%src rust/pact_models/src/v4/message_parts.rs
%fn Hash for MessageContents::hash
%rename hash_
%chain
%sig
  ensures final(state).fed() == old(state).fed() + MessageContents::feed(self.q())
%body_start
  let ghost st0 = state.fed(); let ghost q = self.q();
%base 0
%after_base 0
  let ghost sl = state.fed(); let ghost qm = q_map(self.metadata@); let ghost ks = skeys::<String>(qm.dom());
  proof { assert(qm.dom() =~= self.metadata@.dom()); assert(entries_of(vx_s0@, self.metadata@)); assert(kvs(vx_s0@) == ks); lemma_meta_step(qm, ks, 0); assert(state.fed() =~= sl + meta_feed(qm, ks, 0)); }
%loop 0 it
  invariant it.seq() == vx_s0@, entries_of(vx_s0@, self.metadata@), kvs(vx_s0@) == ks, qm == q_map(self.metadata@), state.fed() == sl + meta_feed(qm, ks, it.index@ as nat)
%loop_start 0
  proof { let i = it.index@ as int; assert(vx_s0@[i].0.kv() == kvs(vx_s0@)[i]); assert(self.metadata@[ks[i]].1 == *v); assert(qm[ks[i]] == v.q()); }
%loop_end 0
  proof { let i = it.index@ as int; lemma_meta_step(qm, ks, (i + 1) as nat); assert(state.fed() =~= sl + meta_feed(qm, ks, (i + 1) as nat)); }
%body_end
  proof { assert(forall|s: Seq<Tk>| #[trigger] (s + seq![]) =~= s); assert(state.fed() =~= st0 + MessageContents::feed(q)); }
%src rust/pact_models/src/v4/synch_http.rs
%fn PartialEq for SynchronousHttp::eq
%rename eq_
%eq
%sig
  ensures r == (self.q() == other.q())
%body_start
  proof {  }
%src rust/pact_models/src/v4/synch_http.rs
%fn Hash for SynchronousHttp::hash
%rename hash_
%chain
%sig
  ensures final(state).fed() == old(state).fed() + SynchronousHttp::feed(self.q())
%body_start
  let ghost st0 = state.fed(); let ghost q = self.q();
%body_end
  proof { assert(forall|s: Seq<Tk>| #[trigger] (s + seq![]) =~= s); assert(state.fed() =~= st0 + SynchronousHttp::feed(q)); }
%fn SynchronousHttp::calc_hash
%sub `format!("{:x}", s.finish())` => `vx_hex(s.finish())`
%sig
  ensures r@ == key_of(SynchronousHttp::feed(self.q()))
%tail
  proof { assert(Seq::<Tk>::empty() + SynchronousHttp::feed(self.q()) =~= SynchronousHttp::feed(self.q())); }
%fn SynchronousHttp::with_key
%sig
  ensures r.key matches Some(k) && k@ == key_of(SynchronousHttp::feed(self.q())), r == (SynchronousHttp { key: r.key, ..*self })
%fn V4Interaction for SynchronousHttp::unique_key
%sig
  ensures r@ == (match self.key { Some(k) => k@, None => key_of(SynchronousHttp::feed(self.q())) })
%src rust/pact_models/src/v4/sync_message.rs
%fn PartialEq for SynchronousMessage::eq
%rename eq_
%eq
%sig
  ensures r == (self.q() == other.q())
%body_start
  proof {  }
%src rust/pact_models/src/v4/sync_message.rs
%fn Hash for SynchronousMessage::hash
%rename hash_
%chain
%sig
  ensures final(state).fed() == old(state).fed() + SynchronousMessage::feed(self.q())
%body_start
  let ghost st0 = state.fed(); let ghost q = self.q();
%body_end
  proof { assert(forall|s: Seq<Tk>| #[trigger] (s + seq![]) =~= s); assert(state.fed() =~= st0 + SynchronousMessage::feed(q)); }
%fn SynchronousMessage::calc_hash
%sub `format!("{:x}", s.finish())` => `vx_hex(s.finish())`
%sig
  ensures r@ == key_of(SynchronousMessage::feed(self.q()))
%tail
  proof { assert(Seq::<Tk>::empty() + SynchronousMessage::feed(self.q()) =~= SynchronousMessage::feed(self.q())); }
%fn SynchronousMessage::with_key
%sig
  ensures r.key matches Some(k) && k@ == key_of(SynchronousMessage::feed(self.q())), r == (SynchronousMessage { key: r.key, ..*self })
%fn V4Interaction for SynchronousMessage::unique_key
%sig
  ensures r@ == (match self.key { Some(k) => k@, None => key_of(SynchronousMessage::feed(self.q())) })
%src rust/pact_models/src/v4/async_message.rs
%fn PartialEq for AsynchronousMessage::eq
%rename eq_
%eq
%sig
  ensures r == (self.q() == other.q())
%body_start
  proof {  }
%src rust/pact_models/src/v4/async_message.rs
%fn Hash for AsynchronousMessage::hash
%rename hash_
%chain
%sig
  ensures final(state).fed() == old(state).fed() + AsynchronousMessage::feed(self.q())
%body_start
  let ghost st0 = state.fed(); let ghost q = self.q();
%base 0
%after_base 0
  let ghost sl = state.fed(); let ghost qm = q_map(self.contents.metadata@); let ghost ks = skeys::<String>(qm.dom());
  proof { assert(qm.dom() =~= self.contents.metadata@.dom()); assert(entries_of(vx_s0@, self.contents.metadata@)); assert(kvs(vx_s0@) == ks); lemma_meta_step(qm, ks, 0); assert(state.fed() =~= sl + meta_feed(qm, ks, 0)); }
%loop 0 it
  invariant it.seq() == vx_s0@, entries_of(vx_s0@, self.contents.metadata@), kvs(vx_s0@) == ks, qm == q_map(self.contents.metadata@), state.fed() == sl + meta_feed(qm, ks, it.index@ as nat)
%loop_start 0
  proof { let i = it.index@ as int; assert(vx_s0@[i].0.kv() == kvs(vx_s0@)[i]); assert(self.contents.metadata@[ks[i]].1 == *v); assert(qm[ks[i]] == v.q()); }
%loop_end 0
  proof { let i = it.index@ as int; lemma_meta_step(qm, ks, (i + 1) as nat); assert(state.fed() =~= sl + meta_feed(qm, ks, (i + 1) as nat)); }
%body_end
  proof { assert(forall|s: Seq<Tk>| #[trigger] (s + seq![]) =~= s); assert(state.fed() =~= st0 + AsynchronousMessage::feed(q)); }
%fn AsynchronousMessage::calc_hash
%sub `format!("{:x}", s.finish())` => `vx_hex(s.finish())`
%sig
  ensures r@ == key_of(AsynchronousMessage::feed(self.q()))
%tail
  proof { assert(Seq::<Tk>::empty() + AsynchronousMessage::feed(self.q()) =~= AsynchronousMessage::feed(self.q())); }
%fn AsynchronousMessage::with_key
%sig
  ensures r.key matches Some(k) && k@ == key_of(AsynchronousMessage::feed(self.q())), r == (AsynchronousMessage { key: r.key, ..*self })
%fn V4Interaction for AsynchronousMessage::unique_key
%sig
  ensures r@ == (match self.key { Some(k) => k@, None => key_of(AsynchronousMessage::feed(self.q())) })
