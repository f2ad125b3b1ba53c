%unit conflicts
%include std.rs
%include vxmap.rs
%prelude
verus! {
#[verifier::external_body] pub struct MatchingRules { _p: () } #[verifier::external_body] pub struct Generators { _p: () } #[verifier::external_body] pub struct OptionalBody { _p: () } #[verifier::external_body] pub struct Query { _p: () } #[verifier::external_body] pub struct Headers { _p: () }
#[verifier::external_body] pub struct ProviderState { _p: () }
pub ghost struct Q { x: int }
/// `==`: an equivalence, by what the values are
pub trait VxSame { type Q; spec fn sq(&self) -> Self::Q; }
impl VxSame for String { type Q = Seq<char>; open spec fn sq(&self) -> Seq<char> { self@ } }
impl VxSame for u16 { type Q = u16; open spec fn sq(&self) -> u16 { *self } }
impl VxSame for MatchingRules { type Q = Q; uninterp spec fn sq(&self) -> Q; } impl VxSame for OptionalBody { type Q = Q; uninterp spec fn sq(&self) -> Q; } impl VxSame for Query { type Q = Q; uninterp spec fn sq(&self) -> Q; } impl VxSame for Headers { type Q = Q; uninterp spec fn sq(&self) -> Q; }
impl VxSame for ProviderState { type Q = Q; uninterp spec fn sq(&self) -> Q; }
impl<T: VxSame> VxSame for Vec<T> { type Q = Seq<T::Q>; open spec fn sq(&self) -> Seq<T::Q> { self@.map_values(|x: T| x.sq()) } }
impl<T: VxSame> VxSame for Option<T> { type Q = Option<T::Q>; open spec fn sq(&self) -> Option<T::Q> { match self { Some(x) => Some(x.sq()), None => None } } }
#[verifier::external_body] pub fn vx_eq<A: VxSame>(a: &A, b: &A) -> (r: bool) ensures r == (a.sq() == b.sq()) { unimplemented!() }
pub uninterp spec fn header_names(h: Option<Q>) -> Seq<Seq<char>>;
pub open spec fn texts(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
pub uninterp spec fn text_order(s: Seq<Seq<char>>) -> Seq<Seq<char>>;
#[verifier::external_body] pub fn vx_names(h: &Option<Headers>) -> (r: Vec<String>) ensures text_order(texts(r@)) == header_names(h.sq()) { unimplemented!() }
#[verifier::external_body] pub fn vx_sort(v: &mut Vec<String>) ensures texts(final(v)@) == text_order(texts(old(v)@)) { unimplemented!() }
#[verifier::external_body] pub fn vx_item_of<T>(x: Option<T>) -> (r: Option<T>) ensures r == x { x }
}
%src rust/pact_models/src/lib.rs
%enum DifferenceType
%src rust/pact_models/src/interaction.rs
%struct PactConflict
%src rust/pact_models/src/request.rs
%struct Request
%sub `Option<HashMap<String, Vec<Option<String>>>>` => `Option<Query>`
%sub `Option<HashMap<String, Vec<String>>>` => `Option<Headers>`
%src rust/pact_models/src/response.rs
%struct Response
%sub `Option<HashMap<String, Vec<String>>>` => `Option<Headers>`
%src rust/pact_models/src/sync_interaction.rs
%struct RequestResponseInteraction
%prelude
verus! {
pub type Diffs = Seq<DifferenceType>;
pub open spec fn when(b: bool, t: DifferenceType) -> Diffs { if b { seq![t] } else { seq![] } }
pub open spec fn kinds(s: Seq<(DifferenceType, String)>) -> Diffs { s.map_values(|x: (DifferenceType, String)| x.0) }
/// in what two requests, two responses differ
pub open spec fn req_diffs(a: Request, b: Request) -> Diffs { when(a.method@ != b.method@, DifferenceType::Method) + when(a.path@ != b.path@, DifferenceType::Path) + when(a.query.sq() != b.query.sq(), DifferenceType::QueryParameters) + when(header_names(a.headers.sq()) != header_names(b.headers.sq()), DifferenceType::Headers) + when(a.body.sq() != b.body.sq(), DifferenceType::Body) + when(a.matching_rules.sq() != b.matching_rules.sq(), DifferenceType::MatchingRules) }
pub open spec fn res_diffs(a: Response, b: Response) -> Diffs { when(a.status != b.status, DifferenceType::Status) + when(a.headers.sq() != b.headers.sq(), DifferenceType::Headers) + when(a.body.sq() != b.body.sq(), DifferenceType::Body) + when(a.matching_rules.sq() != b.matching_rules.sq(), DifferenceType::MatchingRules) }
/// the differences that count
pub open spec fn counts(t: DifferenceType) -> bool { t is Method || t is Path || t is QueryParameters || t is Status }
pub open spec fn counted(s: Diffs) -> bool { exists|i: int| 0 <= i < s.len() && counts(#[trigger] s[i]) }
/// the same description and states, but another method, path, query or status
pub open spec fn clash(a: RequestResponseInteraction, b: RequestResponseInteraction) -> bool { a.description@ == b.description@ && a.provider_states.sq() == b.provider_states.sq() && (a.request.method@ != b.request.method@ || a.request.path@ != b.request.path@ || a.request.query.sq() != b.request.query.sq() || a.response.status != b.response.status) }
pub proof fn lemma_cat(a: Diffs, b: Diffs) ensures counted(a + b) == (counted(a) || counted(b)) {
  if counted(a) { let i = choose|i: int| 0 <= i < a.len() && counts(#[trigger] a[i]); assert((a + b)[i] == a[i]); } if counted(b) { let i = choose|i: int| 0 <= i < b.len() && counts(#[trigger] b[i]); assert((a + b)[a.len() + i] == b[i]); }
  if counted(a + b) { let i = choose|i: int| 0 <= i < (a + b).len() && counts(#[trigger] (a + b)[i]); if i < a.len() { assert(counts(a[i])); } else { assert(counts(b[i - a.len()])); } } }
pub proof fn lemma_when(b: bool, t: DifferenceType) ensures counted(when(b, t)) == (b && counts(t)) { if b { assert(when(b, t)[0] == t); } }
pub proof fn lemma_req(a: Request, b: Request) ensures counted(req_diffs(a, b)) == (a.method@ != b.method@ || a.path@ != b.path@ || a.query.sq() != b.query.sq()) {
  let x1 = when(a.method@ != b.method@, DifferenceType::Method); let x2 = when(a.path@ != b.path@, DifferenceType::Path); let x3 = when(a.query.sq() != b.query.sq(), DifferenceType::QueryParameters); let x4 = when(header_names(a.headers.sq()) != header_names(b.headers.sq()), DifferenceType::Headers); let x5 = when(a.body.sq() != b.body.sq(), DifferenceType::Body); let x6 = when(a.matching_rules.sq() != b.matching_rules.sq(), DifferenceType::MatchingRules);
  lemma_cat(x1, x2); lemma_cat(x1 + x2, x3); lemma_cat(x1 + x2 + x3, x4); lemma_cat(x1 + x2 + x3 + x4, x5); lemma_cat(x1 + x2 + x3 + x4 + x5, x6); lemma_when(a.method@ != b.method@, DifferenceType::Method); lemma_when(a.path@ != b.path@, DifferenceType::Path); lemma_when(a.query.sq() != b.query.sq(), DifferenceType::QueryParameters); lemma_when(header_names(a.headers.sq()) != header_names(b.headers.sq()), DifferenceType::Headers); lemma_when(a.body.sq() != b.body.sq(), DifferenceType::Body); lemma_when(a.matching_rules.sq() != b.matching_rules.sq(), DifferenceType::MatchingRules); }
pub proof fn lemma_res(a: Response, b: Response) ensures counted(res_diffs(a, b)) == (a.status != b.status) {
  let x2 = when(a.status != b.status, DifferenceType::Status); let x4 = when(a.headers.sq() != b.headers.sq(), DifferenceType::Headers); let x5 = when(a.body.sq() != b.body.sq(), DifferenceType::Body); let x6 = when(a.matching_rules.sq() != b.matching_rules.sq(), DifferenceType::MatchingRules);
  lemma_cat(x2, x4); lemma_cat(x2 + x4, x5); lemma_cat(x2 + x4 + x5, x6); lemma_when(a.status != b.status, DifferenceType::Status); lemma_when(a.headers.sq() != b.headers.sq(), DifferenceType::Headers); lemma_when(a.body.sq() != b.body.sq(), DifferenceType::Body); lemma_when(a.matching_rules.sq() != b.matching_rules.sq(), DifferenceType::MatchingRules); }
pub proof fn lemma_step(s: Diffs, n: int) requires 0 <= n < s.len() ensures counted(s.take(n + 1)) == (counted(s.take(n)) || counts(s[n])) { assert(s.take(n + 1) =~= s.take(n) + seq![s[n]]); lemma_cat(s.take(n), seq![s[n]]); assert(seq![s[n]][0] == s[n]); }
/// an interaction of any kind, by what it is as a request/response interaction
#[verifier::external_body] pub struct DynI { _p: () }
pub uninterp spec fn as_rr(d: DynI) -> Option<RequestResponseInteraction>;
impl DynI { #[verifier::external_body] pub fn as_request_response(&self) -> (r: Option<RequestResponseInteraction>) ensures r == as_rr(*self) { unimplemented!() } }
}
%src rust/pact_models/src/request.rs
%fn Request::differences_from
%eq
%sub `self.headers.clone().map(|m| m.keys().cloned().collect_vec()).unwrap_or_default()` => `vx_names(&self.headers)`
%sub `other.headers.clone().map(|m| m.keys().cloned().collect_vec()).unwrap_or_default()` => `vx_names(&other.headers)`
%sub `keys.sort(); other_keys.sort();` => `vx_sort(&mut keys); vx_sort(&mut other_keys);`
%sig
  ensures kinds(r@) == req_diffs(*self, *other)
%tail_after
  proof { assert(keys.sq() =~= texts(keys@)); assert(other_keys.sq() =~= texts(other_keys@)); assert(kinds(vx_ret@) =~= req_diffs(*self, *other)); }
%src rust/pact_models/src/response.rs
%fn Response::differences_from
%eq
%sig
  ensures kinds(r@) == res_diffs(*self, *other)
%tail_after
  proof { assert(kinds(vx_ret@) =~= res_diffs(*self, *other)); }
%src rust/pact_models/src/sync_interaction.rs
%fn RequestResponseInteraction::conflicts_with
%attr #[verifier::loop_isolation(false)]
%chain
%eq
%sub `&dyn Interaction` => `&DynI`
%sig
  ensures (r@.len() > 0) == (match as_rr(*other) { Some(o) => clash(*self, o), None => true })
%sub `self.request.differences_from(&other.request).iter()` => `self.request.differences_from(&other.request)`
%bty 0 Vec<PactConflict>
%base 0
%loop 0 it
  invariant it.seq() == vx_s0@, (vx_b0@.len() > 0) == counted(kinds(vx_s0@).take(it.index@ as int))
%loop_end 0
  proof { lemma_step(kinds(vx_s0@), it.index@ as int); }
%after_loop 0
  proof { assert(kinds(vx_s0@).take(vx_s0@.len() as int) =~= kinds(vx_s0@)); lemma_req(self.request, other.request); }
%base 1
%loop 1 it1
  invariant it1.seq() == vx_s1@, (conflicts@.len() > 0) == (counted(req_diffs(self.request, other.request)) || counted(kinds(vx_s1@).take(it1.index@ as int)))
%loop_end 1
  proof { lemma_step(kinds(vx_s1@), it1.index@ as int); }
%after_loop 1
  proof { assert(kinds(vx_s1@).take(vx_s1@.len() as int) =~= kinds(vx_s1@)); lemma_res(self.response, other.response); }
