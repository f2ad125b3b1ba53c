// ---- interactions as values, and what they become in another version ----
verus! {
impl<K: VxKey, V> Default for HashMap<K, V> { fn default() -> (r: HashMap<K, V>) ensures r@ == Map::<K::KV, (K, V)>::empty() { HashMap::new() } }
pub ghost struct PSQ { pub name: Seq<char>, pub params: JO }
pub open spec fn psq(p: ProviderState) -> PSQ { PSQ { name: p.name@, params: meta(p.params) } }
pub open spec fn states(s: Seq<ProviderState>) -> Seq<PSQ> { s.map_values(|p: ProviderState| psq(p)) }
pub ghost struct MKQ { pub markup: Seq<char>, pub kind: Seq<char> }
pub open spec fn mkq(m: InteractionMarkup) -> MKQ { MKQ { markup: m.markup@, kind: m.markup_type@ } }
pub open spec fn no_markup() -> MKQ { MKQ { markup: seq![], kind: seq![] } }
pub open spec fn pcq(m: HashMap<String, HashMap<String, Value>>) -> Map<Seq<char>, JO> { m@.map_values(|e: (String, HashMap<String, Value>)| meta(e.1)) }
pub open spec fn sto(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
/// what the three version 4 kinds share
pub ghost struct IQ { pub id: Option<Seq<char>>, pub key: Option<Seq<char>>, pub description: Seq<char>, pub states: Seq<PSQ>, pub comments: JO, pub pending: bool, pub plugin: Map<Seq<char>, JO>, pub markup: MKQ, pub transport: Option<Seq<char>> }
pub open spec fn r3q(r: Request) -> RQ { RQ { method: r.method@, path: r.path@, query: qqo(r.query), headers: hdrso(r.headers), body: bq(r.body), rules: mq(r.matching_rules), gens: gq(r.generators) } }
pub open spec fn s3q(r: Response) -> SQ { SQ { status: r.status, headers: hdrso(r.headers), body: bq(r.body), rules: mq(r.matching_rules), gens: gq(r.generators) } }
pub ghost struct HQ { pub common: IQ, pub request: RQ, pub response: SQ }
pub open spec fn hq(i: SynchronousHttp) -> HQ { HQ { common: IQ { id: sto(i.id), key: sto(i.key), description: i.description@, states: states(i.provider_states@), comments: meta(i.comments), pending: i.pending, plugin: pcq(i.plugin_config), markup: mkq(i.interaction_markup), transport: sto(i.transport) }, request: rq(i.request), response: sq(i.response) } }
pub ghost struct AQ { pub common: IQ, pub contents: CQ }
pub open spec fn amq(i: AsynchronousMessage) -> AQ { AQ { common: IQ { id: sto(i.id), key: sto(i.key), description: i.description@, states: states(i.provider_states@), comments: meta(i.comments), pending: i.pending, plugin: pcq(i.plugin_config), markup: mkq(i.interaction_markup), transport: sto(i.transport) }, contents: cq(i.contents) } }
pub ghost struct YQ { pub common: IQ, pub request: CQ, pub response: Seq<CQ> }
pub open spec fn cqs(s: Seq<MessageContents>) -> Seq<CQ> { s.map_values(|c: MessageContents| cq(c)) }
pub open spec fn smq(i: SynchronousMessage) -> YQ { YQ { common: IQ { id: sto(i.id), key: sto(i.key), description: i.description@, states: states(i.provider_states@), comments: meta(i.comments), pending: i.pending, plugin: pcq(i.plugin_config), markup: mkq(i.interaction_markup), transport: sto(i.transport) }, request: cq(i.request), response: cqs(i.response@) } }
pub ghost struct RRQ { pub id: Option<Seq<char>>, pub description: Seq<char>, pub states: Seq<PSQ>, pub request: RQ, pub response: SQ }
pub open spec fn rrq(i: RequestResponseInteraction) -> RRQ { RRQ { id: sto(i.id), description: i.description@, states: states(i.provider_states@), request: r3q(i.request), response: s3q(i.response) } }
pub ghost struct MSG { pub id: Option<Seq<char>>, pub description: Seq<char>, pub states: Seq<PSQ>, pub contents: BQ, pub metadata: JO, pub rules: MQ, pub gens: GQ }
pub open spec fn msq(i: Message) -> MSG { MSG { id: sto(i.id), description: i.description@, states: states(i.provider_states@), contents: bq(i.contents), metadata: meta(i.metadata), rules: mq(i.matching_rules), gens: gq(i.generators) } }
pub open spec fn with_common_http(i: HQ, c: IQ) -> HQ { HQ { common: c, ..i } }
pub open spec fn with_common_async(i: AQ, c: IQ) -> AQ { AQ { common: c, ..i } }
pub open spec fn with_common_sync(i: YQ, c: IQ) -> YQ { YQ { common: c, ..i } }
// ---- what a new interaction is ----
pub uninterp spec fn rules0() -> MQ;
pub uninterp spec fn gens0() -> GQ;
#[verifier::external_body] pub fn no_rules() -> (r: MatchingRules) ensures mq(r) == rules0() { unimplemented!() }
#[verifier::external_body] pub fn no_gens() -> (r: Generators) ensures gq(r) == gens0() { unimplemented!() }
pub fn no_markup_() -> (r: InteractionMarkup) ensures mkq(r) == no_markup() { let r = InteractionMarkup { markup: String::new(), markup_type: String::new() }; proof { assert(mkq(r).markup =~= seq![] && mkq(r).kind =~= seq![]); } r }
pub fn no_contents() -> (r: MessageContents) ensures cq(r) == contents0() { let r = MessageContents { contents: OptionalBody::Missing, metadata: HashMap::new(), matching_rules: no_rules(), generators: no_gens() }; proof { assert(cq(r).metadata =~= Map::empty()); } r }
pub open spec fn contents0() -> CQ { CQ { contents: BQ::Missing, metadata: Map::empty(), rules: rules0(), gens: gens0() } }
pub open spec fn no_request() -> RQ { RQ { method: "GET"@, path: "/"@, query: None, headers: None, body: BQ::Missing, rules: rules0(), gens: gens0() } }
pub open spec fn no_response() -> SQ { SQ { status: 200, headers: None, body: BQ::Missing, rules: rules0(), gens: gens0() } }
pub open spec fn common0(d: Seq<char>) -> IQ { IQ { id: None, key: None, description: d, states: seq![], comments: Map::empty(), pending: false, plugin: Map::empty(), markup: no_markup(), transport: None } }
pub open spec fn http_default() -> HQ { HQ { common: common0("Synchronous/HTTP Interaction"@), request: no_request(), response: no_response() } }
pub open spec fn async_default() -> AQ { AQ { common: common0("Asynchronous/Message Interaction"@), contents: contents0() } }
pub open spec fn sync_default() -> YQ { YQ { common: common0("Synchronous/Message Interaction"@), request: contents0(), response: seq![] } }
// ---- conversions ----
pub open spec fn to_rr(i: HQ) -> RRQ { RRQ { id: i.common.id, description: i.common.description, states: i.common.states, request: i.request, response: i.response } }
pub open spec fn of_rr(i: RRQ) -> HQ { HQ { common: IQ { id: i.id, states: i.states, ..common0(i.description) }, request: i.request, response: i.response } }
/// the metadata gains the type of the body, unless it has one
pub open spec fn typed(m: JO, b: BQ) -> JO { match b { BQ::Present(_, Some(c), _) => if m.dom().contains("contentType"@) { m } else { m.insert("contentType"@, JV::Str(ct_print(c))) }, _ => m } }
pub open spec fn to_msg(i: AQ) -> MSG { MSG { id: i.common.id, description: i.common.description, states: i.common.states, contents: i.contents.contents, metadata: typed(i.contents.metadata, i.contents.contents), rules: i.contents.rules, gens: i.contents.gens } }
pub open spec fn of_msg(i: MSG) -> AQ { AQ { common: IQ { id: i.id, states: i.states, ..common0(i.description) }, contents: CQ { contents: i.contents, metadata: i.metadata, rules: i.rules, gens: i.gens } } }
/// to version 4 and back
pub proof fn theorem_there_and_back(i: RRQ) ensures to_rr(of_rr(i)) == i {}
pub proof fn theorem_message_there_and_back(i: MSG) ensures to_msg(of_msg(i)) == (MSG { metadata: typed(i.metadata, i.contents), ..i }), to_msg(of_msg(to_msg(of_msg(i)))) == to_msg(of_msg(i)) { assert(typed(typed(i.metadata, i.contents), i.contents) =~= typed(i.metadata, i.contents)); }
/// to version 3 and back keeps everything version 3 can say
pub proof fn theorem_and_forth(i: HQ) ensures of_rr(to_rr(i)) == (HQ { common: IQ { id: i.common.id, states: i.common.states, ..common0(i.common.description) }, ..i }) {}
// ---- interactions of any kind ----
pub enum DynI { Http(SynchronousHttp), Async(AsynchronousMessage), Sync(SynchronousMessage), Rr(RequestResponseInteraction), Msg(Message) }
pub ghost enum DQ { Http(HQ), Async(AQ), Sync(YQ), Rr(RRQ), Msg(MSG) }
pub open spec fn dq(d: DynI) -> DQ { match d { DynI::Http(i) => DQ::Http(hq(i)), DynI::Async(i) => DQ::Async(amq(i)), DynI::Sync(i) => DQ::Sync(smq(i)), DynI::Rr(i) => DQ::Rr(rrq(i)), DynI::Msg(i) => DQ::Msg(msq(i)) } }
pub open spec fn is_v4q(d: DQ) -> bool { d is Http || d is Async || d is Sync }
pub open spec fn dyn_http(d: DQ) -> Option<HQ> { match d { DQ::Http(i) => Some(i), DQ::Rr(i) => Some(of_rr(i)), _ => None } }
pub open spec fn dyn_async(d: DQ) -> Option<AQ> { match d { DQ::Async(i) => Some(i), DQ::Msg(i) => Some(of_msg(i)), _ => None } }
pub open spec fn dyn_sync(d: DQ) -> Option<YQ> { match d { DQ::Sync(i) => Some(i), _ => None } }
pub open spec fn dyn_rr(d: DQ) -> Option<RRQ> { match d { DQ::Rr(i) => Some(i), DQ::Http(i) => Some(to_rr(i)), _ => None } }
pub open spec fn dyn_msg(d: DQ) -> Option<MSG> { match d { DQ::Msg(i) => Some(i), DQ::Async(i) => Some(to_msg(i)), _ => None } }
/// stands for Box, Arc and Mutex around an interaction
pub trait VxDyn: Sized { spec fn dynq(&self) -> DQ; spec fn same(&self, d: DynI) -> bool; fn dyn_(self) -> (r: DynI) ensures self.same(r), dq(r) == self.dynq(); }
impl VxDyn for SynchronousHttp { open spec fn dynq(&self) -> DQ { DQ::Http(hq(*self)) } open spec fn same(&self, d: DynI) -> bool { d == DynI::Http(*self) } fn dyn_(self) -> (r: DynI) { DynI::Http(self) } }
impl VxDyn for AsynchronousMessage { open spec fn dynq(&self) -> DQ { DQ::Async(amq(*self)) } open spec fn same(&self, d: DynI) -> bool { d == DynI::Async(*self) } fn dyn_(self) -> (r: DynI) { DynI::Async(self) } }
impl VxDyn for SynchronousMessage { open spec fn dynq(&self) -> DQ { DQ::Sync(smq(*self)) } open spec fn same(&self, d: DynI) -> bool { d == DynI::Sync(*self) } fn dyn_(self) -> (r: DynI) { DynI::Sync(self) } }
impl VxDyn for RequestResponseInteraction { open spec fn dynq(&self) -> DQ { DQ::Rr(rrq(*self)) } open spec fn same(&self, d: DynI) -> bool { d == DynI::Rr(*self) } fn dyn_(self) -> (r: DynI) { DynI::Rr(self) } }
impl VxDyn for Message { open spec fn dynq(&self) -> DQ { DQ::Msg(msq(*self)) } open spec fn same(&self, d: DynI) -> bool { d == DynI::Msg(*self) } fn dyn_(self) -> (r: DynI) { DynI::Msg(self) } }
pub fn vx_dyn<T: VxDyn>(x: T) -> (r: DynI) ensures x.same(r), dq(r) == x.dynq() { x.dyn_() }
pub fn vx_id<T>(x: T) -> (r: T) ensures r == x { x }
// ---- derived Clone, and keys by the contracts of C11 ----
impl Clone for SynchronousHttp { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures hq(r) == hq(*self) { unimplemented!() } }
impl Clone for AsynchronousMessage { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures amq(r) == amq(*self) { unimplemented!() } }
impl Clone for SynchronousMessage { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures smq(r) == smq(*self) { unimplemented!() } }
impl Clone for RequestResponseInteraction { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures rrq(r) == rrq(*self) { unimplemented!() } }
impl Clone for Message { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures msq(r) == msq(*self) { unimplemented!() } }
impl Clone for OptionalBody { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures bq(r) == bq(*self) { unimplemented!() } }
impl Clone for InteractionMarkup { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures mkq(r) == mkq(*self) { unimplemented!() } }
#[verifier::external_body] pub fn vx_clone_states(v: &Vec<ProviderState>) -> (r: Vec<ProviderState>) ensures states(r@) == states(v@) { unimplemented!() }
#[verifier::external_body] pub fn vx_clone_meta(v: &HashMap<String, Value>) -> (r: HashMap<String, Value>) ensures meta(r) == meta(*v) { unimplemented!() }
#[verifier::external_body] pub fn vx_clone_config(v: &HashMap<String, HashMap<String, Value>>) -> (r: HashMap<String, HashMap<String, Value>>) ensures pcq(r) == pcq(*v) { unimplemented!() }
#[verifier::external_body] pub fn vx_clone_queryo(q: &Option<Query>) -> (r: Option<Query>) ensures qqo(r) == qqo(*q) { unimplemented!() }
#[verifier::external_body] pub fn vx_insert_new(m: &mut HashMap<String, Value>, k: String, v: Value) ensures meta(*final(m)) == (if meta(*old(m)).dom().contains(k@) { meta(*old(m)) } else { meta(*old(m)).insert(k@, jv(v)) }) { unimplemented!() }
pub uninterp spec fn key_of_http(i: HQ) -> Seq<char>;
pub uninterp spec fn key_of_async(i: AQ) -> Seq<char>;
pub uninterp spec fn key_of_sync(i: YQ) -> Seq<char>;
impl SynchronousHttp { #[verifier::external_body] pub fn calc_hash(&self) -> (r: String) ensures r@ == key_of_http(hq(*self)) { unimplemented!() } }
impl AsynchronousMessage { #[verifier::external_body] pub fn calc_hash(&self) -> (r: String) ensures r@ == key_of_async(amq(*self)) { unimplemented!() } }
impl SynchronousMessage { #[verifier::external_body] pub fn calc_hash(&self) -> (r: String) ensures r@ == key_of_sync(smq(*self)) { unimplemented!() } }
/// content is another name of the body's category (Category::from, C10); renaming a category to itself changes nothing (MatchingRules::rename, C05)
impl MatchingRules { #[verifier::external_body] pub fn rename(&self, a: &str, b: &str) -> (r: MatchingRules) ensures (a@ == "content"@ && b@ == "body"@) || (a@ == "body"@ && b@ == "content"@) || a@ == b@ ==> mq(r) == mq(*self) { unimplemented!() } }
pub open spec fn type_text(t: V4InteractionType) -> Seq<char> { match t { V4InteractionType::Synchronous_HTTP => "Synchronous/HTTP"@, V4InteractionType::Asynchronous_Messages => "Asynchronous/Messages"@, V4InteractionType::Synchronous_Messages => "Synchronous/Messages"@ } }
pub fn vx_write_str(f: &mut String, s: &str) -> (r: Result<(), VxError>) ensures r is Ok, final(f)@ == old(f)@ + s@ { f.push_str(s); Ok(()) }
impl VxDisp for V4InteractionType { open spec fn disp(&self) -> Seq<char> { type_text(*self) } fn vx_disp(&self) -> (r: String) { let mut s = String::new(); let r = type_fmt(self, &mut s); proof { assert(Seq::<char>::empty() + type_text(*self) =~= type_text(*self)); } s } }
impl OptionalBody { #[verifier::external_body] pub fn content_type(&self) -> (r: Option<ContentType>) ensures ctqo(r) == (match bq(*self) { BQ::Present(_, c, _) => c, _ => None }) { unimplemented!() } }
}
