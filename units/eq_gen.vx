%unit eq_gen
%include eq_base.vx
%src rust/pact_models/src/generators/mod.rs
%prelude
verus! {
vx_part!(MatchingRuleCategory, CatQ, part_cat); 
// the generators nested in a variant
vx_part!(GenPart, GenQ, part_gen);
pub type VarQ = (usize, CatQ, Map<Seq<char>, GenQ>);
pub open spec fn gens_feed(m: Map<Seq<char>, GenQ>, ks: Seq<Seq<char>>, n: nat) -> Seq<Tk> decreases n { if n == 0 || n > ks.len() { seq![] } else { gens_feed(m, ks, (n - 1) as nat) + feed_of(ks[n - 1]) + feed_of(m[ks[n - 1]]) } }
pub open spec fn var_feed(v: VarQ) -> Seq<Tk> { let ks = skeys::<DocPath>(v.2.dom()); feed_of(v.0) + feed_of(v.1) + gens_feed(v.2, ks, ks.len()) }
pub open spec fn vars_feed(s: Seq<VarQ>, n: nat) -> Seq<Tk> decreases n { if n == 0 || n > s.len() { seq![] } else { vars_feed(s, (n - 1) as nat) + var_feed(s[n - 1]) } }
pub open spec fn gq(m: HashMap<DocPath, GenPart>) -> Map<Seq<char>, GenQ> { q_map(m@) }

}
%enum UuidFormat
%enum Generator
%sub `HashMap<DocPath, Generator>` => `HashMap<DocPath, GenPart>`
%src rust/pact_models/src/expression_parser.rs
%enum DataType
%src rust/pact_models/src/generators/mod.rs
%prelude
verus! {
vx_plain!(UuidFormat); vx_plain!(DataType);
pub type Txt = Option<Seq<char>>;
pub ghost enum GQ { Int(i32, i32), Uuid(Option<UuidFormat>), Dec(u16), Hex(u16), Str(u16), Regex(Seq<char>), Date(Txt, Txt), Time(Txt, Txt), DateTime(Txt, Txt), State(Seq<char>, Option<DataType>), Url(Seq<char>, Seq<char>), Array(Seq<VarQ>), Other(u64) }
pub open spec fn txt(o: Option<String>) -> Txt { match o { Some(s) => Some(s@), None => None } }
pub open spec fn disc(r: Generator) -> u64 { match r { Generator::RandomInt(_, _) => 0, Generator::Uuid(_) => 1, Generator::RandomDecimal(_) => 2, Generator::RandomHexadecimal(_) => 3, Generator::RandomString(_) => 4, Generator::Regex(_) => 5, Generator::Date(_, _) => 6, Generator::Time(_, _) => 7,
  Generator::DateTime(_, _) => 8, Generator::RandomBoolean => 9, Generator::ProviderStateGenerator(_, _) => 10, Generator::MockServerURL(_, _) => 11, Generator::ArrayContains(_) => 12 } }
#[verifier::external_body] pub fn vx_discr(r: &Generator) -> (d: VxDiscr) ensures d.d == disc(*r) { unimplemented!() }
pub open spec fn gen_q(r: Generator) -> GQ { match r { Generator::RandomInt(a, b) => GQ::Int(a, b), Generator::Uuid(f) => GQ::Uuid(f), Generator::RandomDecimal(d) => GQ::Dec(d), Generator::RandomHexadecimal(d) => GQ::Hex(d), Generator::RandomString(d) => GQ::Str(d), Generator::Regex(s) => GQ::Regex(s@),
  Generator::Date(f, e) => GQ::Date(txt(f), txt(e)), Generator::Time(f, e) => GQ::Time(txt(f), txt(e)), Generator::DateTime(f, e) => GQ::DateTime(txt(f), txt(e)), Generator::ProviderStateGenerator(s, d) => GQ::State(s@, d), Generator::MockServerURL(a, b) => GQ::Url(a@, b@), Generator::ArrayContains(v) => GQ::Array(v.q()), r => GQ::Other(disc(r)) } }
pub open spec fn disc_q(q: GQ) -> u64 { match q { GQ::Int(_, _) => 0, GQ::Uuid(_) => 1, GQ::Dec(_) => 2, GQ::Hex(_) => 3, GQ::Str(_) => 4, GQ::Regex(_) => 5, GQ::Date(_, _) => 6, GQ::Time(_, _) => 7, GQ::DateTime(_, _) => 8, GQ::State(_, _) => 10, GQ::Url(_, _) => 11, GQ::Array(_) => 12, GQ::Other(d) => d } }
pub open spec fn gen_feed(q: GQ) -> Seq<Tk> { feed_of(disc_q(q)) + match q { GQ::Int(a, b) => feed_of(a) + feed_of(b), GQ::Uuid(f) => feed_of(f), GQ::Dec(d) => feed_of(d), GQ::Hex(d) => feed_of(d), GQ::Str(d) => feed_of(d), GQ::Regex(s) => feed_of(s), GQ::Date(f, e) => feed_of(f) + feed_of(e), GQ::Time(f, e) => feed_of(f) + feed_of(e),
  GQ::DateTime(f, e) => feed_of(f) + feed_of(e), GQ::State(s, d) => feed_of(s) + feed_of(d), GQ::Url(a, b) => feed_of(a) + feed_of(b), GQ::Array(v) => vars_feed(v, v.len()), _ => seq![] } }
impl VxEq for Generator { type Q = GQ; open spec fn q(&self) -> GQ { gen_q(*self) } fn vx_eqf(&self, o: &Self) -> (r: bool) { self.eq_(o) } }
impl Hash for Generator { open spec fn feed(q: GQ) -> Seq<Tk> { gen_feed(q) } fn hash<H: Hasher>(&self, state: &mut H) { self.hash_(state) } }
pub proof fn lemma_q_opt(o: Option<String>, f: Option<UuidFormat>, d: Option<DataType>) ensures q_opt(o) == txt(o), q_opt(f) == f, q_opt(d) == d {}
}
%fn PartialEq for Generator::eq
%rename eq_
%eq
%sub `mem::discriminant(self)` => `vx_discr(self)`
%sub `mem::discriminant(other)` => `vx_discr(other)`
%sig
  ensures r == (self.q() == other.q())
%fn Hash for Generator::hash
%rename hash_
%chain
%sub `mem::discriminant(self)` => `vx_discr(self)`
%sig
  ensures final(state).fed() == old(state).fed() + Generator::feed(self.q())
%body_start
  let ghost st0 = state.fed();
%before `match self {`
  proof { assert(state.fed() + seq![] =~= state.fed()); }
%loop 0 it
  invariant st0 == old(state).fed(), *self matches Generator::ArrayContains(vs) && *variants == vs, it.seq().len() == variants@.len(), forall|i: int| 0 <= i < variants@.len() ==> *(#[trigger] it.seq()[i]) == variants@[i],
    state.fed() == st0 + (feed_of(12u64) + vars_feed(q_seq(variants@), it.index@ as nat))
%loop_start 0
  let ghost st1 = state.fed(); let ghost vq = q_seq(variants@)[it.index@]; let ghost ks = skeys::<DocPath>(vq.2.dom());
  proof { assert(vq == (*index, rules.q(), gq(*generators))); }
%base 1
%loop 1 jt
  invariant jt.seq() == vx_s1@, entries_of(vx_s1@, generators@), kvs(vx_s1@) == ks, vq == (*index, rules.q(), gq(*generators)), keys_wf(generators@),
    state.fed() == st1 + (feed_of(vq.0) + feed_of(vq.1) + gens_feed(vq.2, ks, jt.index@ as nat))
%loop_start 1
  proof { let i = jt.index@ as int; assert(vx_s1@[i].0.kv() == kvs(vx_s1@)[i]); assert(generators@[ks[i]].1 == *g); assert(vq.2[ks[i]] == g.q()); }
  let ghost st2 = state.fed();
%loop_end 1
  proof { let i = jt.index@ as int; assert(state.fed() =~= st1 + (feed_of(vq.0) + feed_of(vq.1) + gens_feed(vq.2, ks, (i + 1) as nat))); }
%after_base 1
  proof { generators.axiom_wf(); assert(gq(*generators).dom() =~= generators@.dom()); assert(vq.2 == gq(*generators)); assert(entries_of(vx_s1@, generators@)); assert(kvs(vx_s1@) == skeys::<DocPath>(generators@.dom())); }
%loop_end 0
  proof { let i = it.index@ as int; assert(vars_feed(q_seq(variants@), (i + 1) as nat) == vars_feed(q_seq(variants@), i as nat) + var_feed(vq)); assert(state.fed() =~= st0 + (feed_of(12u64) + vars_feed(q_seq(variants@), (i + 1) as nat))); }
