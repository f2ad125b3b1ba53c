%unit defs
%include std.rs
%prelude
pub mod logos { pub use crate::Lexer; }
verus! {
/// a side of an Either
pub enum Either<L, R> { Left(L), Right(R) }
#[verifier::external_body] pub struct Uuid { _p: () }
#[verifier::external_body] pub struct UuidFormat { _p: () }
#[verifier::external_body] pub struct MatchingRuleCategory { _p: () }
#[verifier::external_body] pub struct DocPath { _p: () }
#[verifier::external_body] pub struct HttpStatus { _p: () }
#[verifier::external_body] #[verifier::accept_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct HashMap<K, V> { _p: std::marker::PhantomData<(K, V)> }
}
%src rust/pact_models/src/expression_parser.rs
%enum DataType #[derive(PartialEq, Eq, Structural)]
%src rust/pact_models/src/generators/mod.rs
%enum Generator
%src rust/pact_models/src/matchingrules/mod.rs
%enum MatchingRule
%sub `EachKey(MatchingRuleDefinition)` => `EachKey(DefPart)`
%sub `EachValue(MatchingRuleDefinition)` => `EachValue(DefPart)`
%src rust/pact_models/src/matchingrules/expressions.rs
%enum ValueType #[derive(PartialEq, Eq, Structural)]
%struct MatchingReference
%struct MatchingRuleDefinition
%enum MatcherDefinitionToken #[derive(PartialEq, Eq, Structural)]
%include def_spec.rs
%prelude
use MatchingRule::{MaxType, MinType, NotEmpty};
use Generator::ProviderStateGenerator;
verus! {
impl Clone for MatchingRule { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Generator { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for ValueType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for ValueType {}
pub type Rules = Vec<Either<MatchingRule, MatchingReference>>;
/// `[a.clone(), b.clone()].concat()`
#[verifier::external_body] pub fn vx_concat(a: &Rules, b: &Rules) -> (r: Rules) ensures r@ == a@ + b@ { unimplemented!() }
/// `a.as_ref().or_else(|| b.as_ref()).cloned()`
pub fn vx_or(a: &Option<Generator>, b: &Option<Generator>) -> (r: Option<Generator>) ensures r == (if *a is Some { *a } else { *b }) { match a { Some(g) => Some(g.clone()), None => match b { Some(g) => Some(g.clone()), None => None } } }
#[verifier::external_body] pub fn vx_lit<'a>(s: &'a str) -> (r: &'a str) ensures r@ == s@, forall|b: &str| (#[trigger] b@) == s@ ==> b == r { unimplemented!() }
pub type MR = (String, ValueType, Option<MatchingRule>, Option<Generator>, Option<MatchingReference>);
pub open spec fn mq(m: MR) -> MQ { (m.0@, m.1, match m.4 { Some(n) => EQ::Ref(n.name@), None => EQ::Rule(rq(m.2->0)) }, og(m.3)) }
/// either a rule or a reference
pub open spec fn mq_ok(m: MR) -> bool { m.2 is Some != m.4 is Some }
pub open spec fn pq(p: (String, ValueType, Option<Generator>)) -> Prim { (p.0@, p.1, og(p.2)) }
/// a parser function gives what the grammar gives, and leaves the tokens behind it
pub open spec fn gave<A>(ok: bool, v: A, rest: Seq<Pc>, g: Option<(A, Seq<Pc>)>) -> bool { ok == g is Some && (ok ==> v == (g->0).0 && rest == (g->0).1) }
pub open spec fn gave_m(r: Result<MR, VxError>, rest: Seq<Pc>, g: Option<(MQ, Seq<Pc>)>) -> bool { r is Ok == g is Some && (r is Ok ==> mq_ok(r->Ok_0) && mq(r->Ok_0) == (g->0).0 && rest == (g->0).1) }
}
%fn ValueType::merge
%sig
  ensures r == vt_merge(self, other)
%fn Into<DataType> for ValueType::into
%free
%rename vt_into
%sub `(self)` => `(s_: ValueType)`
%sub `match self` => `match s_`
%sig
  ensures r == as_data(s_)
%fn MatchingRuleDefinition::merge
%sub `[self.rules.clone(), other.rules.clone()].concat()` => `vx_concat(&self.rules, &other.rules)`
%sub `self.generator.as_ref().or_else(|| other.generator.as_ref()).cloned()` => `vx_or(&self.generator, &other.generator)`
%fmt exact
%sig
  ensures dq(r) == d_merge(dq(*self), dq(*other))
%tail_after
  proof { reveal_strlit(", "); assert(", "@ =~= seq![',', ' ']); assert(eqs(vx_ret.rules@) =~= eqs(self.rules@) + eqs(other.rules@)); assert(vx_ret.expression@ =~= join_text(self.expression@, other.expression@)); }
%fn char_or_error
%sig
  ensures r is Ok == ch is Some, r is Ok ==> r->Ok_0 == ch->0
%fn string_error
%sub `&dyn std::error::Error` => `&VxError`
%sig
  ensures r is Err
%fn process_raw_string
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%sub `raw_str.chars()` => `vx_chars(raw_str)`
%sub `u32::from_str_radix(b.as_str(), 16)` => `vx_hex(b.as_str())`
%sub `char::from_u32(code).unwrap_or(REPLACEMENT_CHARACTER)` => `vx_chr(code)`
%sig
  ensures r is Ok == unesc(raw_str@) is Some, r is Ok ==> r->Ok_0@ == unesc(raw_str@)->0
%body_start
  proof { assert(raw_str@ =~= Seq::<char>::empty() + raw_str@); if unesc(raw_str@) is Some { assert(Seq::<char>::empty() + unesc(raw_str@)->0 =~= unesc(raw_str@)->0); } }
%loop 0
  invariant unesc(raw_str@) == pre(buffer@, unesc(chars@)) decreases chars@.len()
%loop_start 0
  let ghost t = seq![ch] + chars@; let ghost b0 = buffer@; proof { lemma_head(ch, chars@); assert(t.skip(1) =~= chars@); if t.len() >= 2 { assert(t.skip(2) =~= chars@.skip(1)); lemma_uni(t.skip(2)); } }
%loop_end 0
  proof { lemma_pre(b0, buffer@.skip(b0.len() as int), unesc(chars@)); assert(buffer@ =~= b0 + buffer@.skip(b0.len() as int)); assert(t.len() >= 2 && ch == '\\' && t[1] != 'u' && esc(t[1]) is None ==> buffer@.skip(b0.len() as int) =~= seq![t[0], t[1]]); assert(ch != '\\' || t.len() == 1 ==> buffer@.skip(b0.len() as int) =~= seq![ch]); assert(t.len() >= 2 && ch == '\\' && t[1] != 'u' && esc(t[1]) is Some ==> buffer@.skip(b0.len() as int) =~= seq![esc(t[1])->0]); }
%before `let code1 = char_or_error(chars.next(), &span, v)?;`
  let ghost u = chars@;
%before `let code = match u32::from_str_radix(b.as_str(), 16) {`
  proof { assert(code1 != '{' ==> b@ =~= seq![u[0], u[1], u[2], u[3]] && chars@ =~= u.skip(4)); }
%before `buffer.push(c);`
  proof { assert(uni(u) == Some((c, chars@))); assert(seq![c] =~= buffer@.push(c).skip(b0.len() as int)); }
%loop 1
  invariant_except_break brace(u.skip(1)) == (match brace(chars@) { Some(x) => Some((b@ + x.0, x.1)), None => None }) ensures brace(u.skip(1)) == Some((b@, chars@)) decreases chars@.len()
%loop_start 1
  let ghost bt = chars@;
%loop_end 1
  proof { if brace(chars@) is Some { assert(b@.drop_last() + (seq![bt[0]] + (brace(chars@)->0).0) =~= b@ + (brace(chars@)->0).0); } }
%fn string_value
%sub `&slice[1..slice.len() - 1]` => `vx_inner(slice)`
%sig
  ensures r is Ok == unesc(inner(lex@.text)) is Some, r is Ok ==> r->Ok_0@ == unesc(inner(lex@.text))->0
%fn parse_string
%opt
%sig
  ensures r is Ok ==> final(lex)@.rest.len() < old(lex)@.rest.len(), gave(r is Ok, r->Ok_0@, final(lex)@.rest, g_str(old(lex)@.rest))
%fn parse_comma
%opt
%sig
  ensures r is Ok ==> final(lex)@.rest.len() < old(lex)@.rest.len(), r is Ok == g_tok(old(lex)@.rest, Tok::Comma) is Some, r is Ok ==> final(lex)@.rest == g_tok(old(lex)@.rest, Tok::Comma)->0
%fn decimal_value
%opt
%fmt exact
%sig
  ensures r is Ok ==> final(lex)@.rest.len() < old(lex)@.rest.len(), r is Ok == (at(old(lex)@.rest, 0) == Some(Tok::DecimalPart)), r is Ok ==> r->Ok_0@ == old(lex)@.text + old(lex)@.rest[0].text && final(lex)@.rest == old(lex)@.rest.skip(1)
%fn from_provider_state
%sub `val_type.into()` => `vt_into(val_type)`
%opt
%sig
  ensures r is Ok ==> final(lex)@.rest.len() < old(lex)@.rest.len(), gave(r is Ok, pq(r->Ok_0), final(lex)@.rest, g_state(old(lex)@.rest))
  decreases old(lex)@.rest.len()
%body_start
  broadcast use lemma_skip;
%fn parse_primitive_value
%opt
%sub 2 `lex.remainder().starts_with('.')` => `vx_dot(lex)`
%sig
  ensures r is Ok ==> final(lex)@.rest.len() < old(lex)@.rest.len(), gave(r is Ok, pq(r->Ok_0), final(lex)@.rest, if already_called { g_plain(old(lex)@.rest) } else { g_prim(old(lex)@.rest) })
  decreases old(lex)@.rest.len()
%body_start
  broadcast use lemma_skip;
%fn parse_number
%opt
%sub `lex.remainder().starts_with('.')` => `vx_dot(lex)`
%sig
  ensures r is Ok ==> final(lex)@.rest.len() < old(lex)@.rest.len(), gave_m(r, final(lex)@.rest, g_number(old(lex)@.rest, ValueType::Number, RQ::Number, true))
%body_start
  broadcast use lemma_skip;
%fn parse_integer
%opt
%sig
  ensures r is Ok ==> final(lex)@.rest.len() < old(lex)@.rest.len(), gave_m(r, final(lex)@.rest, g_number(old(lex)@.rest, ValueType::Integer, RQ::Integer, false))
%fn parse_decimal
%opt
%sub `lex.remainder().starts_with('.')` => `vx_dot(lex)`
%sig
  ensures r is Ok ==> final(lex)@.rest.len() < old(lex)@.rest.len(), gave_m(r, final(lex)@.rest, g_number(old(lex)@.rest, ValueType::Decimal, RQ::Decimal, true))
%body_start
  broadcast use lemma_skip;
%fn next_is_provider_state
%sig
  ensures r == id(lex@.rest, state_word())
%fn parse_matching_rule
%opt
%sub `match lex.slice() {` => `match vx_lit(lex.slice()) {`
%sig
  ensures r is Ok ==> final(lex)@.rest.len() < old(lex)@.rest.len(), gave_m(r, final(lex)@.rest, g_rule(old(lex)@.rest))
%fn parse_reference
%sig
  ensures r is Ok ==> final(lex)@.rest.len() < old(lex)@.rest.len(), gave_m(r, final(lex)@.rest, match g_str(old(lex)@.rest) { None => None, Some(x) => Some(((x.0, ValueType::Unknown, EQ::Ref(x.0), None), x.1)) })
%fn parse_semver
%sig
  ensures r is Ok ==> final(lex)@.rest.len() < old(lex)@.rest.len(), gave_m(r, final(lex)@.rest, match g_cstr(old(lex)@.rest) { None => None, Some(x) => if is_semver(x.0) { Some((mr(x.0, ValueType::String, RQ::Semver, None), x.1)) } else { None } })
%fn parse_equality
%sig
  ensures r is Ok ==> final(lex)@.rest.len() < old(lex)@.rest.len(), gave_m(r, final(lex)@.rest, g_value(old(lex)@.rest, RQ::Equality))
%fn parse_type
%sig
  ensures r is Ok ==> final(lex)@.rest.len() < old(lex)@.rest.len(), gave_m(r, final(lex)@.rest, g_value(old(lex)@.rest, RQ::Type))
%fn parse_regex
%sig
  ensures r is Ok ==> final(lex)@.rest.len() < old(lex)@.rest.len(), gave_m(r, final(lex)@.rest, g_two(old(lex)@.rest, ValueType::String, |f: Seq<char>| RQ::Regex(f)))
%fn parse_content_type
%sig
  ensures r is Ok ==> final(lex)@.rest.len() < old(lex)@.rest.len(), gave_m(r, final(lex)@.rest, g_two(old(lex)@.rest, ValueType::Unknown, |f: Seq<char>| RQ::ContentType(f)))
%fn parse_include
%sig
  ensures r is Ok ==> final(lex)@.rest.len() < old(lex)@.rest.len(), gave_m(r, final(lex)@.rest, g_text(old(lex)@.rest, |f: Seq<char>| RQ::Include(f)))
%fn parse_boolean
%opt
%sig
  ensures r is Ok ==> final(lex)@.rest.len() < old(lex)@.rest.len(), gave_m(r, final(lex)@.rest, match g_tok(old(lex)@.rest, Tok::Comma) { None => None, Some(b) => if at(b, 0) == Some(Tok::Boolean) { Some((mr(b[0].text, ValueType::Boolean, RQ::Boolean, None), b.skip(1))) } else { None } })
%fn parse_datetime
%sig
  ensures r is Ok ==> final(lex)@.rest.len() < old(lex)@.rest.len(), gave_m(r, final(lex)@.rest, g_when(old(lex)@.rest, |f: Seq<char>| RQ::Timestamp(f), |x: Option<Seq<char>>, y: Option<Seq<char>>| GQ::DateTime(x, y)))
%fn parse_date
%sig
  ensures r is Ok ==> final(lex)@.rest.len() < old(lex)@.rest.len(), gave_m(r, final(lex)@.rest, g_when(old(lex)@.rest, |f: Seq<char>| RQ::Date(f), |x: Option<Seq<char>>, y: Option<Seq<char>>| GQ::Date(x, y)))
%fn parse_time
%sig
  ensures r is Ok ==> final(lex)@.rest.len() < old(lex)@.rest.len(), gave_m(r, final(lex)@.rest, g_when(old(lex)@.rest, |f: Seq<char>| RQ::Time(f), |x: Option<Seq<char>>, y: Option<Seq<char>>| GQ::Time(x, y)))
%fn parse_matching
%opt
%sig
  ensures r is Ok ==> final(lex)@.rest.len() < old(lex)@.rest.len(), gave_m(r, final(lex)@.rest, g_matching(old(lex)@.rest))
%fn parse_not_empty
%opt
%sig
  ensures r is Ok ==> final(lex)@.rest.len() < old(lex)@.rest.len(), gave(r is Ok, pq(r->Ok_0), final(lex)@.rest, g_not_empty(old(lex)@.rest))
%fn parse_length_param
%opt
%sig
  ensures r is Ok ==> final(lex)@.rest.len() < old(lex)@.rest.len(), gave(r is Ok, r->Ok_0, final(lex)@.rest, g_size(old(lex)@.rest))
%fn parse_each_key
%opt
%sub `MatchingRule::EachKey(result)` => `MatchingRule::EachKey(vx_part(result))`
%sig
  ensures r is Ok ==> final(lex)@.rest.len() < old(lex)@.rest.len(), gave(r is Ok, dq(r->Ok_0), final(lex)@.rest, g_each(old(lex)@.rest, g_exp(old(lex)@.rest.skip(1), v@), true, v@))
  decreases old(lex)@.rest.len()
%body_start
  broadcast use lemma_skip;
%tail_after
  proof { if vx_ret is Ok && vx_ret->Ok_0.rules@.len() == 1 { assert(eqs(vx_ret->Ok_0.rules@) =~= seq![eq(vx_ret->Ok_0.rules@[0])]); } assert(""@ =~= Seq::<char>::empty()) by { reveal_strlit(""); } }
%fn parse_each_value
%opt
%sub `MatchingRule::EachValue(result)` => `MatchingRule::EachValue(vx_part(result))`
%sig
  ensures r is Ok ==> final(lex)@.rest.len() < old(lex)@.rest.len(), gave(r is Ok, dq(r->Ok_0), final(lex)@.rest, g_each(old(lex)@.rest, g_exp(old(lex)@.rest.skip(1), v@), false, v@))
  decreases old(lex)@.rest.len()
%body_start
  broadcast use lemma_skip;
%tail_after
  proof { if vx_ret is Ok && vx_ret->Ok_0.rules@.len() == 1 { assert(eqs(vx_ret->Ok_0.rules@) =~= seq![eq(vx_ret->Ok_0.rules@[0])]); } assert(""@ =~= Seq::<char>::empty()) by { reveal_strlit(""); } }
%fn matching_definition_exp
%sig
  ensures r is Ok ==> final(lex)@.rest.len() < old(lex)@.rest.len(), gave(r is Ok, dq(r->Ok_0), final(lex)@.rest, g_exp(old(lex)@.rest, v@))
  decreases old(lex)@.rest.len()
%body_start
  broadcast use lemma_skip;
%tail_after
  proof { if vx_ret is Ok && vx_ret->Ok_0.rules@.len() == 1 { assert(eqs(vx_ret->Ok_0.rules@) =~= seq![eq(vx_ret->Ok_0.rules@[0])]); } assert(""@ =~= Seq::<char>::empty()) by { reveal_strlit(""); } }
%fn matching_definition
%attr #[verifier::loop_isolation(false)]
%sub `lex.remainder()` => `vx_remainder(lex)`
%sig
  ensures r is Ok == g_all(old(lex)@.rest, v@) is Some, r is Ok ==> dq(r->Ok_0) == g_all(old(lex)@.rest, v@)->0
%loop 0
  invariant g_all(all, v@) == g_more(dq(value), lex@.rest, v@) decreases lex@.rest.len()
%body_start
  let ghost all = lex@.rest;
%fn parse_matcher_def
%sub `MatcherDefinitionToken::lexer(v)` => `vx_lexer(v)`
%sig
  ensures r is Ok == (v@.len() > 0 && g_all(tokens(v@), v@) is Some), r is Ok ==> dq(r->Ok_0) == g_all(tokens(v@), v@)->0
%fn is_matcher_def
%sub `MatcherDefinitionToken::lexer(v)` => `vx_lexer(v)`
%sig
  ensures r == (v@.len() > 0 && (at(tokens(v@), 0) matches Some(t) && (t is Matching || t is NotEmpty || t is EachKey || t is EachValue || t is AtLeast || t is AtMost)))
