//! random model values
use crate::fw::*;
use pact_models::generators::{Generator, UuidFormat};
use pact_models::matchingrules::{Category, MatchingRule, MatchingRuleCategory, RuleList, RuleLogic};
use pact_models::matchingrules::expressions::{MatchingRuleDefinition, ValueType};
use pact_models::path_exp::{DocPath, PathToken};
use pact_models::{HttpStatus, expression_parser::DataType};
use serde_json::{json, Value, Map};
use std::collections::HashMap;
use either::Either;

pub const CATS: [Category; 8] = [Category::METHOD, Category::PATH, Category::HEADER, Category::QUERY, Category::BODY, Category::STATUS, Category::CONTENTS, Category::METADATA];
pub fn text(r: &mut Rng) -> String { let al: Vec<char> = "abAB01 _-.$/\\\"'[]{}%&=+:,;\n\té漢😀".chars().collect(); r.string(&al, 6) }
pub fn word(r: &mut Rng) -> String { let n = 1 + r.below(4); (0..n).map(|_| *r.pick(&['a', 'b', 'c', 'X', '1', '_'])).collect() }
pub fn num(r: &mut Rng) -> usize { match r.below(8) { 0 => 0, 1 => 1, 2 => usize::MAX, 3 => i64::MAX as usize + r.below(3), 4 => 2, 6 => r.lit_num() as usize, _ => r.below(1000) } }
pub fn status(r: &mut Rng) -> HttpStatus { match r.below(8) { 0 => HttpStatus::Information, 1 => HttpStatus::Success, 2 => HttpStatus::Redirect, 3 => HttpStatus::ClientError, 4 => HttpStatus::ServerError, 5 => { let n = r.below(4); HttpStatus::StatusCodes((0..n).map(|_| *r.pick(&[200u16, 201, 404, 0, 65535, 100])).collect()) } 6 => HttpStatus::NonError, _ => HttpStatus::Error } }
pub fn value_type(r: &mut Rng) -> ValueType { *r.pick(&[ValueType::Unknown, ValueType::String, ValueType::Number, ValueType::Integer, ValueType::Decimal, ValueType::Boolean]) }
pub fn data_type(r: &mut Rng) -> DataType { *r.pick(&[DataType::RAW, DataType::STRING, DataType::INTEGER, DataType::DECIMAL, DataType::FLOAT, DataType::BOOLEAN]) }
pub fn json(r: &mut Rng, depth: usize) -> Value {
  match r.below(if depth == 0 { 7 } else { 10 }) {
    0 => Value::Null, 1 => json!(r.chance(1, 2)), 2 => json!(r.next()), 3 => json!(-(r.below(1000) as i64)), 4 => json!(*r.pick(&[0.5f64, -1.25, 1e21, 3.0, 0.0, 123456.789])), 5 => json!(text(r)), 6 => json!(r.below(20)),
    7 | 8 => { let n = r.below(4); Value::Array((0..n).map(|_| json(r, depth - 1)).collect()) }
    _ => { let n = r.below(4); let mut m = Map::new(); for _ in 0..n { m.insert(if r.chance(1, 2) { word(r) } else { text(r) }, json(r, depth - 1)); } Value::Object(m) }
  }
}
pub fn path(r: &mut Rng, max: usize) -> DocPath {
  let n = r.below(max + 1); let mut p = DocPath::root();
  for _ in 0..n { p.push(match r.below(8) { 0 => PathToken::Index(r.below(4)), 1 => PathToken::Star, 2 => PathToken::StarIndex, 3 => PathToken::Field({ let t = text(r); if t.is_empty() { "x".into() } else { t } }), _ => PathToken::Field(word(r)) }); }
  p
}
pub fn opt<T>(r: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> { if r.chance(1, 2) { Some(f(r)) } else { None } }
pub fn generator(r: &mut Rng, depth: usize) -> Generator {
  match r.below(if depth == 0 { 13 } else { 15 }) {
    0 => Generator::RandomInt(*r.pick(&[0, 1, -5, i32::MIN, i32::MAX, 10]), *r.pick(&[0, 10, i32::MAX, -1, i32::MIN])),
    1 => Generator::Uuid(opt(r, |r| *r.pick(&[UuidFormat::Simple, UuidFormat::LowerCaseHyphenated, UuidFormat::UpperCaseHyphenated, UuidFormat::Urn]))),
    2 => Generator::RandomDecimal(*r.pick(&[0, 1, 2, 3, 10, 65535])), 3 => Generator::RandomHexadecimal(*r.pick(&[0, 1, 8, 10, 65535])), 4 => Generator::RandomString(*r.pick(&[0, 1, 10, 20, 65535])),
    5 => Generator::Regex(text(r)), 6 => Generator::Date(opt(r, text), opt(r, text)), 7 => Generator::Time(opt(r, text), opt(r, text)), 8 => Generator::DateTime(opt(r, text), opt(r, text)),
    9 => Generator::RandomBoolean, 10 | 11 => Generator::ProviderStateGenerator(text(r), opt(r, data_type)), 12 => Generator::MockServerURL(text(r), text(r)),
    _ => Generator::ArrayContains(variants(r, depth - 1)),
  }
}
pub fn variants(r: &mut Rng, depth: usize) -> Vec<(usize, MatchingRuleCategory, HashMap<DocPath, Generator>)> {
  let n = r.below(3);
  (0..n).map(|_| { let mut g = HashMap::new(); for _ in 0..r.below(3) { g.insert(path(r, 3), generator(r, depth)); } (r.below(4), category(r, Category::BODY, depth), g) }).collect()
}
pub fn rules(r: &mut Rng, depth: usize) -> RuleList {
  let n = 1 + r.below(3); RuleList { rules: (0..n).map(|_| rule(r, depth)).collect(), rule_logic: if r.chance(1, 3) { RuleLogic::Or } else { RuleLogic::And }, cascaded: false }
}
pub fn category(r: &mut Rng, name: Category, depth: usize) -> MatchingRuleCategory {
  let mut c = MatchingRuleCategory::empty(name.clone());
  match name {
    Category::PATH | Category::METHOD | Category::STATUS => if r.chance(2, 3) { c.rules.insert(if r.chance(1, 2) { DocPath::empty() } else { DocPath::root() }, rules(r, depth)); }
    Category::HEADER | Category::QUERY | Category::METADATA => for _ in 0..r.below(4) { let mut p = DocPath::root(); p.push_field(if r.chance(2, 3) { word(r) } else { let t = text(r); if t.is_empty() { "y".into() } else { t } }); c.rules.insert(p, rules(r, depth)); }
    _ => for _ in 0..r.below(4) { c.rules.insert(path(r, 4), rules(r, depth)); }
  }
  c
}
pub fn definition(r: &mut Rng, depth: usize) -> MatchingRuleDefinition {
  let n = r.below(3);
  MatchingRuleDefinition { value: text(r), value_type: value_type(r), rules: (0..n).map(|_| Either::Left(rule(r, depth))).collect(), generator: opt(r, |r| generator(r, 0)), expression: text(r) }
}
pub fn rule(r: &mut Rng, depth: usize) -> MatchingRule {
  match r.below(if depth == 0 { 20 } else { 25 }) {
    0 => MatchingRule::Equality, 1 => MatchingRule::Regex(text(r)), 2 => MatchingRule::Type, 3 => MatchingRule::MinType(num(r)), 4 => MatchingRule::MaxType(num(r)), 5 => MatchingRule::MinMaxType(num(r), num(r)),
    6 => MatchingRule::Timestamp(text(r)), 7 => MatchingRule::Time(text(r)), 8 => MatchingRule::Date(text(r)), 9 => MatchingRule::Include(text(r)), 10 => MatchingRule::Number, 11 => MatchingRule::Integer, 12 => MatchingRule::Decimal,
    13 => MatchingRule::Null, 14 => MatchingRule::ContentType(text(r)), 15 => MatchingRule::Values, 16 => MatchingRule::Boolean, 17 => MatchingRule::StatusCode(status(r)), 18 => MatchingRule::NotEmpty, 19 => MatchingRule::Semver,
    20 | 21 => MatchingRule::ArrayContains(variants(r, depth - 1)), 22 => MatchingRule::EachKey(definition(r, depth - 1)), 23 => MatchingRule::EachValue(definition(r, depth - 1)), _ => MatchingRule::Values,
  }
}
/// printed form in which the order of hash maps does not show
pub fn canon(r: &MatchingRule) -> String {
  match r { MatchingRule::ArrayContains(v) => format!("ArrayContains({})", canon_variants(v)), MatchingRule::EachKey(d) => format!("EachKey({})", canon_def(d)), MatchingRule::EachValue(d) => format!("EachValue({})", canon_def(d)), r => format!("{:?}", r) }
}
pub fn canon_variants(v: &[(usize, MatchingRuleCategory, HashMap<DocPath, Generator>)]) -> String { v.iter().map(|(i, c, g)| format!("({}, {}, {})", i, canon_cat(c), canon_gens(g))).collect::<Vec<_>>().join(" ") }
pub fn canon_gens(g: &HashMap<DocPath, Generator>) -> String { let mut v: Vec<String> = g.iter().map(|(k, g)| format!("{:?}: {}", k.to_string(), canon_gen(g))).collect(); v.sort(); format!("{{{}}}", v.join(", ")) }
pub fn canon_gen(g: &Generator) -> String { match g { Generator::ArrayContains(v) => format!("ArrayContains({})", canon_variants(v)), g => format!("{:?}", g) } }
pub fn canon_list(l: &RuleList) -> String { format!("{:?}[{}]{}", l.rule_logic, l.rules.iter().map(canon).collect::<Vec<_>>().join(", "), if l.cascaded { "cascaded" } else { "" }) }
pub fn canon_cat(c: &MatchingRuleCategory) -> String { let mut v: Vec<String> = c.rules.iter().map(|(k, l)| format!("{:?} {:?}: {}", k.to_string(), k.tokens(), canon_list(l))).collect(); v.sort(); format!("{:?}{{{}}}", c.name, v.join(", ")) }
pub fn canon_def(d: &MatchingRuleDefinition) -> String { format!("value {:?} type {:?} rules [{}] generator {:?} expression {:?}", d.value, d.value_type, d.rules.iter().map(|r| match r { Either::Left(r) => canon(r), Either::Right(r) => format!("{:?}", r) }).collect::<Vec<_>>().join(", "), d.generator.as_ref().map(canon_gen), d.expression) }
