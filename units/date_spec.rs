verus! {
pub type DTok = DateExpressionToken;
pub type DAdj = Adjustment<DateOffsetType>;
// the grammar of date expressions, on the tokens of the text (None: something that is no token)
pub open spec fn d_base(t: DTok) -> Option<DateBase> { match t { DTok::Now => Some(DateBase::NOW), DTok::Today => Some(DateBase::TODAY), DTok::Yesterday => Some(DateBase::YESTERDAY), DTok::Tomorrow => Some(DateBase::TOMORROW), _ => None } }
pub open spec fn d_op(t: DTok) -> Option<Operation> { match t { DTok::Plus => Some(Operation::PLUS), DTok::Minus => Some(Operation::MINUS), _ => None } }
pub open spec fn d_unit(t: DTok) -> Option<DateOffsetType> { match t { DTok::Day | DTok::Days => Some(DateOffsetType::DAY), DTok::Week | DTok::Weeks => Some(DateOffsetType::WEEK), DTok::Month | DTok::Months => Some(DateOffsetType::MONTH), DTok::Year | DTok::Years => Some(DateOffsetType::YEAR), _ => None } }
pub open spec fn d_offset(t: DTok) -> Option<(DateOffsetType, u64)> { match t {
  DTok::Day => Some((DateOffsetType::DAY, 1)), DTok::Week => Some((DateOffsetType::WEEK, 1)), DTok::Month => Some((DateOffsetType::MONTH, 1)), DTok::Year => Some((DateOffsetType::YEAR, 1)), DTok::Fortnight => Some((DateOffsetType::WEEK, 2)),
  DTok::Monday => Some((DateOffsetType::MONDAY, 1)), DTok::Tuesday => Some((DateOffsetType::TUESDAY, 1)), DTok::Wednesday => Some((DateOffsetType::WEDNESDAY, 1)), DTok::Thursday => Some((DateOffsetType::THURSDAY, 1)), DTok::Friday => Some((DateOffsetType::FRIDAY, 1)), DTok::Saturday => Some((DateOffsetType::SATURDAY, 1)), DTok::Sunday => Some((DateOffsetType::SUNDAY, 1)),
  DTok::January => Some((DateOffsetType::JAN, 1)), DTok::February => Some((DateOffsetType::FEB, 1)), DTok::March => Some((DateOffsetType::MAR, 1)), DTok::April => Some((DateOffsetType::APR, 1)), DTok::May => Some((DateOffsetType::MAY, 1)), DTok::June => Some((DateOffsetType::JUNE, 1)),
  DTok::July => Some((DateOffsetType::JULY, 1)), DTok::August => Some((DateOffsetType::AUG, 1)), DTok::September => Some((DateOffsetType::SEP, 1)), DTok::October => Some((DateOffsetType::OCT, 1)), DTok::November => Some((DateOffsetType::NOV, 1)), DTok::December => Some((DateOffsetType::DEC, 1)), _ => None } }
/// at(s, i): the token at a place, if there is one
pub open spec fn d_at(s: Seq<Option<DTok>>, i: int) -> Option<DTok> { if 0 <= i < s.len() { s[i] } else { None } }
/// one step `+ 3 days` at the beginning of the tokens
pub open spec fn d_step(s: Seq<Option<DTok>>) -> Option<DAdj> {
  match (d_at(s, 0), d_at(s, 1), d_at(s, 2)) { (Some(o), Some(DTok::Int(n)), Some(u)) => if d_op(o) is Some && d_unit(u) is Some { Some(Adjustment { adjustment_type: d_unit(u)->0, value: n, operation: d_op(o)->0 }) } else { None }, _ => None } }
/// nothing but steps
pub open spec fn d_steps(s: Seq<Option<DTok>>) -> Option<Seq<DAdj>> decreases s.len() {
  if s.len() == 0 { Some(seq![]) } else if s.len() < 3 { None } else { match (d_step(s), d_steps(s.skip(3))) { (Some(a), Some(r)) => Some(seq![a] + r), _ => None } } }
/// what an expression means: a base and the adjustments; None: not an expression
pub open spec fn date_expr(s: Seq<Option<DTok>>) -> Option<(DateBase, Seq<DAdj>)> {
  match d_at(s, 0) {
    None => None,
    Some(t) => if d_base(t) is Some { match d_steps(s.skip(1)) { Some(a) => Some((d_base(t)->0, a)), None => None } }
      else if d_op(t) is Some { match d_steps(s) { Some(a) => Some((DateBase::NOW, a)), None => None } }
      else if t == DTok::Next || t == DTok::Last { if s.len() < 2 { None } else { match (d_at(s, 1), d_steps(s.skip(2))) {
        (Some(o), Some(a)) => if d_offset(o) is Some { Some((DateBase::NOW, seq![Adjustment { adjustment_type: (d_offset(o)->0).0, value: (d_offset(o)->0).1, operation: if t == DTok::Next { Operation::PLUS } else { Operation::MINUS } }] + a)) } else { None },
        _ => None } } }
      else { None } }
}
}
