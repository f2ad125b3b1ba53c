verus! {
pub type TTok = TimeExpressionToken;
pub type TAdj = Adjustment<TimeOffsetType>;
// the grammar of time expressions, on the tokens of the text (None: something that is no token)
pub open spec fn t_op(t: TTok) -> Option<Operation> { match t { TTok::Plus => Some(Operation::PLUS), TTok::Minus => Some(Operation::MINUS), _ => None } }
pub open spec fn t_unit(t: TTok) -> Option<TimeOffsetType> { match t { TTok::Hours => Some(TimeOffsetType::HOUR), TTok::Minutes => Some(TimeOffsetType::MINUTE), TTok::Seconds => Some(TimeOffsetType::SECOND), TTok::Milliseconds => Some(TimeOffsetType::MILLISECOND), _ => None } }
pub open spec fn t_at(s: Seq<Option<TTok>>, i: int) -> Option<TTok> { if 0 <= i < s.len() { s[i] } else { None } }
/// `5 o'clock`, with am, pm or neither
pub open spec fn clock(h: u64, c: ClockHour) -> Option<TimeBase> { if 1 <= h <= 12 { Some(match c { ClockHour::AM => TimeBase::Am { hour: h as u8 }, ClockHour::PM => TimeBase::Pm { hour: h as u8 }, ClockHour::NEXT => TimeBase::Next { hour: h as u8 } }) } else { None } }
/// the base at the beginning of the tokens, and how many tokens it has
pub open spec fn t_base(s: Seq<Option<TTok>>) -> Option<(TimeBase, int)> { match t_at(s, 0) {
  Some(TTok::Now) => Some((TimeBase::Now, 1)), Some(TTok::Midnight) => Some((TimeBase::Midnight, 1)), Some(TTok::Noon) => Some((TimeBase::Noon, 1)),
  Some(TTok::Digits(h)) => if t_at(s, 1) != Some(TTok::OClock) || !(1 <= h <= 12) { None } else { match t_at(s, 2) { Some(TTok::Am) => Some((clock(h, ClockHour::AM)->0, 3)), Some(TTok::Pm) => Some((clock(h, ClockHour::PM)->0, 3)), _ => Some((clock(h, ClockHour::NEXT)->0, 2)) } },
  _ => None } }
/// one step `+ 3 hours` at the beginning of the tokens
pub open spec fn t_step(s: Seq<Option<TTok>>) -> Option<TAdj> {
  match (t_at(s, 0), t_at(s, 1), t_at(s, 2)) { (Some(o), Some(TTok::Digits(n)), Some(u)) => if t_op(o) is Some && t_unit(u) is Some { Some(Adjustment { adjustment_type: t_unit(u)->0, value: n, operation: t_op(o)->0 }) } else { None }, _ => None } }
/// nothing but steps
pub open spec fn t_steps(s: Seq<Option<TTok>>) -> Option<Seq<TAdj>> decreases s.len() {
  if s.len() == 0 { Some(seq![]) } else if s.len() < 3 { None } else { match (t_step(s), t_steps(s.skip(3))) { (Some(a), Some(r)) => Some(seq![a] + r), _ => None } } }
/// what an expression means: a base and the adjustments; None: not an expression
pub open spec fn time_expr(s: Seq<Option<TTok>>) -> Option<(TimeBase, Seq<TAdj>)> {
  match t_at(s, 0) {
    None => None,
    Some(t) => if t is Now || t is Midnight || t is Noon || t is Digits { match t_base(s) { Some(b) => match t_steps(s.skip(b.1)) { Some(a) => Some((b.0, a)), None => None }, None => None } }
      else if t_op(t) is Some { match t_steps(s) { Some(a) => Some((TimeBase::Now, a)), None => None } }
      else if t == TTok::Next || t == TTok::Last { if s.len() < 2 { None } else { match (t_at(s, 1), t_steps(s.skip(2))) {
        (Some(o), Some(a)) => if t_unit(o) is Some { Some((TimeBase::Now, seq![Adjustment { adjustment_type: t_unit(o)->0, value: 1, operation: if t == TTok::Next { Operation::PLUS } else { Operation::MINUS } }] + a)) } else { None },
        _ => None } } }
      else { None } }
}
}
