//! C22 date and time expressions: own lexer, own grammar and own calendar
use crate::fw::*;
use chrono::{DateTime, Datelike, FixedOffset, NaiveDate, TimeZone, Timelike, Utc};
use pact_models::generators::datetime_expressions::{execute_date_expression, execute_datetime_expression, execute_time_expression};

const DAY: i128 = 86_400_000_000_000;
/// local time: days since 1970-01-01 and nanoseconds of the day
#[derive(Clone, Copy, Debug, PartialEq)]
struct Dt { days: i128, ns: i128 }
fn civil(y: i128, m: i128, d: i128) -> i128 { let y = if m <= 2 { y - 1 } else { y }; let era = y.div_euclid(400); let yoe = y - era * 400; let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1; era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468 }
fn from_civil(z: i128) -> (i128, i128, i128) { let z = z + 719468; let era = z.div_euclid(146097); let doe = z - era * 146097; let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; let doy = doe - (365 * yoe + yoe / 4 - yoe / 100); let mp = (5 * doy + 2) / 153; let d = doy - (153 * mp + 2) / 5 + 1; let m = if mp < 10 { mp + 3 } else { mp - 9 }; (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d) }
fn month_len(y: i128, m: i128) -> i128 { if m == 12 { 31 } else { civil(y, m + 1, 1) - civil(y, m, 1) } }
/// 0 = Monday
fn weekday(days: i128) -> i128 { (days + 3).rem_euclid(7) }
fn add_ns(t: Dt, ns: i128) -> Dt { let all = t.days * DAY + t.ns + ns; Dt { days: all.div_euclid(DAY), ns: all.rem_euclid(DAY) } }
fn add_months(t: Dt, n: i128) -> Dt { let (y, m, d) = from_civil(t.days); let k = y * 12 + m - 1 + n; let (y, m) = (k.div_euclid(12), k.rem_euclid(12) + 1); Dt { days: civil(y, m, d.min(month_len(y, m))), ns: t.ns } }
/// Ok(true): certainly representable, Ok(false): certainly not, Err: at the boundary
fn fits(t: Dt) -> Result<bool, ()> { let (lo, hi) = (civil(-262143, 1, 1), civil(262142, 12, 31)); if t.days > lo + 4 && t.days < hi - 4 { Ok(true) } else if t.days < lo - 4 || t.days > hi + 4 { Ok(false) } else { Err(()) } }

/// longest word of the list at every point; None: something else is there
fn lex(s: &str, words: &[&str]) -> Option<Vec<String>> {
  let mut out = vec![]; let mut p = s;
  loop {
    p = p.trim_start_matches([' ', '\t', '\n', '\u{c}']); if p.is_empty() { return Some(out); }
    let n = p.bytes().take_while(u8::is_ascii_digit).count();
    let k = if n > 0 { if p[..n].parse::<u64>().is_err() { return None; } n } else { words.iter().filter(|w| p.starts_with(**w)).map(|w| w.len()).max()? };
    out.push(p[..k].to_string()); p = &p[k..];
  }
}
const DW: [&str; 53] = ["now", "today", "yesterday", "tomorrow", "+", "-", "next", "last", "days", "day", "weeks", "week", "months", "month", "years", "year", "fortnight", "mon", "monday", "tues", "tuesday", "wed", "wednesday", "thurs", "thursday", "fri", "friday", "sat", "saturday", "sun", "sunday",
  "jan", "january", "feb", "february", "mar", "march", "apr", "april", "may", "jun", "june", "jul", "july", "aug", "august", "sep", "september", "oct", "october", "nov", "november", "dec"];
const TW: [&str; 18] = ["now", "midnight", "noon", "o'clock", "am", "pm", "+", "-", "next", "last", "hour", "hours", "minute", "minutes", "second", "seconds", "millisecond", "milliseconds"];
fn num(s: &str) -> Option<i128> { s.parse::<u64>().ok().map(|n| n as i128) }
fn sign(s: &str) -> Option<i128> { match s { "+" => Some(1), "-" => Some(-1), _ => None } }
/// the steps (sign, amount, unit) after an optional start
fn steps(t: &[String], unit: &dyn Fn(&str) -> bool) -> Option<Vec<(i128, i128, String)>> {
  if t.len() % 3 != 0 { return None; } t.chunks(3).map(|c| if unit(&c[2]) { Some((sign(&c[0])?, num(&c[1])?, c[2].trim_end_matches('s').to_string())) } else { None }).collect()
}
/// None: not an expression; Some(Err): the time it means cannot be represented (Err(true)) or is at the boundary (Err(false))
type Out = Option<Result<Dt, bool>>;
fn keep(t: Dt) -> Result<Dt, bool> { match fits(t) { Ok(true) => Ok(t), Ok(false) => Err(true), Err(()) => Err(false) } }
fn date_of(t0: Dt, s: &str) -> Out {
  if s.is_empty() { return Some(Ok(t0)); }
  let words: Vec<&str> = DW.iter().cloned().chain(["december"]).collect();
  let t = lex(s, &words)?; let unit = |w: &str| ["day", "days", "week", "weeks", "month", "months", "year", "years"].contains(&w);
  let mut at = t0; let mut i = 0;
  match t.first()?.as_str() {
    "now" | "today" => i = 1, "yesterday" => { at.days -= 1; i = 1; } "tomorrow" => { at.days += 1; i = 1; } "+" | "-" => (),
    w @ ("next" | "last") => {
      let f = if w == "next" { 1 } else { -1 }; let o = t.get(1)?.as_str(); i = 2;
      let wd = ["mon", "tue", "wed", "thu", "fri", "sat", "sun"].iter().position(|p| o.starts_with(p) && o != "month" && o != "months"); let mo = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"].iter().position(|p| o.starts_with(p));
      if let Some(k) = wd { at.days += f; while weekday(at.days) != k as i128 { at.days += f; } }
      else if let Some(k) = mo { let k = k as i128 + 1; let (mut y, m, d) = from_civil(at.days); if f > 0 { if m >= k { y += 1; } } else if m <= k { y -= 1; } let _ = d; at.days = civil(y, k, 1); }
      else { match o { "day" => at.days += f, "week" => at.days += 7 * f, "fortnight" => at.days += 14 * f, "month" => at = add_months(at, f), "year" => at = add_months(at, 12 * f), _ => return None } }
    }
    _ => return None }
  for (f, n, u) in steps(&t[i..], &unit)? { let n = f * n;
    at = match u.as_str() { "day" => Dt { days: at.days + n, ..at }, "week" => Dt { days: at.days + 7 * n, ..at }, "month" => add_months(at, n), _ => add_months(at, 12 * n) };
    match keep(at) { Ok(t) => at = t, e => return Some(e) } }
  Some(Ok(at))
}
fn time_of(t0: Dt, s: &str) -> Out {
  if s.is_empty() { return Some(Ok(t0)); }
  let t = lex(s, &TW)?; const H: i128 = 3_600_000_000_000; let mut at = t0; let mut i = 0; let singular = |w: &str| ["hour", "minute", "second", "millisecond", "hours", "minutes", "seconds", "milliseconds"].contains(&w);
  match t.first()?.as_str() {
    "now" => i = 1, "midnight" => { at.ns = 0; i = 1; } "noon" => { at.ns = 12 * H; i = 1; } "+" | "-" => (),
    w @ ("next" | "last") => { let f = if w == "next" { 1 } else { -1 }; let o = t.get(1)?; if !singular(o) { return None; } i = 2; at = add_ns(at, f * one(o)); }
    w => { let h = num(w)?; if t.get(1)? != "o'clock" { return None; } i = 2; if h < 1 || h > 12 { return None; }
      match t.get(2).map(|s| s.as_str()) { Some("am") => { i = 3; at.ns = h * H; } Some("pm") => { i = 3; at.ns = (12 + h % 12) * H; } _ => at.ns = if t0.ns < 12 * H { 12 + h % 12 } else { h } * H } }
  }
  for (f, n, u) in steps(&t[i..], &singular)? { at = add_ns(at, f * n * one(&u)); match keep(at) { Ok(t) => at = t, e => return Some(e) } }
  Some(Ok(at))
}
fn one(u: &str) -> i128 { match u.trim_end_matches('s') { "hour" => 3_600_000_000_000, "minute" => 60_000_000_000, "second" => 1_000_000_000, _ => 1_000_000 } }

fn local<T: TimeZone>(t: &DateTime<T>) -> Dt { let n = t.naive_local(); Dt { days: civil(n.year() as i128, n.month() as i128, n.day() as i128), ns: n.num_seconds_from_midnight() as i128 * 1_000_000_000 + n.nanosecond() as i128 } }
fn base(r: &mut Rng) -> Dt {
  let (y, m) = (if r.chance(1, 3) { 2000 + r.range(-5, 30) } else { r.range(1600, 2400) } as i128, r.range(1, 12) as i128);
  let d = match r.below(4) { 0 => 1, 1 => month_len(y, m), 2 => 28 + r.below((month_len(y, m) - 27) as usize) as i128, _ => r.range(1, 28) as i128 };
  let ns = match r.below(5) { 0 => 0, 1 => 12 * 3_600_000_000_000i128 + r.range(-1, 1) as i128 * 60_000_000_000, 2 => DAY - 1, 3 => r.range(0, 23) as i128 * 3_600_000_000_000, _ => (r.next() as i128) % DAY };
  Dt { days: civil(y, m, d), ns: ns.abs() }
}
fn amount(r: &mut Rng) -> String { match r.below(16) { 0 => r.lit_num().to_string(), 1 => u64::MAX.to_string(), 2 => "18446744073709551616".into(), 3 => (i64::MAX as u64 + r.below(3) as u64).to_string(), 4 => r.below(300_000).to_string(), 5 => (1u64 << 32).wrapping_add(r.below(5) as u64).to_string(), 6 => format!("00{}", r.below(20)), 7 => r.next().to_string(), 8 => (r.next() >> r.below(64)).to_string(), 9 => ((i64::MAX as u64) / [1000u64, 60_000, 3_600_000, 86_400_000, 12][r.below(5)] + r.below(3) as u64).to_string(), _ => r.below(60).to_string() } }
fn sp(r: &mut Rng) -> &'static str { *r.pick(&["", " ", " ", "  ", "\t", "\n ", "\u{c}"]) }
fn date_text(r: &mut Rng) -> String {
  let mut s = String::from(sp(r));
  let k = r.below(8); let mut ops = r.below(4);
  match k { 0..=2 => { s += *r.pick(&["now", "today", "yesterday", "tomorrow"]); } 3 | 4 => { s += *r.pick(&["next", "last"]); s += sp(r); s += if r.chance(1, 5) { "december" } else { let k = if r.chance(1, 4) { 8 + r.below(9) } else { 17 + r.below(36) }; DW[k] }; } 5 => ops += 1, 6 => { s += DW[r.below(53)]; } _ => ops += 1 }
  for _ in 0..ops { s += sp(r); s += *r.pick(&["+", "-"]); s += sp(r); s += &amount(r); s += sp(r); s += *r.pick(&["day", "days", "week", "weeks", "month", "months", "year", "years"]); }
  s += sp(r); spoil(r, s, &DW)
}
fn time_text(r: &mut Rng) -> String {
  let mut s = String::from(sp(r)); let mut ops = r.below(4);
  match r.below(8) { 0..=1 => { s += *r.pick(&["now", "midnight", "noon"]); } 2 | 3 => { s += &if r.chance(1, 4) { amount(r) } else { r.below(14).to_string() }; s += sp(r); s += "o'clock"; s += sp(r); s += *r.pick(&["", "", "am", "pm"]); } 4 => { s += *r.pick(&["next", "last"]); s += sp(r); s += TW[10 + r.below(8)]; } 5 => { s += TW[r.below(18)]; } _ => ops += 1 }
  for _ in 0..ops { s += sp(r); s += *r.pick(&["+", "-"]); s += sp(r); s += &amount(r); s += sp(r); s += TW[10 + r.below(8)]; }
  s += sp(r); spoil(r, s, &TW)
}
fn spoil(r: &mut Rng, s: String, w: &[&str]) -> String {
  if !r.chance(1, 4) { return s; }
  match r.below(6) { 0 => format!("{} {}", s, r.pick(w)), 1 => format!("{}{}", s, r.pick(w)), 2 => r.perturb(&s), 3 => { let mut p: Vec<&str> = s.split(' ').collect(); let i = r.below(p.len() + 1); p.insert(i, *r.pick(w)); p.join(" ") } 4 => { let mut p: Vec<&str> = s.split(' ').collect(); let i = r.below(p.len()); p.remove(i); p.join(" ") } _ => r.string(&['n', 'o', 'w', '+', '-', ' ', '1', 'd', 'a', 'y', 's', '@'], 10) }
}
fn agree<T: TimeZone>(what: &str, got: anyhow::Result<DateTime<T>>, want: Out) -> Result<bool, String> {
  match (got.map(|t| local(&t)), want) {
    (Ok(t), Some(Ok(w))) => { ens!(t == w, "{} gives day {:?} at {} ns instead of day {:?} at {} ns", what, from_civil(t.days), t.ns, from_civil(w.days), w.ns); Ok(true) }
    (Ok(t), None) => Err(format!("{} is no expression, but gives day {:?} at {} ns", what, from_civil(t.days), t.ns)),
    (Ok(t), Some(Err(true))) => Err(format!("{} means no representable time, but gives day {:?} at {} ns", what, from_civil(t.days), t.ns)),
    (Err(e), Some(Ok(w))) => Err(format!("{} should give day {:?} at {} ns, but fails: {}", what, from_civil(w.days), w.ns, e)),
    (Err(_), None) | (Err(_), Some(Err(true))) => Ok(false), (_, Some(Err(false))) => Ok(false) }
}
fn both(c: &mut Ctx, r: &mut Rng, kind: &'static str, s: String, f: fn(Dt, &str) -> Out) {
  let t0 = base(r); let off = if r.chance(1, 2) { 0 } else { r.range(-50000, 50000) as i32 }; let (y, m, d) = from_civil(t0.days);
  c.case(kind, format!("{} expression {:?} at {:?} + {} ns, offset {} s", kind, s, (y, m, d), t0.ns, off), move || {
    let n = NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32).unwrap().and_hms_nano_opt((t0.ns / 3_600_000_000_000) as u32, (t0.ns / 60_000_000_000 % 60) as u32, (t0.ns / 1_000_000_000 % 60) as u32, (t0.ns % 1_000_000_000) as u32).unwrap();
    let want = f(t0, &s); let what = format!("{} expression {:?}", kind, s);
    if off == 0 { let t = Utc.from_utc_datetime(&n); agree(&what, match kind { "date" => execute_date_expression(&t, &s), "time" => execute_time_expression(&t, &s), _ => execute_datetime_expression(&t, &s) }, want) }
    else { let t = FixedOffset::east_opt(off).unwrap().from_local_datetime(&n).unwrap(); agree(&what, match kind { "date" => execute_date_expression(&t, &s), "time" => execute_time_expression(&t, &s), _ => execute_datetime_expression(&t, &s) }, want) }
  });
}
fn datetime_of(t0: Dt, s: &str) -> Out {
  match s.split_once('@') { None => date_of(t0, s), Some((d, t)) => match date_of(t0, d) { Some(Ok(x)) => time_of(x, t), None => None, Some(Err(b)) => { time_of(t0, t)?; Some(Err(b)) } } }
}
pub fn c22(c: &mut Ctx) {
  let mut r = c.rng(22);
  // the documented table, every single start with every unit, and every pair of words
  for s in ["", "now", " ", "+ 1 day", "last december + 2 weeks + 4 days", "next june + 2 weeks", "now ", "now x", "+ 1 day day", "today now", "next month", "+ 1 fortnight", "- 1 month", "+ 1 months", "1 day", "+ day", "+ 1", "next", "last", "next days", "18446744073709551616"] { both(c, &mut r, "date", s.to_string(), date_of); }
  for s in ["", "now", "now x", "noon ", "12 o'clock", "12 o'clock am", "12 o'clock pm", "0 o'clock", "13 o'clock pm", "1 o'clock am + 1 hour", "1 o'clock + 1 hour", "1 o'clock now", "next hour - 1 second", "last minutes", "+ 1 hour hour", "1 am"] { both(c, &mut r, "time", s.to_string(), time_of); }
  for s in ["", "@", "@ now", "now @", "@@", "now @ noon @", "tomorrow+ 4 years @ 3 o'clock + 40 milliseconds", "next week @ next hour", " @ now", "x @ y", "+ 99999999 years @ x"] { both(c, &mut r, "date-time", s.to_string(), datetime_of); }
  for w in DW.iter().chain(["december"].iter()) { for p in ["", "next ", "last ", "+ 3 ", "- 14 "] { for _ in 0..2 { both(c, &mut r, "date", format!("{}{}", p, w), date_of); } } }
  for w in TW.iter() { for p in ["", "next ", "last ", "+ 3 ", "- 14 ", "7 "] { both(c, &mut r, "time", format!("{}{}", p, w), time_of); } }
  for h in 0..15 { for p in ["", " am", " pm"] { for _ in 0..3 { both(c, &mut r, "time", format!("{} o'clock{}", h, p), time_of); } } }
  for _ in 0..c.n(3500) { if c.stop() { return; }
    let s = date_text(&mut r); both(c, &mut r, "date", s, date_of);
    let s = time_text(&mut r); both(c, &mut r, "time", s, time_of);
    let (d, t) = (if r.chance(1, 5) { String::new() } else { date_text(&mut r) }, if r.chance(1, 8) { String::new() } else { time_text(&mut r) });
    let s = if r.chance(1, 6) { d } else { format!("{}@{}", d, t) }; both(c, &mut r, "date-time", s, datetime_of);
  }
}
