//! P20 date and time expressions, P21 date and time patterns.
use chrono::{DateTime, Datelike, Days, FixedOffset, Months, NaiveDate, NaiveDateTime, NaiveTime, TimeDelta, TimeZone, Timelike, Utc};
use pact_models::generators::datetime_expressions::{execute_date_expression, execute_datetime_expression, execute_time_expression};
use pact_models::time_utils::{generate_string, parse_pattern, to_chrono_pattern, validate_datetime, DateTimePatternToken as T};
use proptest::prelude::*;
use pvfw::{ensure, ensure_eq, H};

use crate::g::*;

pub fn civil() -> B<NaiveDateTime> {
  let day = prop_oneof![
    4 => (1601i32..2900, 1u32..=12, 1u32..=31), 2 => (1890i32..2110, 1u32..=12, 28u32..=31), 1 => (1999i32..2005, Just(2u32), 27u32..=29),
  ].prop_map(|(y, m, d)| (0..4).find_map(|k| NaiveDate::from_ymd_opt(y, m, d - k)).unwrap());
  let time = prop_oneof![3 => (0u32..24, 0u32..60, 0u32..60, 0u32..1_000_000_000), 1 => (prop::sample::select(vec![0u32, 1, 11, 12, 13, 23]), prop::sample::select(vec![0u32, 59]), Just(0u32), Just(0u32))]
    .prop_map(|(h, m, s, n)| NaiveTime::from_hms_nano_opt(h, m, s, n).unwrap());
  (day, time).prop_map(|(d, t)| d.and_time(t)).boxed()
}
pub fn offset() -> B<FixedOffset> {
  prop_oneof![3 => Just(0), 2 => (-18i32..=18).prop_map(|h| h * 3600), 2 => (-18i32 * 4..=18 * 4).prop_map(|q| q * 900)].prop_map(|s| FixedOffset::east_opt(s).unwrap()).boxed()
}

// ---------------------------------------------------------------- P20

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Unit { Day, Week, Month, Year }
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Off { Unit(Unit), Fortnight, Weekday(u32), Month(u32) }
#[derive(Debug, Clone)]
pub enum DBase { None, Now, Today, Yesterday, Tomorrow, Next(Off, u8), Last(Off, u8) }
#[derive(Debug, Clone, Copy)]
pub struct Adj<U> { plus: bool, n: u64, unit: U, plural: bool }
#[derive(Debug, Clone)]
pub struct DExpr { base: DBase, adj: Vec<Adj<Unit>>, gaps: Vec<u8> }
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum TUnit { Hour, Minute, Second, Milli }
#[derive(Debug, Clone)]
pub enum TBase { None, Now, Midnight, Noon, Clock(u64, u8), Next(TUnit, bool), Last(TUnit, bool) }
#[derive(Debug, Clone)]
pub struct TExpr { base: TBase, adj: Vec<Adj<TUnit>>, gaps: Vec<u8> }

const DAYS: [[&str; 2]; 7] = [["mon", "monday"], ["tues", "tuesday"], ["wed", "wednesday"], ["thurs", "thursday"], ["fri", "friday"], ["sat", "saturday"], ["sun", "sunday"]];
const MONTHS: [[&str; 2]; 12] = [["jan", "january"], ["feb", "february"], ["mar", "march"], ["apr", "april"], ["may", "may"], ["jun", "june"], ["jul", "july"], ["aug", "august"],
  ["sep", "september"], ["oct", "october"], ["nov", "november"], ["dec", "december"]];

fn unit_name(u: Unit, plural: bool) -> String { let s = match u { Unit::Day => "day", Unit::Week => "week", Unit::Month => "month", Unit::Year => "year" }; if plural { format!("{}s", s) } else { s.to_string() } }
fn tunit_name(u: TUnit, plural: bool) -> String { let s = match u { TUnit::Hour => "hour", TUnit::Minute => "minute", TUnit::Second => "second", TUnit::Milli => "millisecond" }; if plural { format!("{}s", s) } else { s.to_string() } }

/// Joins words with the white space chosen by `gaps`; none is needed around + and - and after a number.
fn spaced(words: &[String], gaps: &[u8]) -> String {
  let mut out = String::new();
  for (i, w) in words.iter().enumerate() {
    let g = gaps.get(i % gaps.len().max(1)).copied().unwrap_or(0);
    let loose = i == 0 || ["+", "-"].contains(&w.as_str()) || ["+", "-"].contains(&words[i - 1].as_str()) || words[i - 1].chars().all(|c| c.is_ascii_digit());
    out += match (g % 5, loose) { (0, true) => "", (1, _) => "  ", (2, _) => "\t", (3, _) => " \t ", (_, _) if i == 0 => "", _ => " " };
    out += w;
  }
  match gaps.first().copied().unwrap_or(0) { 11 => out + " ", 12 => out + " \t", _ => out }
}

impl DExpr {
  fn words(&self) -> Vec<String> {
    let off = |o: &Off, full: u8| match o {
      Off::Unit(u) => unit_name(*u, false), Off::Fortnight => "fortnight".into(),
      Off::Weekday(d) => DAYS[*d as usize][full as usize & 1].to_string(), Off::Month(m) => MONTHS[*m as usize - 1][full as usize & 1].to_string() };
    let mut w = match &self.base {
      DBase::None => vec![], DBase::Now => vec!["now".into()], DBase::Today => vec!["today".into()], DBase::Yesterday => vec!["yesterday".into()], DBase::Tomorrow => vec!["tomorrow".into()],
      DBase::Next(o, f) => vec!["next".into(), off(o, *f)], DBase::Last(o, f) => vec!["last".into(), off(o, *f)] };
    for a in &self.adj { w.extend([if a.plus { "+" } else { "-" }.to_string(), a.n.to_string(), unit_name(a.unit, a.plural)]); }
    w
  }
  fn text(&self) -> String { spaced(&self.words(), &self.gaps) }
  fn eval(&self, dt: NaiveDateTime) -> Option<NaiveDateTime> {
    let mut d = match &self.base {
      DBase::Next(o, _) => roll(dt, o, true)?, DBase::Last(o, _) => roll(dt, o, false)?,
      DBase::Yesterday => dt.checked_sub_days(Days::new(1))?, DBase::Tomorrow => dt.checked_add_days(Days::new(1))?, _ => dt };
    for a in &self.adj { d = shift(d, a.unit, a.n, a.plus)?; }
    Some(d)
  }
}

fn shift(d: NaiveDateTime, u: Unit, n: u64, plus: bool) -> Option<NaiveDateTime> {
  let days = |n: u64| if n > 400_000_000 { None } else if plus { d.checked_add_days(Days::new(n)) } else { d.checked_sub_days(Days::new(n)) };
  let months = |n: u64| { let m = Months::new(u32::try_from(n).ok()?); if plus { d.checked_add_months(m) } else { d.checked_sub_months(m) } };
  match u { Unit::Day => days(n), Unit::Week => days(n.checked_mul(7)?), Unit::Month => months(n), Unit::Year => months(n.checked_mul(12)?) }
}
fn roll(d: NaiveDateTime, o: &Off, plus: bool) -> Option<NaiveDateTime> {
  match o {
    Off::Unit(u) => shift(d, *u, 1, plus), Off::Fortnight => shift(d, Unit::Week, 2, plus),
    Off::Weekday(w) => { let cur = d.weekday().num_days_from_monday(); let k = if plus { (w + 7 - cur - 1) % 7 + 1 } else { (cur + 7 - w - 1) % 7 + 1 }; shift(d, Unit::Day, k as u64, plus) }
    Off::Month(m) => {
      let y = d.year() + match plus { true if *m <= d.month() => 1, false if *m >= d.month() => -1, _ => 0 };
      Some(NaiveDate::from_ymd_opt(y, *m, 1)?.and_time(d.time())) }
  }
}

impl TExpr {
  fn words(&self) -> Vec<String> {
    let mut w = match &self.base {
      TBase::None => vec![], TBase::Now => vec!["now".into()], TBase::Midnight => vec!["midnight".into()], TBase::Noon => vec!["noon".into()],
      TBase::Clock(h, k) => { let mut w = vec![h.to_string(), "o'clock".to_string()]; match k % 3 { 1 => w.push("am".into()), 2 => w.push("pm".into()), _ => () }; w }
      TBase::Next(u, p) => vec!["next".into(), tunit_name(*u, *p)], TBase::Last(u, p) => vec!["last".into(), tunit_name(*u, *p)] };
    for a in &self.adj { w.extend([if a.plus { "+" } else { "-" }.to_string(), a.n.to_string(), tunit_name(a.unit, a.plural)]); }
    w
  }
  fn text(&self) -> String { spaced(&self.words(), &self.gaps) }
  fn eval(&self, dt: NaiveDateTime) -> Option<NaiveDateTime> {
    let at = |h: u64| dt.date().and_hms_opt(h as u32, 0, 0);
    let step = |d: NaiveDateTime, u: TUnit, n: u64, plus: bool| {
      let ms = (n as i128) * match u { TUnit::Hour => 3_600_000, TUnit::Minute => 60_000, TUnit::Second => 1000, TUnit::Milli => 1 };
      d.checked_add_signed(TimeDelta::try_milliseconds(i64::try_from(if plus { ms } else { -ms }).ok()?)?)
    };
    let mut d = match &self.base {
      TBase::None | TBase::Now => dt, TBase::Midnight => at(0)?, TBase::Noon => at(12)?,
      // as documented: "12 o'clock am" is 12:00
      TBase::Clock(h, 1) => at(*h)?,
      TBase::Clock(12, _) => at(12)?,
      TBase::Clock(h, 2) => at(*h + 12)?,
      TBase::Clock(h, _) => if dt.hour() < 12 { at(*h + 12)? } else { at(*h)? },
      TBase::Next(u, _) => step(dt, *u, 1, true)?, TBase::Last(u, _) => step(dt, *u, 1, false)? };
    for a in &self.adj { d = step(d, a.unit, a.n, a.plus)?; }
    Some(d)
  }
}

fn unit() -> B<Unit> { prop::sample::select(vec![Unit::Day, Unit::Week, Unit::Month, Unit::Year]).boxed() }
fn tunit() -> B<TUnit> { prop::sample::select(vec![TUnit::Hour, TUnit::Minute, TUnit::Second, TUnit::Milli]).boxed() }
fn off() -> B<Off> { prop_oneof![2 => unit().prop_map(Off::Unit), 1 => Just(Off::Fortnight), 3 => (0u32..7).prop_map(Off::Weekday), 4 => (1u32..=12).prop_map(Off::Month)].boxed() }
fn small() -> B<u64> { prop_oneof![4 => 0u64..15, 2 => 0u64..70, 1 => 0u64..500].boxed() }
fn huge() -> B<u64> { prop_oneof![1 => 0u64..20, 3 => any::<u64>(), 2 => any::<u32>().prop_map(|n| n as u64), 1 => (0u32..64).prop_map(|s| 1u64 << s), 2 => 200_000u64..4_000_000, 1 => Just(i32::MAX as u64), 1 => Just(i64::MAX as u64 + 1)].boxed() }
fn adj<U: std::fmt::Debug + Clone + 'static>(u: B<U>, n: B<u64>) -> B<Adj<U>> { (any::<bool>(), n, u, any::<bool>()).prop_map(|(plus, n, unit, plural)| Adj { plus, n, unit, plural }).boxed() }
fn gaps() -> B<Vec<u8>> { prop::collection::vec(0u8..13, 1..5).boxed() }
fn dexpr(n: fn() -> B<u64>) -> B<DExpr> {
  let base = prop_oneof![2 => Just(DBase::None), 1 => Just(DBase::Now), 1 => Just(DBase::Today), 1 => Just(DBase::Yesterday), 1 => Just(DBase::Tomorrow),
    4 => (off(), 0u8..2).prop_map(|(o, f)| DBase::Next(o, f)), 4 => (off(), 0u8..2).prop_map(|(o, f)| DBase::Last(o, f))];
  (base, prop::collection::vec(adj(unit(), n()), 0..4), gaps(), adj(unit(), n())).prop_map(|(base, mut adj, gaps, one)| {
    if matches!(base, DBase::None) && adj.is_empty() { adj.push(one); }
    DExpr { base, adj, gaps }
  }).boxed()
}
fn texpr(n: fn() -> B<u64>) -> B<TExpr> {
  let base = prop_oneof![2 => Just(TBase::None), 1 => Just(TBase::Now), 1 => Just(TBase::Midnight), 1 => Just(TBase::Noon), 4 => (1u64..=12, 0u8..3).prop_map(|(h, k)| TBase::Clock(h, k)),
    1 => (tunit(), any::<bool>()).prop_map(|(u, p)| TBase::Next(u, p)), 1 => (tunit(), any::<bool>()).prop_map(|(u, p)| TBase::Last(u, p))];
  (base, prop::collection::vec(adj(tunit(), n()), 0..4), gaps(), adj(tunit(), n())).prop_map(|(base, mut adj, gaps, one)| {
    if matches!(base, TBase::None) && adj.is_empty() { adj.push(one); }
    TExpr { base, adj, gaps }
  }).boxed()
}

/// Whether the words are an expression of the documented grammar.
fn is_date(w: &[&str]) -> bool {
  let bases = ["now", "today", "yesterday", "tomorrow"];
  let offs: Vec<&str> = ["day", "week", "month", "year", "fortnight"].into_iter().chain(DAYS.iter().flatten().copied()).chain(MONTHS.iter().flatten().copied()).collect();
  let rest = match w { [b, r @ ..] if bases.contains(b) => r, ["next" | "last", o, r @ ..] if offs.contains(o) => r, [] => return false, r => r };
  durations(rest, &["day", "days", "week", "weeks", "month", "months", "year", "years"])
}
fn is_time(w: &[&str]) -> bool {
  let units = ["hour", "hours", "minute", "minutes", "second", "seconds", "millisecond", "milliseconds"];
  let hour = |h: &str| h.parse::<u64>().map(|h| (1..=12).contains(&h)).unwrap_or(false);
  let rest = match w { ["now" | "midnight" | "noon", r @ ..] => r, [h, "o'clock", "am" | "pm", r @ ..] if hour(h) => r, [h, "o'clock", r @ ..] if hour(h) => r,
    ["next" | "last", o, r @ ..] if units.contains(o) => r, [] => return false, r => r };
  durations(rest, &units)
}
fn durations(mut w: &[&str], units: &[&str]) -> bool {
  loop { match w { [] => return true, ["+" | "-", n, u, r @ ..] if n.parse::<u64>().is_ok() && units.contains(u) => w = r, _ => return false } }
}
/// Word lists near the grammar: valid ones with words inserted, replaced, removed or swapped, and random ones.
fn mutated(words: B<Vec<String>>, vocabulary: Vec<&'static str>) -> B<Vec<String>> {
  let word = prop::sample::select(vocabulary).prop_map(|s| s.to_string()).boxed();
  prop_oneof![
    3 => (words, 0usize..8, 0u8..5, word.clone()).prop_map(|(mut w, i, how, x)| { let n = w.len(); match how {
      0 => w.insert(i % (n + 1), x), 1 => w[i % n] = x, 2 => { w.remove(i % n); } 3 => w.push(x), _ => { let j = (i + 1) % n; w.swap(i % n, j); } } w }),
    1 => prop::collection::vec(word, 1..6),
  ].boxed()
}

fn near(got: Result<NaiveDateTime, String>, want: Option<NaiveDateTime>, e: &str, dt: NaiveDateTime) -> Result<(), String> {
  match want {
    // the years at the very end of the calendar depend on the offset
    Some(w) if w.year().abs() > 262_000 => Ok(()),
    Some(w) => { ensure_eq!(got, Ok(w), "{:?} from {}", e, dt); Ok(()) }
    None => { if let Ok(g) = got { ensure!(g.year().abs() > 262_000, "{:?} from {} is not representable, but gives {}", e, dt, g); } Ok(()) }
  }
}

pub fn p20(h: &mut H) {
  h.assume("Dates are those of chrono's proleptic Gregorian calendar in zones with a fixed offset; an empty expression is the base itself; expressions of nothing but white space are not tested.");
  h.check("date", 40_000, "date expressions of the whole grammar, evaluated on arbitrary dates; non-trivial: a base or offset with at least one adjustment, or several adjustments", || (dexpr(small), civil(), offset()), |(e, dt, o), c| {
    c.nontrivial(e.adj.len() + !matches!(e.base, DBase::None | DBase::Now | DBase::Today) as usize > 1);
    c.label_if(dt.day() > 28, "end of month"); c.label_if(dt.month() == 2 && dt.day() == 29, "leap day");
    let t = e.text();
    let got = execute_date_expression(&o.from_local_datetime(dt).unwrap(), &t).map(|d| d.naive_local()).map_err(|e| e.to_string());
    ensure_eq!(got, Ok(e.eval(*dt).unwrap()), "{:?} from {}", t, dt);
    let utc = execute_date_expression(&Utc.from_utc_datetime(dt), &t).map(|d| d.naive_utc()).map_err(|e| e.to_string());
    ensure_eq!(utc, got, "{:?} from {} UTC", t, dt);
    Ok(())
  });
  h.check("time", 40_000, "time expressions of the whole grammar, evaluated at arbitrary times; non-trivial: a base other than now with an adjustment, an hour of the clock, or several adjustments", || (texpr(small), civil(), offset()), |(e, dt, o), c| {
    c.nontrivial(matches!(e.base, TBase::Clock(..)) || e.adj.len() + !matches!(e.base, TBase::None | TBase::Now) as usize > 1);
    let t = e.text();
    let got = execute_time_expression(&o.from_local_datetime(dt).unwrap(), &t).map(|d| d.naive_local()).map_err(|e| e.to_string());
    ensure_eq!(got, Ok(e.eval(*dt).unwrap()), "{:?} at {}", t, dt);
    Ok(())
  });
  h.check("datetime", 30_000, "date and time expressions joined with @, or a date expression alone; non-trivial: both", || (prop::option::of(dexpr(small)), prop::option::of(texpr(small)), civil()), |(d, t, dt), c| {
    c.nontrivial(d.is_some() && t.is_some());
    let text = match (d, t) { (None, None) => String::new(), (Some(d), None) => d.text(), (d, Some(t)) => format!("{}@{}", d.as_ref().map(|d| d.text()).unwrap_or_default(), t.text()) };
    let mut want = *dt;
    if let Some(d) = d { want = d.eval(want).unwrap(); }
    if let Some(t) = t { want = t.eval(want).unwrap(); }
    let got = execute_datetime_expression(&Utc.from_utc_datetime(dt), &text).map(|d| d.naive_utc()).map_err(|e| e.to_string());
    ensure_eq!(got, Ok(want), "{:?} from {}", text, dt);
    Ok(())
  });
  let dwords = || mutated(dexpr(small).prop_map(|e| e.words()).boxed(), vec!["now", "today", "tomorrow", "next", "last", "+", "-", "1", "2", "0", "99999999999999999999", "day", "days", "week", "months", "year", "fortnight", "mon", "tuesday", "jan", "june", "may", "foo", "!", "@", "noon", "hours", "1.5", "Today", "é"]);
  let twords = || mutated(texpr(small).prop_map(|e| e.words()).boxed(), vec!["now", "midnight", "noon", "next", "last", "+", "-", "1", "12", "13", "0", "99999999999999999999", "o'clock", "am", "pm", "hour", "minutes", "second", "millisecond", "foo", "!", "@", "today", "days", "1.5", "NOW", "é"]);
  h.check("date_grammar", 40_000, "word lists near the grammar of date expressions; non-trivial: not an expression", dwords, |w, c| {
    let text = w.join(" ");
    let ok = is_date(&w.iter().map(|s| s.as_str()).collect::<Vec<_>>());
    c.nontrivial(!ok);
    let got = execute_date_expression(&Utc.with_ymd_and_hms(2000, 1, 1, 10, 0, 0).unwrap(), &text);
    if text.is_empty() { return Ok(()); }
    ensure!(got.is_ok() == ok, "{:?} {} a date expression, but evaluating it gives {:?}", text, if ok { "is" } else { "is not" }, got);
    Ok(())
  });
  h.check("time_grammar", 40_000, "word lists near the grammar of time expressions; non-trivial: not an expression", twords, |w, c| {
    let text = w.join(" ");
    let ok = is_time(&w.iter().map(|s| s.as_str()).collect::<Vec<_>>());
    c.nontrivial(!ok);
    let got = execute_time_expression(&Utc.with_ymd_and_hms(2000, 1, 1, 10, 0, 0).unwrap(), &text);
    if text.is_empty() { return Ok(()); }
    ensure!(got.is_ok() == ok, "{:?} {} a time expression, but evaluating it gives {:?}", text, if ok { "is" } else { "is not" }, got);
    Ok(())
  });
  h.check("parts", 10_000, "date and time word lists joined with @; non-trivial: exactly one part is invalid", move || (dwords(), twords()), |(d, t), c| {
    let s = |w: &[String]| w.iter().map(|s| s.as_str()).filter(|w| *w != "@").map(|s| s.to_string()).collect::<Vec<_>>();
    let (d, t) = (s(d), s(t));
    if d.is_empty() || t.is_empty() { return Ok(()); }
    let v = |w: &[String], f: fn(&[&str]) -> bool| f(&w.iter().map(|s| s.as_str()).collect::<Vec<_>>());
    let (dok, tok) = (v(&d, is_date), v(&t, is_time));
    c.nontrivial(dok != tok);
    let text = format!("{} @ {}", d.join(" "), t.join(" "));
    let got = execute_datetime_expression(&Utc.with_ymd_and_hms(2000, 1, 1, 10, 0, 0).unwrap(), &text);
    ensure!(got.is_ok() == (dok && tok), "{:?}: date part valid {}, time part valid {}, result {:?}", text, dok, tok, got);
    Ok(())
  });
  h.check("limits", 20_000, "expressions with adjustments of any size; non-trivial: the result is not representable", || (dexpr(huge), texpr(huge), civil(), offset()), |(d, t, dt, o), c| {
    let (dw, tw) = (d.eval(*dt), t.eval(*dt));
    c.nontrivial(dw.is_none() || tw.is_none());
    let z = o.from_local_datetime(dt).unwrap();
    near(execute_date_expression(&z, &d.text()).map(|d| d.naive_local()).map_err(|e| e.to_string()), dw, &d.text(), *dt)?;
    near(execute_time_expression(&z, &t.text()).map(|d| d.naive_local()).map_err(|e| e.to_string()), tw, &t.text(), *dt)
  });
  h.check("garbage", 20_000, "arbitrary texts as expressions; non-trivial: not ASCII", || prop_oneof![text(), "[a-z0-9'+@ -]{0,16}", "(now|next|last|\\+|-|[0-9]{1,3}|day|week|mon|hour|o'clock|é|😀|@| ){0,6}"], |s, c| {
    c.nontrivial(!s.is_ascii());
    let dt = Utc.with_ymd_and_hms(2000, 1, 1, 10, 0, 0).unwrap();
    let (d, t) = (execute_date_expression(&dt, s).is_ok(), execute_time_expression(&dt, s).is_ok());
    if !s.contains('@') { ensure_eq!(execute_datetime_expression(&dt, s).is_ok(), d, "{:?} as date and as date-time expression", s); }
    let _ = t;
    Ok(())
  });
}

// ---------------------------------------------------------------- P21

/// One element of a pattern: letter and count, or literal text and how it is quoted.
#[derive(Debug, Clone)]
pub enum El { L(char, usize), Text(String) }

const MON: [&str; 12] = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"];
const DOW: [&str; 7] = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"];
const ZONES: [&str; 12] = ["Europe/Warsaw", "Australia/Sydney", "America/New_York", "America/Argentina/Buenos_Aires", "America/Port-au-Prince", "Africa/Porto-Novo", "Asia/Tokyo", "Asia/Ho_Chi_Minh", "America/Los_Angeles", "Europe/London", "America/North_Dakota/New_Salem", "Pacific/Auckland"];

fn unquoted(s: &str) -> bool { !s.is_empty() && !s.chars().any(|c| c.is_ascii_alphanumeric() || "'{}[]".contains(c)) }
fn pattern(els: &[El]) -> String {
  els.iter().map(|e| match e {
    El::L(c, n) => c.to_string().repeat(*n),
    El::Text(t) if unquoted(t) => t.clone(),
    El::Text(t) => if t == "'" { "''".into() } else { format!("'{}'", t.replace('\'', "''")) },
  }).collect()
}
fn off_text(secs: i32, colon: bool, min: bool) -> String {
  let (s, a) = (if secs < 0 { '-' } else { '+' }, secs.abs());
  if !min && a % 3600 == 0 { return format!("{}{:02}", s, a / 3600); }
  format!("{}{:02}{}{:02}", s, a / 3600, if colon { ":" } else { "" }, a / 60 % 60)
}

/// The text Java's DateTimeFormatter writes for the element (None: has no value we can write).
fn java(c: char, n: usize, dt: &NaiveDateTime, off: i32, zone: &str) -> String {
  let pad = |v: u64, w: usize| format!("{:0w$}", v, w = w);
  let h = dt.hour() as u64;
  match c {
    'G' => "AD".into(),
    'y' | 'u' | 'Y' => if n == 2 { pad(dt.year() as u64 % 100, 2) } else { pad(dt.year() as u64, n) },
    'M' => match n { 1 | 2 => pad(dt.month() as u64, n), 3 => MON[dt.month0() as usize][..3].into(), _ => MON[dt.month0() as usize].into() },
    'L' => pad(dt.month() as u64, n.min(2)),
    'D' => pad(dt.ordinal() as u64, n.min(3)), 'd' => pad(dt.day() as u64, n),
    'E' => { let d = DOW[dt.weekday().num_days_from_monday() as usize]; if n <= 3 { d[..3].into() } else { d.into() } }
    'e' | 'c' => { let d = DOW[dt.weekday().num_days_from_monday() as usize]; match n { 1 | 2 => (dt.weekday().num_days_from_monday() + 1).to_string(), 3 => d[..3].into(), _ => d.into() } }
    'Q' => { let q = dt.month0() / 3; match n { 1 | 2 => pad(q as u64 + 1, n), 3 => format!("Q{}", q + 1), _ => format!("{} quarter", ["1st", "2nd", "3rd", "4th"][q as usize]) } }
    'q' => pad(dt.month0() as u64 / 3 + 1, n),
    'w' => pad(dt.iso_week().week() as u64, n),
    'W' => pad((dt.day() as u64 - 1) / 7 + 1, n),
    'F' => pad((dt.day() as u64 - 1) / 7, n),
    'a' => if h < 12 { "AM".into() } else { "PM".into() },
    'H' => pad(h, n), 'k' => pad(if h == 0 { 24 } else { h }, n), 'K' => pad(h % 12, n), 'h' => pad(if h % 12 == 0 { 12 } else { h % 12 }, n),
    'm' => pad(dt.minute() as u64, n), 's' => pad(dt.second() as u64, n),
    'S' => format!("{:09}{}", dt.nanosecond(), "0".repeat(n.saturating_sub(9)))[..n].to_string(),
    'A' => (dt.num_seconds_from_midnight() as u64 * 1000 + dt.nanosecond() as u64 / 1_000_000).to_string(),
    'n' => pad(dt.nanosecond() as u64, n), 'N' => (dt.num_seconds_from_midnight() as u64 * 1_000_000_000 + dt.nanosecond() as u64).to_string(),
    'Z' => match n { 1..=3 => off_text(off, false, true), 4 => if off == 0 { "GMT".into() } else { format!("GMT{}", off_text(off, true, true)) }, _ => off_text(off, true, true) },
    'O' => match n { 1 => { let m = off.abs() / 60; format!("GMT{}{}{}", if off < 0 { "-" } else { "+" }, m / 60, if m % 60 == 0 { "".into() } else { format!(":{:02}", m % 60) }) } _ => format!("GMT{}", off_text(off, true, true)) },
    'X' if off == 0 => "Z".into(),
    'X' | 'x' => match n { 1 => off_text(off, false, false), 2 | 4 => off_text(off, false, true), _ => off_text(off, true, true) },
    'V' => zone.into(),
    'z' => ["AEST", "PDT", "EST", "GMT"][dt.second() as usize % 4].into(),
    _ => unreachable!(),
  }
}
/// Letters and the counts they may have.
const LETTERS: [(char, &[usize]); 35] = [('G', &[1, 2, 5]), ('y', &[1, 2, 3, 4, 5, 6]), ('u', &[1, 2, 4]), ('Y', &[2, 4]), ('M', &[1, 2, 3, 4, 5]), ('L', &[1, 2, 3]), ('D', &[1, 2, 3]), ('d', &[1, 2]), ('Q', &[1, 2, 3, 4]), ('q', &[1, 2]),
  ('w', &[1, 2]), ('W', &[1, 2]), ('F', &[1]), ('E', &[1, 2, 3, 4]), ('e', &[1, 3, 4]), ('c', &[1]), ('a', &[1]), ('h', &[1, 2]), ('K', &[1, 2]), ('k', &[1, 2]), ('H', &[1, 2]), ('m', &[1, 2]), ('s', &[1, 2]),
  ('S', &[1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 25]), ('A', &[1]), ('n', &[1, 9]), ('N', &[1]), ('V', &[2]), ('z', &[1, 3]), ('O', &[1, 4]), ('X', &[1, 2, 3, 4, 5]), ('x', &[1, 2, 3, 4, 5]), ('Z', &[1, 2, 3, 4, 5]), ('M', &[2]), ('d', &[2])];

fn letter() -> B<(char, usize)> { prop::sample::select(LETTERS.to_vec()).prop_flat_map(|(c, n)| (Just(c), prop::sample::select(n.to_vec()))).boxed() }
fn sep() -> B<String> {
  prop_oneof![4 => prop::sample::select(vec!["-", "/", ".", ", ", " ", ":", "_", "#", "%", "%Y ", "'", " at ", "T", "o'clock", "(é) ", "''", "[", "]"]).prop_map(|s| s.to_string()), 1 => "[ a-zA-Z.,:%'é-]{1,5}[.,: %]"].boxed()
}
/// Elements with different letters (one of each kind of year, month, day), and a separator between each two.
fn elements(letters: B<(char, usize)>) -> B<Vec<El>> {
  prop::collection::vec((letters, sep()), 1..7).prop_map(|v| {
    let kind = |c: char| match c { 'u' | 'Y' => 'y', 'L' => 'M', c => c };
    let mut seen = vec![];
    let mut out = vec![];
    for ((c, n), s) in v {
      if seen.contains(&kind(c)) { continue; }
      seen.push(kind(c));
      if !out.is_empty() { out.push(El::Text(s)); }
      out.push(El::L(c, n));
    }
    out
  }).boxed()
}
/// Without the elements that are not wanted; the texts around them are joined.
fn without(els: &[El], unwanted: impl Fn(&El) -> bool) -> Vec<El> {
  els.iter().filter(|e| !unwanted(e)).fold(vec![], |mut acc: Vec<El>, e| { match (acc.last_mut(), e) { (Some(El::Text(a)), El::Text(b)) => a.push_str(b), _ => acc.push(e.clone()) } acc })
}
/// Texts next to a sign or colon of an offset, or digits, could be read as part of the neighbouring value.
fn write(els: &[El], dt: &NaiveDateTime, off: i32, zone: &str) -> Vec<String> { els.iter().map(|e| match e { El::L(c, n) => java(*c, *n, dt, off, zone), El::Text(t) => t.clone() }).collect() }
fn confusing(els: &[El]) -> bool {
  els.windows(2).any(|w| matches!((&w[0], &w[1]), (El::L(c, _), El::Text(t)) if "XxOZVz".contains(*c) && t.starts_with([':', '-', '/', '_', '+', '.'])) || matches!((&w[0], &w[1]), (El::L('z', _) | El::L('V', _), El::Text(t)) if t.starts_with(|c: char| c.is_alphanumeric()))
    || matches!((&w[0], &w[1]), (El::Text(t), El::L(c, _)) if "XxOZ".contains(*c) && t.ends_with(['+', '-'])))
}

/// February 29th in a pattern without a year: it is taken to be in a year that is not a leap year.
fn leap_day_of_no_year(els: &[El], dt: &NaiveDateTime) -> bool {
  let has = |ls: &str| els.iter().any(|e| matches!(e, El::L(c, _) if ls.contains(*c)));
  (dt.month(), dt.day()) == (2, 29) && has("d") && has("ML") && !has("yuY")
}

/// A value of the element that is out of range.
fn bad(c: char, n: usize, k: usize) -> Option<String> {
  let v: &[&str] = match c {
    'M' if n <= 2 => &["0", "13", "99", "x"], 'M' => &["Jen", "13", "Janvier"], 'L' => &["0", "13"], 'D' => &["0", "367", "999"], 'd' => &["0", "32", "99"], 'Q' | 'q' if n <= 2 => &["0", "5"], 'Q' => &["Q5", "5th quarter", "Q0"],
    'w' => &["0", "60", "99"], 'W' => &["0", "9"], 'E' => &["Xyz", "1", "Mo"], 'e' | 'c' if n <= 2 => &["0", "8", "9"], 'e' => &["1", "Xyz"], 'a' => &["XM", "A", "noon"], 'h' => &["0", "13", "24"], 'K' => &["12", "13"], 'k' => &["0", "25"], 'H' => &["24", "25", "99"],
    'm' => &["60", "99", "x"], 's' => &["61", "99"], 'S' => &["x", ""], 'G' => &["CE", "A", ""], 'y' | 'u' | 'Y' => &["x", ""], 'A' | 'N' | 'n' => &["x", ""], 'V' => &["Europe/Nowhere", "Mars", ""], 'z' => &["QQQ", "aest"],
    'O' => &["GMT+24:00", "XXX+1:00", "GMT1"], 'Z' if n <= 3 => &["+2400", "0100", "+0160"], 'Z' => &["+24:00", "GMT+24:00", "01:00"], 'X' | 'x' if n == 3 || n == 5 => &["+24:00", "01:00", "+01:60", "++01:00"], 'X' | 'x' => &["+2400", "0100", "+0160"],
    _ => return None };
  Some(v[k % v.len()].to_string())
}

/// What `to_chrono_pattern` can express: padded values.
fn expressible() -> B<(char, usize)> {
  prop::sample::select(vec![('G', 1), ('y', 4), ('y', 2), ('y', 1), ('u', 4), ('M', 1), ('M', 2), ('M', 3), ('M', 4), ('M', 5), ('L', 1), ('L', 2), ('D', 3), ('d', 1), ('d', 2), ('E', 1), ('E', 2), ('E', 3), ('E', 4), ('e', 1), ('e', 3), ('e', 4), ('c', 1),
    ('a', 1), ('h', 1), ('h', 2), ('k', 1), ('k', 2), ('K', 2), ('H', 1), ('H', 2), ('m', 1), ('m', 2), ('s', 1), ('s', 2), ('S', 3), ('S', 4), ('S', 5), ('S', 6), ('S', 7), ('S', 8), ('S', 9), ('S', 12), ('n', 1), ('n', 9),
    ('O', 1), ('O', 4), ('X', 1), ('X', 2), ('X', 3), ('X', 4), ('X', 5), ('x', 1), ('x', 2), ('x', 3), ('x', 4), ('x', 5), ('Z', 1), ('Z', 3), ('Z', 4), ('Z', 5)]).boxed()
}
/// The value of an expressible element the way chrono writes it: numbers padded, offsets in full.
pub fn padded(c: char, n: usize, dt: &NaiveDateTime, off: i32) -> String {
  match c {
    'y' | 'u' if n != 2 => java(c, 4, dt, off, ""), 'M' if n == 1 => java(c, 2, dt, off, ""), 'L' | 'd' | 'h' | 'k' | 'K' | 'H' | 'm' | 's' => java(c, 2, dt, off, ""),
    'S' => java(c, if n >= 9 { 9 } else if n >= 6 { 6 } else { 3 }, dt, off, ""), 'n' => java(c, 9, dt, off, ""),
    'Z' if n == 4 => format!("GMT{}", off_text(off, true, true)), 'O' => java(c, 4, dt, off, ""), 'X' | 'x' => off_text(off, n == 3 || n == 5, true),
    _ => java(c, n, dt, off, ""),
  }
}

fn token(e: &El) -> T {
  match e {
    El::Text(t) => T::Text(t.clone()),
    El::L(c, n) => { let n = *n; match c {
      'G' => T::Era(n), 'y' | 'u' | 'Y' => T::Year(n), 'M' => T::Month(n), 'L' => T::MonthNum(n), 'D' => T::DayInYear, 'd' => T::DayInMonth, 'Q' => T::QuarterOfYear(n), 'q' => T::QuarterOfYearNum(n),
      'w' => T::WeekInYear, 'W' => T::WeekInMonth(true), 'F' => T::WeekInMonth(false), 'E' => T::DayName(n), 'e' | 'c' => T::DayOfWeek(n), 'a' => T::AmPm, 'h' => T::Hour12, 'K' => T::Hour12ZeroBased, 'k' => T::Hour24, 'H' => T::Hour24ZeroBased,
      'm' => T::Minute, 's' => T::Second, 'S' => T::Millisecond(n), 'A' => T::MillisecondOfDay, 'n' => T::Nanosecond(n), 'N' => T::NanosecondOfDay, 'V' => T::TimezoneId(n), 'z' => T::TimezoneName(n), 'O' => T::TimezoneOffsetGmt(n),
      'X' => T::TimezoneOffsetXZZero(n), 'x' => T::TimezoneOffsetX(n), 'Z' => T::TimezoneOffset(n), _ => unreachable!() } }
  }
}

pub fn p21(h: &mut H) {
  h.assume("The reference is Java's DateTimeFormatter, with the limits the existing tests fix (days of the year up to 356, weeks up to 56, LLL is a number). Two fields of a pattern always have text between them, except in a list of usual compact patterns.");
  h.check("parse", 40_000, "patterns of elements and quoted text; non-trivial: text that has to be quoted", || elements(letter()), |els, c| {
    let p = pattern(els);
    c.nontrivial(els.iter().any(|e| matches!(e, El::Text(t) if !unquoted(t))));
    let text = |v: Vec<T>| v.into_iter().fold(vec![], |mut acc: Vec<T>, t| { if let (Some(T::Text(a)), T::Text(b)) = (acc.last_mut(), &t) { a.push_str(b); } else { acc.push(t); } acc });
    ensure_eq!(parse_pattern(&p).map(text), Ok(els.iter().map(token).collect()), "pattern {:?}", p);
    Ok(())
  });
  h.check("too_many", 10_000, "patterns with too many letters, letters without a meaning or reserved characters; non-trivial: always", || (elements(letter()), prop::sample::select(vec!["GGGGGG", "MMMMMM", "LLLLLL", "ddd", "QQQQQQ", "qqq", "www", "WWW", "FFF", "EEEEEE", "eeeeee", "cc", "aa", "hhh", "HHH", "kkk", "KKK", "mmm", "sss",
    "VVV", "zzzzz", "OOOOO", "XXXXXX", "xxxxxx", "ZZZZZZ", "b", "B", "f", "g", "i", "I", "j", "J", "l", "o", "p", "P", "r", "R", "t", "T", "U", "v", "C", "0", "1", "{", "}", "[", "]", "'"]), any::<bool>()), |(els, b, front), c| {
    c.nontrivial(true);
    let mut p = pattern(els);
    p = if *front { format!("{} {}", b, p) } else { format!("{} {}", p, b) };
    if *b == "'" && p.matches('\'').count() % 2 == 0 { return Ok(()); }
    ensure!(parse_pattern(&p).is_err(), "pattern {:?} is accepted as {:?}", p, parse_pattern(&p));
    ensure!(validate_datetime("2000", &p).is_err() && generate_string(&p).is_err(), "pattern {:?} is used", p);
    Ok(())
  });
  let valid = || (elements(letter()), civil(), offset(), prop::sample::select(ZONES.to_vec()));
  h.check("accepts", 60_000, "patterns and the text Java writes with them for an arbitrary date and offset; non-trivial: at least three elements", valid, |(els, dt, off, zone), c| {
    if confusing(els) || leap_day_of_no_year(els, dt) || els.iter().any(|e| matches!(e, El::L('D', _)) && dt.ordinal() > 356) { return Ok(()); }
    c.nontrivial(els.len() >= 5);
    let (p, v) = (pattern(els), write(els, dt, off.local_minus_utc(), zone).concat());
    ensure_eq!(validate_datetime(&v, &p), Ok(()), "{:?} with pattern {:?}", v, p);
    let low = write(els, dt, off.local_minus_utc(), zone).iter().zip(els).map(|(s, e)| if matches!(e, El::L(c, _) if "GMEea".contains(*c)) { s.to_lowercase() } else { s.clone() }).collect::<String>();
    ensure_eq!(validate_datetime(&low, &p), Ok(()), "{:?} (names in lower case) with pattern {:?}", low, p);
    Ok(())
  });
  h.check("compact", 10_000, "patterns of digits without separators; non-trivial: always", || (prop::sample::select(vec!["yyyyMMdd", "yyyyMMddHHmmss", "yyMMddHHmmssZ", "HHmmss", "yyyyDDD", "yyyy-MM-dd'T'HH:mm:ss.SSSXXX", "yyyyMMdd'T'HHmmssX", "EEE, d MMM yyyy HH:mm:ss Z"]), civil(), offset()), |(p, dt, off), c| {
    c.nontrivial(true);
    if p.contains("DDD") && dt.ordinal() > 356 { return Ok(()); }
    let els: Vec<El> = { let mut out: Vec<El> = vec![]; let mut quoted = false; for ch in p.chars() { match out.last_mut() {
      _ if ch == '\'' => { quoted = !quoted; } Some(El::L(c, n)) if *c == ch => *n += 1, _ if ch.is_ascii_alphabetic() && !quoted => out.push(El::L(ch, 1)), _ => out.push(El::Text(ch.to_string())) } } out };
    let v = write(&els, dt, off.local_minus_utc(), "").concat();
    ensure_eq!(validate_datetime(&v, p), Ok(()), "{:?} with pattern {:?}", v, p);
    Ok(())
  });
  h.check("rejects", 60_000, "texts in which one element is out of range, missing, doubled, or the text around it differs; non-trivial: at least three elements", move || (valid(), any::<prop::sample::Index>(), 0usize..6, 0u8..6), |((els, dt, off, zone), i, k, how), c| {
    if confusing(els) { return Ok(()); }
    let dt = &dt.with_ordinal(dt.ordinal().min(356)).unwrap();
    c.nontrivial(els.len() >= 5);
    let mut v = write(els, dt, off.local_minus_utc(), zone);
    let i = i.index(els.len());
    match (&els[i], how) {
      (_, 4) => { v.push("!".into()); }
      (_, 5) => { if v.len() < 2 { v[0].clear(); } else { v.pop(); } if v.concat().is_empty() { return Ok(()); } }
      (El::Text(_), _) => v[i] = "\u{7f}".into(),
      (El::L(c, n), _) => { match bad(*c, *n, *k) { Some(b) => v[i] = b, None => return Ok(()) } }
    }
    let (p, v) = (pattern(els), v.concat());
    ensure!(validate_datetime(&v, &p).is_err(), "{:?} is accepted with pattern {:?}", v, p);
    Ok(())
  });
  h.check("calendar", 30_000, "year, month and day patterns with any day up to 31; non-trivial: no such day in the month", || (prop::sample::select(vec!["yyyy-MM-dd", "d.M.yyyy", "yyyy MMM d", "EEEE, d MMMM yyyy", "dd/LL/yyyy", "yy-MM-dd", "yyyyMMdd", "MM-dd", "d MMMM"]), prop_oneof![1 => 1i32..3000, 3 => 1890i32..2110, 1 => Just(2000), 1 => Just(1900)], 1u32..=12, 1u32..=31), |(p, y, m, d), c| {
    let last = NaiveDate::from_ymd_opt(y + (*m == 12) as i32, m % 12 + 1, 1).unwrap().pred_opt().unwrap();
    // a year of two digits is one of the years that have no further digits, and without a year it is not a leap year
    let leap_matters = p.contains("yyyy") || *m != 2 || *d != 29;
    if !leap_matters { return Ok(()); }
    c.nontrivial(*d > last.day());
    let v = p.replace("EEEE", "Friday").replace("yyyy", &format!("{:04}", y)).replace("yy", &format!("{:02}", y % 100));
    let v = v.replace("MMMM", MON[*m as usize - 1]).replace("MMM", &MON[*m as usize - 1][..3]);
    let v = if v.contains("MM") { v.replace("MM", &format!("{:02}", m)) } else if v.contains("LL") { v.replace("LL", &format!("{:02}", m)) } else if v.contains("M.") { v.replace("M.", &format!("{}.", m)) } else { v };
    let v = if v.contains("dd") { v.replace("dd", &format!("{:02}", d)) } else if p.starts_with('d') { v.replacen('d', &d.to_string(), 1) } else if p.starts_with("EEEE") { v.replacen(", d", &format!(", {}", d), 1) } else { format!("{}{}", &v[..v.len() - 1], d) };
    ensure!(validate_datetime(&v, p).is_ok() == (*d <= last.day()), "{:?} with pattern {:?}: {:?}, the month has {} days", v, p, validate_datetime(&v, p), last.day());
    Ok(())
  });
  h.check("generates", 60_000, "patterns of expressible elements, written for arbitrary dates and offsets; non-trivial: at least three elements", || (elements(expressible()), civil(), offset()), |(els, dt, off), c| {
    let els: Vec<El> = without(els, |e| matches!(e, El::L('k', _) if dt.hour() == 0) || matches!(e, El::L('K', _) if dt.hour() % 12 == 0));
    if els.is_empty() { return Ok(()); }
    c.nontrivial(els.len() >= 5);
    let p = pattern(&els);
    let tokens = parse_pattern(&p)?;
    let z: DateTime<FixedOffset> = off.from_local_datetime(dt).unwrap();
    let got = z.format(&to_chrono_pattern(&tokens)).to_string();
    let want: String = els.iter().map(|e| match e { El::L(c, n) => padded(*c, *n, dt, off.local_minus_utc()), El::Text(t) => t.clone() }).collect();
    ensure_eq!(got, want, "{} with pattern {:?}", z, p);
    if !confusing(&els) && !leap_day_of_no_year(&els, dt) && !els.iter().any(|e| matches!(e, El::L('D', _)) && dt.ordinal() > 356) && !els.windows(2).any(|w| matches!(w, [El::L(..), El::L(..)])) {
      ensure_eq!(validate_datetime(&got, &p), Ok(()), "the text {:?} generated with pattern {:?}", got, p);
    }
    Ok(())
  });
  h.check("own_format", 20_000, "texts generated for the current time, with patterns of expressible elements; non-trivial: at least three elements", || elements(expressible()), |els, c| {
    let els: Vec<El> = without(els, |e| matches!(e, El::L('k' | 'K' | 'D', _)));
    if els.is_empty() || confusing(&els) || els.windows(2).any(|w| matches!(w, [El::L(..), El::L(..)])) { return Ok(()); }
    c.nontrivial(els.len() >= 5);
    let p = pattern(&els);
    let v = generate_string(&p)?;
    ensure_eq!(validate_datetime(&v, &p), Ok(()), "the text {:?} generated with pattern {:?}", v, p);
    Ok(())
  });
  let own = |p: &'static str, hour: u32| move || {
    let z = Utc.with_ymd_and_hms(2024, 1, 2, hour, 5, 6).unwrap();
    let got = z.format(&to_chrono_pattern(&parse_pattern(p)?)).to_string();
    validate_datetime(&got, p).map_err(|e| format!("{:?} generated with {:?}: {}", got, p, e))
  };
  h.pinned("generate_hour_0_11", "K at noon", own("K", 12));
  h.pinned("generate_hour_1_24", "k at midnight", own("k", 0));
  h.pinned("generate_short_fraction", "ss.S", own("ss.S", 1));
  h.pinned("generate_quarter", "QQQ", own("QQQ", 1));
  h.pinned("generate_day_milliseconds", "A", own("A", 1));
  h.pinned("generate_week", "ww", own("ww", 1));
  h.pinned("day_356", "D on December 31st", || validate_datetime("366", "D"));
}
