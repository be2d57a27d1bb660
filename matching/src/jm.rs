//! Reference model of matching JSON values, written from the semantics of the matching rules.
use proptest::prelude::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap};
use pact_models::generators::Generator;
use pact_models::matchingrules::{Category, MatchingRule, MatchingRuleCategory, RuleList, RuleLogic};
use pact_models::matchingrules::expressions::{MatchingRuleDefinition, ValueType};
use pact_models::path_exp::DocPath;
use pact_models::bodies::OptionalBody;
use pact_models::v4::http_parts::HttpRequest;
use pact_matching::{CoreMatchingContext, DiffConfig, Mismatch};
use crate::g::B;
use itertools::Either;


// ---------------------------------------------------------------- regular expressions
/// A pattern built from repeated character classes, with its own matcher.
#[derive(Clone, Debug, PartialEq)]
pub struct Re(pub Vec<(char, usize, usize)>, pub bool);

impl Re {
  fn class(c: char, x: char) -> bool {
    match c { 'd' => x.is_ascii_digit(), 'l' => x.is_ascii_lowercase(), '.' => x != '\n', 'w' => x.is_ascii_alphanumeric() || x == '_', _ => unreachable!() }
  }
  fn go(&self, i: usize, n: usize, s: &[char]) -> bool {
    let Some(&(c, lo, hi)) = self.0.get(i) else { return s.is_empty() };
    if n >= lo && self.go(i + 1, 0, s) { return true; }
    (hi == 9 || n < hi) && !s.is_empty() && (if c == '-' { s[0] == '-' } else { Re::class(c, s[0]) }) && self.go(i, n + 1, &s[1..])
  }
  pub fn matches(&self, s: &str) -> bool { self.go(0, 0, &s.chars().collect::<Vec<_>>()) }
  pub fn text(&self) -> String {
    let b: String = self.0.iter().map(|&(c, lo, hi)| {
      let cl = match c { 'd' => "[0-9]", 'l' => "[a-z]", '.' => ".", 'w' => "[A-Za-z0-9_]", _ => "-" };
      match (lo, hi) { (1, 1) => cl.to_string(), (0, 1) => format!("{}?", cl), (1, 9) => format!("{}+", cl), (0, 9) => format!("{}*", cl), (a, b) => format!("{}{{{},{}}}", cl, a, b) }
    }).collect();
    if self.1 { format!("^{}$", b) } else { b }
  }
}

pub fn re() -> B<Re> {
  (prop::collection::vec((prop::sample::select(vec!['d', 'l', '.', 'w', '-']), prop::sample::select(vec![(1usize, 1usize), (0, 1), (1, 9), (0, 9), (2, 3), (1, 2)])), 1..3), any::<bool>())
    .prop_map(|(v, a)| Re(v.into_iter().map(|(c, (l, h))| (c, l, h)).collect(), a)).boxed()
}

// ---------------------------------------------------------------- rules
#[derive(Clone, Debug, PartialEq)]
pub enum Ru {
  Type, Min(usize), Max(usize), MinMax(usize, usize), Eq, Regex(Re), Include(String), Null, Int, Dec, Num, Bool, NotEmpty, Semver, Date, Time,
  Values, EachKey(Vec<Ru>), EachValue(Vec<Ru>), Contains(Vec<(usize, Rules)>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Rl { pub rules: Vec<Ru>, pub or: bool }
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Tok { F(String), I(usize), Star, StarI }
pub type Rules = Vec<(Vec<Tok>, Rl)>;

fn def(rules: &[Ru]) -> MatchingRuleDefinition {
  MatchingRuleDefinition { value: String::new(), value_type: ValueType::Unknown, rules: rules.iter().map(|r| Either::Left(r.build())).collect(), generator: None, expression: String::new() }
}

impl Ru {
  pub fn build(&self) -> MatchingRule {
    match self {
      Ru::Type => MatchingRule::Type, Ru::Min(n) => MatchingRule::MinType(*n), Ru::Max(n) => MatchingRule::MaxType(*n), Ru::MinMax(a, b) => MatchingRule::MinMaxType(*a, *b),
      Ru::Eq => MatchingRule::Equality, Ru::Regex(r) => MatchingRule::Regex(r.text()), Ru::Include(s) => MatchingRule::Include(s.clone()), Ru::Null => MatchingRule::Null,
      Ru::Int => MatchingRule::Integer, Ru::Dec => MatchingRule::Decimal, Ru::Num => MatchingRule::Number, Ru::Bool => MatchingRule::Boolean, Ru::NotEmpty => MatchingRule::NotEmpty,
      Ru::Semver => MatchingRule::Semver, Ru::Date => MatchingRule::Date("yyyy-MM-dd".into()), Ru::Time => MatchingRule::Time(String::new()), Ru::Values => MatchingRule::Values,
      Ru::EachKey(r) => MatchingRule::EachKey(def(r)), Ru::EachValue(r) => MatchingRule::EachValue(def(r)),
      Ru::Contains(v) => MatchingRule::ArrayContains(v.iter().map(|(i, r)| (*i, category(r, "body"), HashMap::<DocPath, Generator>::new())).collect()),
    }
  }
}

pub fn doc_path(p: &[Tok]) -> DocPath {
  let mut d = DocPath::root();
  for t in p { match t { Tok::F(f) => { d.push_field(f.clone()); } Tok::I(i) => { d.push_index(*i); } Tok::Star => { d.push_star(); } Tok::StarI => { d.push_star_index(); } } }
  d
}

impl Rl {
  pub fn build(&self) -> RuleList { RuleList { rules: self.rules.iter().map(|r| r.build()).collect(), rule_logic: if self.or { RuleLogic::Or } else { RuleLogic::And }, cascaded: false } }
}

pub fn category(r: &Rules, name: &str) -> MatchingRuleCategory {
  let c: Category = name.into();
  MatchingRuleCategory { name: c, rules: r.iter().map(|(p, l)| (doc_path(p), l.build())).collect() }
}

// ---------------------------------------------------------------- scalar semantics
pub fn is_semver(s: &str) -> bool {
  let (core, rest) = match s.find(['-', '+']) { Some(i) => s.split_at(i), None => (s, "") };
  let num = |t: &str| !t.is_empty() && t.chars().all(|c| c.is_ascii_digit()) && (t == "0" || !t.starts_with('0')) && t.len() < 18;
  let ids = |t: &str, pre: bool| t.split('.').all(|i| !i.is_empty() && i.chars().all(|c| c.is_ascii_alphanumeric() || c == '-') && (!pre || !i.chars().all(|c| c.is_ascii_digit()) || num(i)));
  let c: Vec<&str> = core.split('.').collect();
  if c.len() != 3 || !c.iter().all(|t| num(t)) { return false; }
  let (pre, build) = match rest.strip_prefix('-') { Some(r) => match r.split_once('+') { Some((p, b)) => (Some(p), Some(b)), None => (Some(r), None) }, None => (None, rest.strip_prefix('+')) };
  pre.map(|p| ids(p, true)).unwrap_or(true) && build.map(|b| ids(b, false)).unwrap_or(true)
}
/// Numbers may have fewer digits than the pattern has letters.
fn numbers(s: &str, sep: char, max: [usize; 3]) -> Option<[u32; 3]> {
  let p: Vec<&str> = s.split(sep).collect();
  if p.len() != 3 || !p.iter().zip(max).all(|(t, m)| !t.is_empty() && t.len() <= m && t.chars().all(|c| c.is_ascii_digit())) { return None; }
  Some([p[0].parse().unwrap(), p[1].parse().unwrap(), p[2].parse().unwrap()])
}
pub fn is_date(s: &str) -> bool {
  let Some([y, m, d]) = numbers(s, '-', [4, 2, 2]) else { return false };
  let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
  let max = match m { 1 | 3 | 5 | 7 | 8 | 10 | 12 => 31, 4 | 6 | 9 | 11 => 30, 2 => if leap { 29 } else { 28 }, _ => 0 };
  d >= 1 && d <= max
}
pub fn is_time(s: &str) -> bool { numbers(s, ':', [2, 2, 2]).map(|[h, m, s]| h < 24 && m < 60 && s < 60).unwrap_or(false) }
fn jtext(v: &Value) -> String { match v { Value::String(s) => s.clone(), o => o.to_string() } }
fn kind(v: &Value) -> u8 { match v { Value::Null => 0, Value::Bool(_) => 1, Value::Number(_) => 2, Value::String(_) => 3, Value::Array(_) => 4, Value::Object(_) => 5 } }

/// Does one JSON value satisfy a rule, given the example value.
pub fn value_ok(r: &Ru, e: &Value, a: &Value, casc: bool) -> bool {
  let len = |v: &Value| v.as_array().map(|l| l.len());
  match r {
    Ru::Type => kind(e) == kind(a),
    Ru::Min(n) => kind(e) == kind(a) && (casc || len(a).map(|l| l >= *n).unwrap_or(true)),
    Ru::Max(n) => kind(e) == kind(a) && (casc || len(a).map(|l| l <= *n).unwrap_or(true)),
    Ru::MinMax(n, m) => kind(e) == kind(a) && (casc || len(a).map(|l| l >= *n && l <= *m).unwrap_or(true)),
    Ru::Eq | Ru::Values => e == a,
    Ru::Regex(re) => re.matches(&jtext(a)),
    Ru::Include(s) => jtext(a).contains(s.as_str()),
    Ru::Null => a.is_null(),
    Ru::Int => a.is_i64() || a.is_u64(),
    Ru::Dec => a.is_f64(),
    Ru::Num => a.is_number(),
    Ru::Bool => a.is_boolean() || matches!(a.as_str(), Some("true") | Some("false")),
    Ru::NotEmpty => !(a.is_null() || a == &json!("") || a == &json!([]) || a == &json!({})),
    Ru::Semver => a.as_str().map(is_semver).unwrap_or(false),
    Ru::Date => is_date(&jtext(a)),
    Ru::Time => is_time(&jtext(a)),
    Ru::EachKey(_) | Ru::EachValue(_) | Ru::Contains(_) => true,
  }
}

/// Does a text (a key, header, parameter) satisfy a rule; None when the rule does not apply to texts.
pub fn text_ok(r: &Ru, e: &str, a: &str, casc: bool) -> bool {
  match r {
    Ru::Type | Ru::Min(_) | Ru::Max(_) | Ru::MinMax(..) => true,
    Ru::Eq | Ru::Values => e == a,
    Ru::Regex(re) => re.matches(a),
    Ru::Include(s) => a.contains(s.as_str()),
    Ru::Num | Ru::Dec => is_number(a),
    Ru::Int => is_whole(a),
    Ru::Bool => a == "true" || a == "false",
    Ru::NotEmpty => !a.is_empty(),
    Ru::Semver => is_semver(a),
    Ru::Date => is_date(a),
    Ru::Time => is_time(a),
    Ru::Null | Ru::Contains(_) => false,
    Ru::EachKey(_) | Ru::EachValue(_) => casc,
  }
}
/// An optionally signed decimal number, with fraction or exponent.
pub fn is_number(s: &str) -> bool {
  let t = s.strip_prefix(['-', '+']).unwrap_or(s);
  let (m, e) = match t.find(['e', 'E']) { Some(i) => (&t[..i], Some(&t[i + 1..])), None => (t, None) };
  let digits = |x: &str| x.chars().all(|c| c.is_ascii_digit());
  let (i, f) = match m.split_once('.') { Some((i, f)) => (i, f), None => (m, "") };
  digits(i) && digits(f) && (i.len() + f.len() > 0) && e.map(|e| { let e = e.strip_prefix(['-', '+']).unwrap_or(e); !e.is_empty() && digits(e) }).unwrap_or(true)
}
pub fn is_whole(s: &str) -> bool { let t = s.strip_prefix(['-', '+']).unwrap_or(s); !t.is_empty() && t.chars().all(|c| c.is_ascii_digit()) && s.parse::<i128>().map(|n| n >= i64::MIN as i128 && n <= u64::MAX as i128).unwrap_or(false) }

// ---------------------------------------------------------------- structure
#[derive(Clone, Debug, Default)]
pub struct Out { pub paths: BTreeMap<String, Vec<Option<(String, String)>>>, pub ambiguous: bool, pub used: u32 }
impl Out {
  pub fn at(&mut self, p: &[Tok]) { self.paths.entry(doc_path(p).to_string()).or_default().push(None); }
  pub fn val(&mut self, p: &[Tok], e: &Value, a: &Value) { self.paths.entry(doc_path(p).to_string()).or_default().push(Some((e.to_string(), a.to_string()))); }
  pub fn pair(&mut self, p: &[Tok], e: &str, a: &str) { self.paths.entry(doc_path(p).to_string()).or_default().push(Some((e.to_string(), a.to_string()))); }
  pub fn join(&mut self, o: Out) { self.ambiguous |= o.ambiguous; self.used += o.used; for (k, v) in o.paths { self.paths.entry(k).or_default().extend(v); } }
  pub fn ok(&self) -> bool { self.paths.is_empty() }
}

fn tok_weight(rule: &Tok, at: &Tok) -> usize {
  match (rule, at) { (Tok::Star, _) => 1, (Tok::StarI, Tok::I(_)) => 1, (a, b) if a == b => 2, _ => 0 }
}

pub struct M<'a> { pub rules: &'a Rules, pub strict: bool }

impl<'a> M<'a> {
  pub fn weight(r: &[Tok], p: &[Tok]) -> Option<usize> {
    if r.len() > p.len() { return None; }
    let w = r.iter().zip(p).fold(2usize, |w, (a, b)| w * tok_weight(a, b));
    if w == 0 { None } else { Some(w) }
  }
  /// The rules that apply at a path: the best by weight times length; the flag says whether they come from further up.
  pub fn best(&self, p: &[Tok], out: &mut Out) -> Option<(&'a Rl, bool)> {
    let mut found: Vec<(usize, &'a Vec<Tok>, &'a Rl)> = self.rules.iter().filter_map(|(r, l)| M::weight(r, p).map(|w| (w * (r.len() + 1), r, l))).collect();
    found.sort_by_key(|f| f.0);
    let (w, r, l) = found.pop()?;
    if found.last().map(|o| o.0 == w && o.2 != l).unwrap_or(false) { out.ambiguous = true; }
    if found.last().map(|o| o.0 == w && o.1.len() != r.len()).unwrap_or(false) { out.ambiguous = true; }
    out.used += 1;
    Some((l, r.len() != p.len()))
  }
  fn exact(&self, p: &[Tok]) -> Vec<&'a Rl> {
    let mut f: Vec<(usize, &'a Rl)> = self.rules.iter().filter(|(r, _)| r.len() == p.len()).filter_map(|(r, l)| M::weight(r, p).map(|w| (w, l))).collect();
    f.sort_by_key(|x| std::cmp::Reverse(x.0));
    f.into_iter().map(|x| x.1).collect()
  }

  pub fn cmp(&self, p: &[Tok], e: &Value, a: &Value) -> Out {
    let mut out = Out::default();
    match (e, a) {
      (Value::Object(em), Value::Object(am)) => out.join(self.maps(p, em, am)),
      (Value::Array(el), Value::Array(al)) => out.join(self.lists(p, el, al)),
      (Value::Object(_), _) | (Value::Array(_), _) => out.at(p),
      _ => match self.best(p, &mut out) {
        None => if e != a { out.val(p, e, a); },
        Some((l, casc)) => {
          let bad = l.rules.iter().filter(|r| !value_ok(r, e, a, casc)).count();
          if bad > 0 && (!l.or || bad == l.rules.len()) { for _ in 0..bad { out.val(p, e, a); } }
        }
      }
    }
    out
  }

  fn keys(&self, p: &[Tok], em: &Map<String, Value>, am: &Map<String, Value>, out: &mut Out) {
    let exact = self.exact(p);
    let free = exact.first().map(|l| l.rules.iter().any(|r| matches!(r, Ru::Values | Ru::EachValue(_) | Ru::EachKey(_)))).unwrap_or(false);
    if !free {
      let missing = em.keys().any(|k| !am.contains_key(k));
      let extra = am.keys().any(|k| !em.contains_key(k));
      if missing || (self.strict && extra) { out.at(p); }
    }
    if !exact.is_empty() {
      let mut o = Out::default();
      let best = self.best(p, &mut o);
      if best.map(|b| b.1).unwrap_or(false) { out.ambiguous = true; }
      for r in best.iter().flat_map(|b| &b.0.rules) {
        if let Ru::EachKey(ks) = r {
          for k in ks { for key in am.keys() { if !text_ok(k, "", key, false) { let mut q = p.to_vec(); q.push(Tok::F(key.clone())); out.at(&q); } } }
        }
      }
    }
  }

  fn maps(&self, p: &[Tok], em: &Map<String, Value>, am: &Map<String, Value>) -> Out {
    let mut out = Out::default();
    if em.is_empty() && self.strict && !am.is_empty() { out.at(p); return out; }
    let sub = |k: &str| { let mut q = p.to_vec(); q.push(Tok::F(k.to_string())); q };
    match self.best(p, &mut out) {
      None => {
        self.keys(p, em, am, &mut out);
        for (k, v) in em { if let Some(x) = am.get(k) { out.join(self.cmp(&sub(k), v, x)); } }
      }
      Some((l, casc)) => {
        let each: Vec<Out> = l.rules.iter().map(|r| {
          let mut o = Out::default();
          if !casc && matches!(r, Ru::Values | Ru::EachValue(_)) {
            let inner;
            let m = if let Ru::EachValue(rs) = r {
              let mut q = p.to_vec(); q.push(Tok::Star);
              inner = vec![(q, Rl { rules: rs.clone(), or: false })];
              M { rules: &inner, strict: self.strict }
            } else { M { rules: self.rules, strict: self.strict } };
            let first = em.iter().min_by_key(|(k, _)| k.as_str()).map(|(_, v)| v);
            for (k, x) in am { if let Some(v) = em.get(k).or(first) { o.join(m.cmp(&sub(k), v, x)); } }
          } else {
            let n = am.len();
            let ok = match r {
              Ru::Type | Ru::Regex(_) | Ru::Values | Ru::EachKey(_) | Ru::EachValue(_) | Ru::Contains(_) => true,
              Ru::Min(m) => casc || n >= *m, Ru::Max(m) => casc || n <= *m, Ru::MinMax(m, x) => casc || (n >= *m && n <= *x),
              Ru::Eq => em == am,
              Ru::NotEmpty => n > 0,
              _ => false
            };
            if !ok { o.at(p); }
            self.keys(p, em, am, &mut o);
            for (k, v) in em { if let Some(x) = am.get(k) { o.join(self.cmp(&sub(k), v, x)); } }
          }
          o
        }).collect();
        M::combine(&mut out, each, l.or);
      }
    }
    out
  }

  fn combine(out: &mut Out, each: Vec<Out>, or: bool) {
    if or && each.iter().any(|o| o.ok()) { for o in each { out.ambiguous |= o.ambiguous; out.used += o.used; } }
    else { for o in each { out.join(o); } }
  }

  fn items(&self, p: &[Tok], el: &[Value], al: &[Value], out: &mut Out) {
    let sub = |i: usize| { let mut q = p.to_vec(); q.push(Tok::I(i)); q };
    for (i, x) in al.iter().enumerate() { if let Some(v) = el.get(i).or(el.first()) { out.join(self.cmp(&sub(i), v, x)); } }
    for i in al.len()..el.len() {
      let mut o = Out::default();
      if self.best(&sub(i), &mut o).is_none() { out.at(p); }
    }
  }

  fn lists(&self, p: &[Tok], el: &[Value], al: &[Value]) -> Out {
    let mut out = Out::default();
    let sub = |i: usize| { let mut q = p.to_vec(); q.push(Tok::I(i)); q };
    match self.best(p, &mut out) {
      None => {
        if el.len() != al.len() { out.at(p); }
        for (i, (v, x)) in el.iter().zip(al).enumerate() { out.join(self.cmp(&sub(i), v, x)); }
      }
      Some((l, casc)) => {
        let each: Vec<Out> = l.rules.iter().map(|r| {
          let mut o = Out::default();
          match r {
            Ru::Contains(vs) => {
              let root: Rules = vec![(vec![], Rl { rules: vec![Ru::Eq], or: false })];
              let all: Vec<(usize, &Rules)> = if vs.is_empty() { (0..el.len()).map(|i| (i, &root)).collect() } else { vs.iter().map(|(i, r)| (*i, r)).collect() };
              for (i, rs) in all {
                let m = M { rules: rs, strict: self.strict };
                let Some(v) = el.get(i) else { o.at(p); continue };
                let mut found = false;
                for x in al { let c = m.cmp(&[], v, x); o.ambiguous |= c.ambiguous; found |= c.ok(); }
                if !found { o.at(p); }
              }
            }
            Ru::EachValue(rs) => if !casc {
              let mut q = p.to_vec(); q.push(Tok::Star);
              let inner = vec![(q, Rl { rules: rs.clone(), or: false })];
              M { rules: &inner, strict: self.strict }.items(p, el, al, &mut o);
            },
            _ => {
              let n = al.len();
              let ok = match r {
                Ru::Min(m) => casc || n >= *m, Ru::Max(m) => casc || n <= *m, Ru::MinMax(m, x) => casc || (n >= *m && n <= *x),
                Ru::Eq => el == al,
                Ru::NotEmpty => n > 0,
                Ru::Null => false,
                _ => true
              };
              if !ok { o.at(p); }
              self.items(p, el, al, &mut o);
            }
          }
          o
        }).collect();
        M::combine(&mut out, each, l.or);
      }
    }
    out
  }
}

// ---------------------------------------------------------------- generators
pub fn key() -> B<String> { prop_oneof![8 => "[a-d]", 1 => Just("a b".to_string()), 1 => Just("é".to_string()), 1 => "[a-d][0-9]"].boxed() }
pub fn texts() -> B<String> {
  prop_oneof![4 => prop::sample::select(vec!["", "a", "ab", "abc", "a1", "12", "-", "x-y", "true", "false", "1.0.0", "1.2.3-beta.1+b", "01.0.0", "1.0", "2020-02-29", "2021-02-29", "2020-13-01", "10:20:30", "25:00:00", "null", "nan", "inf", "1e3", "1", "-5", "1.5", "é", "e\u{301}", " true", "True", "TRUE", "false ", "1 ", " 1", "\t1", "+1", "1_000", "0x1", "1.0.0 ", "v1.0.0", "1.0.0\n", "2020-02-29 ", " 2020-02-29", "2020-2-29", "10:20:30 ", "1.", ".5", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809"]).prop_map(|s| s.to_string()),
    2 => "[a-c0-9-]{0,4}", 1 => "[ -~é😀]{0,8}"].boxed()
}
pub fn scalar() -> B<Value> {
  prop_oneof![1 => Just(Value::Null), 2 => any::<bool>().prop_map(Value::Bool), 3 => (-3i64..10).prop_map(|n| json!(n)), 2 => prop::sample::select(vec![0.5, 1.5, 2.5, -1.5, 1e300]).prop_map(|f| json!(f)),
    1 => prop::sample::select(vec![u64::MAX, u64::MAX - 1, i64::MAX as u64 + 1, i64::MAX as u64, (1 << 53) + 1, 1 << 53]).prop_map(|n| json!(n)), 6 => texts().prop_map(Value::String)].boxed()
}
pub fn doc() -> B<Value> {
  scalar().prop_recursive(4, 24, 4, |inner| prop_oneof![
    2 => prop::collection::vec(inner.clone(), 0..4).prop_map(Value::Array),
    3 => prop::collection::vec((key(), inner), 0..4).prop_map(|v| Value::Object(v.into_iter().collect())),
  ]).boxed()
}
/// Mostly objects and lists.
pub fn big_doc() -> B<Value> {
  prop_oneof![1 => doc(), 5 => prop::collection::vec((key(), doc()), 1..4).prop_map(|v| Value::Object(v.into_iter().collect())), 3 => prop::collection::vec(doc(), 1..4).prop_map(Value::Array)].boxed()
}

#[derive(Clone, Debug)]
pub enum Edit { Near(u8), Set(Value), Drop, Dup, Add(String, Value), Push(Value), Swap }

pub fn edits(max: usize) -> B<Vec<(u16, Edit)>> {
  let e = prop_oneof![3 => any::<u8>().prop_map(Edit::Near), 5 => scalar().prop_map(Edit::Set), 1 => doc().prop_map(Edit::Set), 2 => Just(Edit::Drop), 2 => Just(Edit::Dup), 2 => (key(), scalar()).prop_map(|(k, v)| Edit::Add(k, v)), 2 => scalar().prop_map(Edit::Push), 1 => Just(Edit::Swap)];
  prop::collection::vec((any::<u16>(), e), 0..max).boxed()
}

/// A text that differs as little as possible.
pub fn near_text(s: &str, n: u8) -> String {
  let flip = |s: &str| -> String { s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() };
  match n % 12 {
    0 => format!("{} ", s), 1 => format!(" {}", s), 2 => format!("{}\n", s), 3 => flip(s), 4 => s.to_ascii_uppercase(), 5 => s.to_ascii_lowercase(), 6 => { let mut t = s.to_string(); t.pop(); t }
    7 => s.chars().rev().collect(), 8 => s.replace('é', "e\u{301}"), 9 => format!("{}/", s), 10 => s.chars().skip(1).collect(), _ => format!("{}0", s)
  }
}
fn near(v: &Value, n: u8) -> Value {
  match v {
    Value::String(s) => Value::String(near_text(s, n)),
    Value::Number(x) => if let Some(u) = x.as_u64() { if n & 1 == 1 { json!(u.saturating_add(1)) } else { json!(u as i128 - 1).as_i64().map(|i| json!(i)).unwrap_or(json!(u.saturating_sub(1))) } }
      else if let Some(i) = x.as_i64() { if n & 1 == 1 { json!(i + 1) } else { json!(-i) } }
      else { let f = x.as_f64().unwrap(); if f.abs() < 1e6 { json!(f + if n & 1 == 1 { 0.25 } else { -0.0625 }) } else { json!(-f) } },
    Value::Bool(b) => if n & 3 == 0 { json!(b.to_string()) } else { json!(!b) },
    Value::Null => [json!("null"), json!(""), json!(0), json!([]), json!({}), json!(false)][n as usize % 6].clone(),
    Value::Array(l) => if l.is_empty() { [json!({}), json!(""), Value::Null, json!([null])][n as usize % 4].clone() } else { let mut l = l.clone(); if n & 1 == 1 { l.rotate_left(1); } else { let x = l[0].clone(); l.push(x); } Value::Array(l) },
    Value::Object(m) => if m.is_empty() { [json!([]), json!(""), Value::Null][n as usize % 3].clone() } else { let mut m = m.clone(); let k = m.keys().nth(n as usize % m.len()).unwrap().clone(); let x = m.remove(&k).unwrap(); let q = near_text(&k, n / 8); m.insert(if q.chars().all(|c| c.is_ascii_digit()) { format!("{}x", k) } else { q }, x); Value::Object(m) },
  }
}

pub fn nodes(v: &Value) -> Vec<Vec<Tok>> {
  fn go(v: &Value, p: &mut Vec<Tok>, out: &mut Vec<Vec<Tok>>) {
    out.push(p.clone());
    match v {
      Value::Array(l) => for (i, x) in l.iter().enumerate() { p.push(Tok::I(i)); go(x, p, out); p.pop(); },
      Value::Object(m) => for (k, x) in m { p.push(Tok::F(k.clone())); go(x, p, out); p.pop(); },
      _ => ()
    }
  }
  let mut out = vec![]; go(v, &mut vec![], &mut out); out
}
pub fn at_mut<'a>(v: &'a mut Value, p: &[Tok]) -> Option<&'a mut Value> {
  let mut v = v;
  for t in p { v = match t { Tok::F(f) => v.get_mut(f.as_str())?, Tok::I(i) => v.get_mut(*i)?, _ => return None }; }
  Some(v)
}
pub fn apply(doc: &Value, edits: &[(u16, Edit)]) -> Value {
  let mut d = doc.clone();
  for (w, e) in edits {
    let ns = nodes(&d);
    let p = &ns[*w as usize % ns.len()];
    match e {
      Edit::Near(n) => { let v = at_mut(&mut d, p).unwrap(); *v = near(v, *n); }
      Edit::Set(v) => { *at_mut(&mut d, p).unwrap() = v.clone(); }
      Edit::Drop => if let Some((last, up)) = p.split_last() {
        match (at_mut(&mut d, up).unwrap(), last) { (Value::Array(l), Tok::I(i)) => { l.remove(*i); } (Value::Object(m), Tok::F(f)) => { m.remove(f); } _ => () }
      },
      Edit::Dup => match at_mut(&mut d, p).unwrap() { Value::Array(l) if !l.is_empty() => { let x = l[*w as usize % l.len()].clone(); l.push(x); } _ => () },
      Edit::Add(k, v) => if let Some(Value::Object(m)) = at_mut(&mut d, p) { m.entry(k.clone()).or_insert(v.clone()); },
      Edit::Push(v) => if let Some(Value::Array(l)) = at_mut(&mut d, p) { l.push(v.clone()); },
      Edit::Swap => if let Some(Value::Array(l)) = at_mut(&mut d, p) { l.reverse(); },
    }
  }
  d
}

pub fn scalar_rule() -> B<Ru> {
  prop_oneof![4 => Just(Ru::Type), 3 => re().prop_map(Ru::Regex), 1 => Just(Ru::Include("a".into())), 1 => Just(Ru::Include("1".into())), 1 => Just(Ru::Null), 2 => Just(Ru::Int), 1 => Just(Ru::Dec), 2 => Just(Ru::Num), 1 => Just(Ru::Bool),
    1 => Just(Ru::NotEmpty), 1 => Just(Ru::Semver), 1 => Just(Ru::Date), 1 => Just(Ru::Time), 2 => Just(Ru::Eq)].boxed()
}
pub fn size_rule() -> B<Ru> {
  prop_oneof![Just(Ru::Type), (0usize..4).prop_map(Ru::Min), (0usize..4).prop_map(Ru::Max), (0usize..3, 0usize..3).prop_map(|(a, b)| Ru::MinMax(a, a + b)), Just(Ru::Eq), Just(Ru::NotEmpty)].boxed()
}
/// One rule as the generator chose it; what is used depends on the kind of value it lands on.
#[derive(Clone, Debug)]
pub struct Pick { at: u16, wild: u8, off: u8, scalar: Vec<Ru>, coll: Vec<Ru>, or: bool }

pub fn pick(coll: B<Ru>) -> B<Pick> {
  (any::<u16>(), any::<u8>(), any::<u8>(), prop_oneof![4 => prop::collection::vec(scalar_rule(), 1..2), 1 => prop::collection::vec(scalar_rule(), 2..3)],
    prop_oneof![5 => prop::collection::vec(coll.clone(), 1..2), 1 => prop::collection::vec(coll, 2..3)], prop::bool::weighted(0.3))
    .prop_map(|(at, wild, off, scalar, coll, or)| Pick { at, wild, off, scalar, coll, or }).boxed()
}
pub fn place(doc: &Value, picks: &[Pick]) -> Rules {
  let ns = nodes(doc);
  let mut out: Rules = vec![];
  for p in picks {
    let mut path = ns[p.at as usize % ns.len()].clone();
    let mut d = doc.clone();
    let coll = matches!(at_mut(&mut d, &path).unwrap(), Value::Array(_) | Value::Object(_));
    for (i, t) in path.iter_mut().enumerate() {
      if p.wild >> (i % 4) & 1 == 1 && p.wild & 0x30 == 0 {
        *t = match t { Tok::I(_) if p.wild & 0x40 == 0 => Tok::StarI, _ => Tok::Star };
      }
    }
    let l = Rl { rules: if coll ^ (p.off % 8 == 0) { p.coll.clone() } else { p.scalar.clone() }, or: p.or };
    if !out.iter().any(|(q, _)| *q == path) { out.push((path, l)); }
  }
  out
}

// ---------------------------------------------------------------- running the code
pub fn body(text: impl Into<Vec<u8>>) -> HttpRequest {
  HttpRequest { body: OptionalBody::Present(text.into().into(), Some("application/json".into()), None), ..HttpRequest::default() }
}
pub fn ctx(rules: &Rules, name: &str, strict: bool) -> CoreMatchingContext {
  CoreMatchingContext::new(if strict { DiffConfig::NoUnexpectedKeys } else { DiffConfig::AllowUnexpectedKeys }, &category(rules, name), &HashMap::new())
}
pub type Found = BTreeMap<String, Vec<(String, String)>>;
pub fn found(m: &[Mismatch]) -> Result<Found, String> {
  let mut out = Found::new();
  for x in m {
    match x {
      Mismatch::BodyMismatch { path, expected, actual, mismatch } => {
        if mismatch.is_empty() { return Err(format!("a mismatch without a description at {}", path)); }
        let t = |b: &Option<bytes::Bytes>| b.as_ref().map(|b| String::from_utf8_lossy(b).to_string()).unwrap_or_default();
        out.entry(path.clone()).or_default().push((t(expected), t(actual)));
      }
      o => return Err(format!("not a body mismatch: {:?}", o))
    }
  }
  Ok(out)
}
/// The code's report and the model's must name the same places, with the same values where a single value is wrong.
pub fn agree(model: &Out, code: &Found) -> Result<(), String> {
  let (m, c): (Vec<&String>, Vec<&String>) = (model.paths.keys().collect(), code.keys().collect());
  if m != c { return Err(format!("mismatches expected at {:?}, reported at {:?}", m, c)); }
  for (p, want) in &model.paths {
    for w in want.iter().flatten() {
      if !code[p].contains(w) { return Err(format!("at {} the values {:?} were not reported: {:?}", p, w, code[p])); }
    }
  }
  Ok(())
}
