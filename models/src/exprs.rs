//! P17 matching definition expressions.
use itertools::Either;
use proptest::prelude::*;
use pact_models::expression_parser::DataType;
use pact_models::generators::Generator;
use pact_models::matchingrules::MatchingRule;
use pact_models::matchingrules::expressions::*;
use pvfw::{ensure, ensure_eq, H};

use crate::g::*;

/// A character of a string with the way it is written.
#[derive(Clone, Debug)]
pub struct Ch(char, u8);
/// A string literal.
#[derive(Clone, Debug)]
pub struct Str(Vec<Ch>);

impl Str {
  fn value(&self) -> String { self.0.iter().map(|c| c.0).collect() }
  fn text(&self) -> String {
    let mut out = "'".to_string();
    for Ch(c, how) in &self.0 {
      let simple = match c { '\u{8}' => Some("\\b"), '\u{c}' => Some("\\f"), '\n' => Some("\\n"), '\r' => Some("\\r"), '\t' => Some("\\t"), '\\' => Some("\\\\"), _ => None };
      match (how % 8, simple) {
        (0, _) if (*c as u32) < 0x10000 => out += &format!("\\u{:04x}", *c as u32),
        (1, _) => out += &format!("\\u{{{:X}}}", *c as u32),
        (2, _) => out += &format!("\\u{{{:06x}}}", *c as u32),
        (_, Some(s)) if *c == '\\' || how % 8 < 6 => out += s,
        _ if *c == '\'' => out += &format!("\\u{:04X}", *c as u32),
        _ => out.push(*c),
      }
    }
    out + "'"
  }
}
fn string() -> B<Str> {
  prop_oneof![1 => Just(String::new()), 3 => "[a-zA-Z0-9 ]{0,8}", 1 => "\\PC{0,6}", 2 => "[a-c'\\\\\"(),$\\n\\r\\t\u{8}\u{c} {}.+*^é日😀-]{0,6}", 1 => special()]
    .prop_flat_map(|s| { let n = s.chars().count(); (Just(s), prop::collection::vec(prop_oneof![4 => Just(7u8), 3 => 3u8..8, 2 => 0u8..3], n)) })
    .prop_map(|(s, hows)| Str(s.chars().zip(hows).map(|(c, h)| Ch(c, h)).collect())).boxed()
}

#[derive(Clone, Debug)]
pub enum Prim { S(Str), Int(String), Dec(String), Bool(bool), Null, State(Str, Box<Prim>) }
impl Prim {
  fn tokens(&self, out: &mut Vec<String>) {
    match self {
      Prim::S(s) => out.push(s.text()), Prim::Int(s) | Prim::Dec(s) => out.push(s.clone()), Prim::Bool(b) => out.push(b.to_string()), Prim::Null => out.push("null".into()),
      Prim::State(e, p) => { out.extend(["fromProviderState".to_string(), "(".into(), e.text(), ",".into()]); p.tokens(out); out.push(")".into()); }
    }
  }
  fn value(&self) -> (String, ValueType, Option<Generator>) {
    match self {
      Prim::S(s) => (s.value(), ValueType::String, None), Prim::Int(s) => (s.clone(), ValueType::Integer, None), Prim::Dec(s) => (s.clone(), ValueType::Decimal, None),
      Prim::Bool(b) => (b.to_string(), ValueType::Boolean, None), Prim::Null => (String::new(), ValueType::String, None),
      Prim::State(e, p) => { let (v, t, _) = p.value();
        let dt = match t { ValueType::String => DataType::STRING, ValueType::Integer => DataType::INTEGER, ValueType::Decimal => DataType::DECIMAL, _ => DataType::BOOLEAN };
        (v, t, Some(Generator::ProviderStateGenerator(e.value(), Some(dt)))) }
    }
  }
}
fn int() -> B<String> { prop_oneof![4 => (0u64..1000).prop_map(|n| n.to_string()), 2 => (-1000i64..0).prop_map(|n| n.to_string()), 1 => "0[0-9]{1,3}", 1 => any::<u64>().prop_map(|n| n.to_string()), 1 => any::<i64>().prop_map(|n| n.to_string())].boxed() }
fn dec() -> B<String> { prop_oneof![3 => "-?[0-9]\\.[0-9]{1,4}", 3 => "-?[0-9]{1,6}\\.[0-9]{1,6}"].boxed() }
fn plain() -> B<Prim> { prop_oneof![4 => string().prop_map(Prim::S), 2 => int().prop_map(Prim::Int), 2 => dec().prop_map(Prim::Dec), 1 => any::<bool>().prop_map(Prim::Bool), 1 => Just(Prim::Null)].boxed() }
fn state(p: B<Prim>) -> B<Prim> { (string(), p).prop_map(|(e, p)| Prim::State(e, Box::new(p))).boxed() }
fn prim() -> B<Prim> { prop_oneof![4 => plain(), 1 => state(plain())].boxed() }

/// One definition: the words between the brackets, and what it means.
#[derive(Clone, Debug)]
pub enum Def {
  Equal(Prim), Type(Prim), Number(Prim), Integer(Prim), Decimal(Prim), Datetime(u8, Str, Prim), Regex(Str, Str), Include(Str), Bool(bool), Semver(String), Content(Str, Str), Ref(Str),
  NotEmpty(Prim), EachKey(Box<Def>), EachValue(Box<Def>), AtLeast(usize), AtMost(usize),
}
fn num(p: B<String>, f: fn(String) -> Prim) -> B<Prim> { let b = p.prop_map(f).boxed(); prop_oneof![4 => b.clone(), 1 => state(b)].boxed() }
fn nums() -> B<Prim> { let b = prop_oneof![int().prop_map(Prim::Int), dec().prop_map(Prim::Dec)].boxed(); prop_oneof![4 => b.clone(), 1 => state(b)].boxed() }
pub fn def() -> B<Def> {
  let text = || { let b = string().prop_map(Prim::S).boxed(); prop_oneof![2 => b.clone(), 1 => state(b)].boxed() };
  prop_oneof![
    2 => prim().prop_map(Def::Equal), 3 => prim().prop_map(Def::Type), 2 => nums().prop_map(Def::Number), 2 => num(int(), Prim::Int).prop_map(Def::Integer), 2 => nums().prop_map(Def::Decimal),
    3 => (0u8..3, string(), text()).prop_map(|(k, f, v)| Def::Datetime(k, f, v)), 2 => (string(), string()).prop_map(|(a, b)| Def::Regex(a, b)), 1 => string().prop_map(Def::Include), 1 => any::<bool>().prop_map(Def::Bool),
    1 => "[0-9]{1}\\.[1-9][0-9]?\\.[0-9](-[a-z]{1,3})?(\\+[a-z]{1,3})?".prop_map(Def::Semver), 1 => (string(), string()).prop_map(|(a, b)| Def::Content(a, b)), 1 => string().prop_map(Def::Ref),
    2 => prim().prop_map(Def::NotEmpty), 1 => (0usize..1000).prop_map(Def::AtLeast), 1 => (0usize..1000).prop_map(Def::AtMost),
  ].prop_recursive(3, 4, 1, |d| prop_oneof![d.clone().prop_map(|d| Def::EachKey(Box::new(d))), d.prop_map(|d| Def::EachValue(Box::new(d)))]).boxed()
}
const KINDS: [&str; 3] = ["datetime", "date", "time"];
impl Def {
  fn tokens(&self, out: &mut Vec<String>) {
    let mut rule = |name: &str, strs: Vec<&Str>, p: Option<&Prim>| {
      out.extend(["matching".to_string(), "(".into(), name.into()]);
      for s in strs { out.extend([",".to_string(), s.text()]); }
      if let Some(p) = p { out.push(",".into()); p.tokens(out); }
      out.push(")".into());
    };
    match self {
      Def::Equal(p) => rule("equalTo", vec![], Some(p)), Def::Type(p) => rule("type", vec![], Some(p)), Def::Number(p) => rule("number", vec![], Some(p)), Def::Integer(p) => rule("integer", vec![], Some(p)), Def::Decimal(p) => rule("decimal", vec![], Some(p)),
      Def::Datetime(k, f, p) => rule(KINDS[*k as usize], vec![f], Some(p)), Def::Regex(r, v) => rule("regex", vec![r, v], None), Def::Include(v) => rule("include", vec![v], None), Def::Bool(b) => rule("boolean", vec![], Some(&Prim::Bool(*b))),
      Def::Semver(v) => rule("semver", vec![&Str(v.chars().map(|c| Ch(c, 7)).collect())], None), Def::Content(c, v) => rule("contentType", vec![c, v], None),
      Def::Ref(s) => out.extend(["matching".to_string(), "(".into(), "$".into(), s.text(), ")".into()]),
      Def::NotEmpty(p) => { out.extend(["notEmpty".to_string(), "(".into()]); p.tokens(out); out.push(")".into()); }
      Def::EachKey(d) => { out.extend(["eachKey".to_string(), "(".into()]); d.tokens(out); out.push(")".into()); }
      Def::EachValue(d) => { out.extend(["eachValue".to_string(), "(".into()]); d.tokens(out); out.push(")".into()); }
      Def::AtLeast(n) => out.extend(["atLeast".to_string(), "(".into(), n.to_string(), ")".into()]),
      Def::AtMost(n) => out.extend(["atMost".to_string(), "(".into(), n.to_string(), ")".into()]),
    }
  }
  fn meaning(&self, expression: &str) -> MatchingRuleDefinition {
    use MatchingRule as R;
    use ValueType as T;
    let (value, value_type, rule, generator) = match self {
      Def::Equal(p) => { let (v, t, g) = p.value(); (v, t, R::Equality, g) }
      Def::Type(p) => { let (v, t, g) = p.value(); (v, t, R::Type, g) }
      Def::NotEmpty(p) => { let (v, t, g) = p.value(); (v, t, R::NotEmpty, g) }
      Def::Number(p) | Def::Integer(p) | Def::Decimal(p) => {
        let (r, own) = match self { Def::Number(_) => (R::Number, T::Number), Def::Integer(_) => (R::Integer, T::Integer), _ => (R::Decimal, T::Decimal) };
        let (v, t, g) = p.value();
        (v, if g.is_some() { t } else { own }, r, g)
      }
      Def::Datetime(k, f, p) => { let (v, t, g) = p.value(); let f = f.value();
        let own = match k { 0 => Generator::DateTime(Some(f.clone()), None), 1 => Generator::Date(Some(f.clone()), None), _ => Generator::Time(Some(f.clone()), None) };
        (v, t, match k { 0 => R::Timestamp(f), 1 => R::Date(f), _ => R::Time(f) }, g.or(Some(own))) }
      Def::Regex(r, v) => (v.value(), T::String, R::Regex(r.value()), None), Def::Include(v) => (v.value(), T::String, R::Include(v.value()), None), Def::Bool(b) => (b.to_string(), T::Boolean, R::Boolean, None),
      Def::Semver(v) => (v.clone(), T::String, R::Semver, None), Def::Content(c, v) => (v.value(), T::Unknown, R::ContentType(c.value()), None),
      Def::Ref(n) => return MatchingRuleDefinition { value: n.value(), value_type: T::Unknown, rules: vec![Either::Right(MatchingReference { name: n.value() })], generator: None, expression: expression.to_string() },
      Def::EachKey(d) => (String::new(), T::Unknown, R::EachKey(d.meaning(expression)), None), Def::EachValue(d) => (String::new(), T::Unknown, R::EachValue(d.meaning(expression)), None),
      Def::AtLeast(n) => (String::new(), T::Unknown, R::MinType(*n), None), Def::AtMost(n) => (String::new(), T::Unknown, R::MaxType(*n), None),
    };
    MatchingRuleDefinition { value, value_type, rules: vec![Either::Left(rule)], generator, expression: expression.to_string() }
  }
}
fn rank(t: ValueType) -> u8 { match t { ValueType::Unknown => 0, ValueType::Boolean => 1, ValueType::Number => 2, ValueType::Integer => 3, ValueType::Decimal => 4, ValueType::String => 5 } }

fn tokens(ds: &[Def]) -> Vec<String> {
  let mut out = vec![];
  for (i, d) in ds.iter().enumerate() { if i > 0 { out.push(",".into()); } d.tokens(&mut out); }
  out
}
const WS: [&str; 7] = ["", " ", "", "  ", "\t", "\n", "\r\n"];
fn join(toks: &[String], ws: &[usize], apart: bool) -> String {
  let mut out = String::new();
  for (i, t) in toks.iter().enumerate() {
    if i > 0 { let w = ws.get(i % ws.len().max(1)).map_or("", |w| WS[w % 7]); out += if apart && w.is_empty() { " " } else { w }; }
    out += t;
  }
  out
}
fn defs() -> B<Vec<Def>> { prop_oneof![3 => def().prop_map(|d| vec![d]), 2 => prop::collection::vec(def(), 1..4)].boxed() }
/// Several definitions of which more than one may have a value, a generator or neither.
fn several() -> B<Vec<Def>> {
  let s = || prop_oneof![Just(Str(vec![])), Just(Str(vec![Ch('x', 7)])), string()].prop_map(Prim::S).boxed();
  let v = move || prop_oneof![2 => s(), 1 => state(s()), 1 => Just(Prim::Null), 1 => plain()].boxed();
  let t = move || prop_oneof![3 => s(), 1 => state(s())].boxed();
  prop::collection::vec(prop_oneof![3 => (0u8..3, string(), t()).prop_map(|(k, f, v)| Def::Datetime(k, f, v)), 1 => v().prop_map(Def::Type), 1 => v().prop_map(Def::Equal), 1 => v().prop_map(Def::NotEmpty), 2 => def()], 2..5).boxed()
}
fn spaces() -> B<Vec<usize>> { prop_oneof![Just(vec![0]), prop::collection::vec(0usize..7, 1..8)].boxed() }

pub fn definition() -> B<String> { (defs(), spaces()).prop_map(|(d, w)| join(&tokens(&d), &w, false)).boxed() }

pub fn p17(h: &mut H) {
  h.assume("A quote inside a string is written as a Unicode escape: an existing test has the backslash of \\' stay in the value, against the documentation. Whole numbers fit 64 bits.");
  h.check("definitions", 300_000, "definitions built from the documented grammar (nested to 3, up to 3 in a row) written with every escape and white space; non-trivial: an escape, a nested, a referring or a provider state definition, or several", || (prop_oneof![2 => defs(), 1 => several()], spaces()), |(ds, ws), c| {
    let e = join(&tokens(ds), ws, false);
    c.nontrivial(e.contains('\\') || ds.len() > 1 || e.contains("each") || e.contains('$') || e.contains("fromProvider"));
    c.label_if(e.contains("fromProvider"), "provider state"); c.label_if(e.contains("\\u"), "unicode escape"); c.label_if(e.contains("\\\\'"), "string ending in a backslash");
    let parts: Vec<_> = ds.iter().map(|d| d.meaning(&e)).collect();
    let want = MatchingRuleDefinition {
      value: parts.iter().map(|p| p.value.clone()).find(|v| !v.is_empty()).unwrap_or_default(),
      value_type: parts.iter().map(|p| p.value_type).max_by_key(|t| rank(*t)).unwrap(),
      rules: parts.iter().flat_map(|p| p.rules.clone()).collect(),
      generator: parts.iter().find_map(|p| p.generator.clone()),
      expression: e.clone(),
    };
    match parse_matcher_def(&e) { Ok(got) => ensure_eq!(got, want, "{:?}", e), Err(err) => return Err(format!("{:?} is rejected: {}", e, err)) }
    ensure!(is_matcher_def(&e), "{:?} is not taken for a definition", e);
    Ok(())
  });
  h.check("malformed", 200_000, "definitions with one word removed, added or misspelled anywhere, or cut short; non-trivial: the change is after the first five words", || (defs(), spaces(), any::<prop::sample::Index>(), 0u8..4,
    prop::sample::select(vec![",", "(", ")", "'x'", "5", "-5", ".", "!", "\"x\"", "x", "matching", "$", "1.5", "null", "é", "[", ".5", "'"])), |(ds, ws, at, how, extra), c| {
    let full = tokens(ds);
    let mut toks = full.clone();
    let apart = *how == 1;
    match how {
      0 => { let i = at.index(toks.len()); c.nontrivial(i > 4); toks.remove(i); }
      1 => { let i = at.index(toks.len() + 1); c.nontrivial(i > 4); toks.insert(i, extra.to_string()); }
      2 => { let words: Vec<usize> = (0..toks.len()).filter(|i| toks[*i].starts_with(|c: char| c.is_ascii_alphabetic())).collect();
        let i = words[at.index(words.len())]; c.nontrivial(i > 4); toks[i].push('s'); }
      _ => { let i = at.index(toks.len()); c.nontrivial(i > 4); toks.truncate(i);
        // a cut between two definitions leaves a valid list
        let mut depth = 0; for t in &toks { if t == "(" { depth += 1 } else if t == ")" { depth -= 1 } }
        if depth == 0 && toks.last().is_some_and(|t| t == ")") { return Ok(()) } }
    }
    let e = join(&toks, ws, apart);
    // a quote of its own opens a string, which may be complete
    if *how == 1 && *extra == "'" && full.iter().any(|t| t.starts_with('\'')) { return Ok(()) }
    if let Ok(d) = parse_matcher_def(&e) { return Err(format!("{:?} is accepted as {:?}", e, d)) }
    Ok(())
  });
  h.check("no_definition", 60_000, "arbitrary texts and definitions under misspelled names; non-trivial: a misspelled name", || prop_oneof![text().prop_map(|t| (t, false)),
    (def(), prop::sample::select(vec!["match", "matchings", "Matching", "notempty", "eachkeys", "eachItem", "atleast", "atMosts", "each"])).prop_map(|(d, w)| { let mut t = vec![]; d.tokens(&mut t); t[0] = w.to_string(); (t.concat(), true) })], |(t, named), c| {
    c.nontrivial(*named);
    let r = parse_matcher_def(t);
    ensure!(r.is_err(), "{:?} is accepted as {:?}", t, r);
    if *named { ensure!(!is_matcher_def(t), "{:?} is taken for a definition", t); }
    Ok(())
  });
}
