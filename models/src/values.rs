//! P19 generated values, P22 provider state expressions and data types, P23 generators applied to bodies, P24 paths resolved in documents.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::convert::TryFrom;
use chrono::{Local, TimeZone};
use pact_models::expression_parser::{DataType, DataValue, MapValueResolver, contains_expressions, parse_expression};
use pact_models::generators::form_urlencoded::FormUrlEncodedHandler;
use pact_models::generators::{ContentTypeHandler, GenerateValue, Generator, GeneratorTestMode, JsonHandler, NoopVariantMatcher, UuidFormat, VariantMatcher, generate_value_from_context};
use pact_models::matchingrules::MatchingRuleCategory;
use pact_models::path_exp::{DocPath, PathToken};
use pact_models::{json_utils, xml_utils};
use proptest::prelude::*;
use pvfw::{ensure, ensure_eq, H, R};
use regex::Regex;
use serde_json::{json, Map, Value};

use crate::dates::{civil, padded, El};
use crate::g::*;
use crate::paths::print;
use crate::rules::{data_type, uuid_format};

type Ctx<'a> = HashMap<&'a str, Value>;
fn noop() -> Box<dyn VariantMatcher + Send + Sync> { NoopVariantMatcher.boxed() }
fn gs(g: &Generator, ctx: &Ctx) -> Result<String, String> { GenerateValue::<String>::generate_value(g, &"example".to_string(), ctx, &noop()).map_err(|e| e.to_string()) }
fn gv(g: &Generator, v: &Value, ctx: &Ctx) -> Result<Value, String> { GenerateValue::<Value>::generate_value(g, v, ctx, &noop()).map_err(|e| e.to_string()) }
fn gl(g: &Generator, ctx: &Ctx) -> Result<Vec<String>, String> { GenerateValue::<Vec<String>>::generate_value(g, &vec!["a".to_string(), "b".to_string()], ctx, &noop()).map_err(|e| e.to_string()) }
fn gu(g: &Generator, ctx: &Ctx) -> Result<u16, String> { GenerateValue::<u16>::generate_value(g, &200, ctx, &noop()).map_err(|e| e.to_string()) }

fn example() -> B<Value> { prop_oneof![2 => Just(json!("example")), 2 => Just(json!(100)), 1 => Just(json!(1.5)), 1 => Just(Value::Null), 1 => json_value()].boxed() }

// ---------------------------------------------------------------- P19

fn int() -> B<i32> { prop_oneof![4 => -20i32..20, 2 => any::<i32>(), 2 => prop::sample::select(vec![0, -1, 1, i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, 65534, 65535, 65536, -65536, 200, 599])].boxed() }

/// A regular expression as a tree.
#[derive(Debug, Clone)]
pub enum Re { Lit(char), Class(&'static str), Cat(Vec<Re>), Alt(Vec<Re>), Rep(Box<Re>, &'static str), Group(Box<Re>) }
fn re_text(r: &Re) -> String {
  match r {
    Re::Lit(c) if "\\.+*?()|[]{}^$/-#&~".contains(*c) => format!("\\{}", c),
    Re::Lit(c) => c.to_string(), Re::Class(c) => c.to_string(),
    Re::Cat(v) => v.iter().map(|r| if matches!(r, Re::Alt(_)) { format!("(?:{})", re_text(r)) } else { re_text(r) }).collect(),
    Re::Alt(v) => v.iter().map(re_text).collect::<Vec<_>>().join("|"),
    Re::Rep(r, q) => match &**r { Re::Lit(_) | Re::Class(_) | Re::Group(_) => format!("{}{}", re_text(r), q), r => format!("(?:{}){}", re_text(r), q) },
    Re::Group(r) => format!("({})", re_text(r)),
  }
}
fn re() -> B<Re> {
  let leaf = prop_oneof![
    4 => prop::sample::select("abcXYZ019 _-:/@$^.+*?()[]{}|\\#".chars().collect::<Vec<_>>()).prop_map(Re::Lit),
    3 => prop::sample::select(vec!["\\d", "\\w", "[a-z]", "[A-F0-9]", "[a-zA-Z_]", "[xyz$^]", "\\s", "[0-9a-f]"]).prop_map(Re::Class),
  ];
  leaf.prop_recursive(3, 12, 4, |inner| prop_oneof![
    3 => prop::collection::vec(inner.clone(), 1..4).prop_map(Re::Cat), 1 => prop::collection::vec(inner.clone(), 2..4).prop_map(Re::Alt),
    2 => (inner.clone(), prop::sample::select(vec!["*", "+", "?", "{2}", "{1,3}", "{0,2}", "{2,}"])).prop_map(|(r, q)| Re::Rep(Box::new(r), q)),
    1 => inner.prop_map(|r| Re::Group(Box::new(r))),
  ]).boxed()
}
fn top_alt(r: &Re) -> bool { match r { Re::Alt(_) => true, _ => false } }

fn uuid_re(f: Option<UuidFormat>) -> &'static str {
  match f {
    Some(UuidFormat::Simple) => "^[0-9a-f]{32}$", Some(UuidFormat::UpperCaseHyphenated) => "^[0-9A-F]{8}-[0-9A-F]{4}-[0-9A-F]{4}-[0-9A-F]{4}-[0-9A-F]{12}$",
    Some(UuidFormat::Urn) => "^urn:uuid:[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}$", _ => "^[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}$" }
}

/// RandomDecimal: a point after at least one digit, no needless leading zero, exactly so many digits.
fn is_decimal(s: &str, digits: usize) -> bool {
  if !s.chars().all(|c| c.is_ascii_digit() || c == '.') || s.chars().filter(|c| c.is_ascii_digit()).count() != digits { return false; }
  if digits < 2 { return !s.contains('.'); }
  match s.split_once('.') { Some((a, b)) => !a.is_empty() && !b.is_empty() && !b.contains('.') && (a == "0" || !a.starts_with('0')), None => false }
}

fn size() -> B<u16> { prop_oneof![6 => 0u16..24, 1 => 24u16..400, 1 => prop::sample::select(vec![1000u16, 9999, 65535])].boxed() }

/// Formats made of elements that can be written for every date and time.
fn format() -> B<Vec<El>> {
  let el = prop::sample::select(vec![('y', 4), ('M', 2), ('d', 2), ('H', 2), ('m', 2), ('s', 2), ('M', 3), ('M', 4), ('E', 3), ('E', 4), ('a', 1), ('h', 2), ('S', 3), ('S', 6), ('Z', 1), ('X', 3)]);
  let sep = prop::sample::select(vec!["-", "/", ":", " ", "T", ", ", "'", "%", " o'clock ", "."]);
  prop::collection::vec((el, sep), 1..7).prop_map(|v| { let n = v.len(); v.into_iter().enumerate().flat_map(|(i, ((c, k), s))| { let mut o = vec![El::L(c, k)]; if i + 1 < n { o.push(El::Text(s.to_string())); } o }).collect() }).boxed()
}
fn format_text(els: &[El]) -> String {
  els.iter().map(|e| match e { El::L(c, n) => c.to_string().repeat(*n), El::Text(t) if t == "'" => "''".into(), El::Text(t) => format!("'{}'", t.replace('\'', "''")) }).collect()
}

pub fn p19(h: &mut H) {
  let none = || Ctx::new();
  h.assume("Times without a given base are only checked for their form. The zone of the process is the one of chrono's Local. A number written for a JSON example may lose trailing zeros and precision beyond that of a double.");
  h.check("integer", 20_000, "RandomInt with any limits and examples of any type; non-trivial: the limits are in order", || (int(), int(), example()), move |(min, max, ex), c| {
    let g = Generator::RandomInt(*min, *max);
    if min > max {
      ensure!(gs(&g, &none()).is_err() && gv(&g, ex, &none()).is_err() && gu(&g, &none()).is_err() && gl(&g, &none()).is_err(), "{:?} generates a value", g);
      return Ok(());
    }
    c.nontrivial(true); c.label_if(*max == i32::MAX, "to the largest integer"); c.label_if(*min == i32::MIN, "from the smallest integer"); c.label_if(min == max, "one value");
    let within = |n: i64| (*min as i64..=*max as i64).contains(&n);
    let s = gs(&g, &none())?;
    ensure!(s.parse::<i64>().map(within).unwrap_or(false) && s.parse::<i64>().unwrap().to_string() == s, "{:?} gives {:?}", g, s);
    let l = gl(&g, &none())?;
    ensure!(l.len() == 1 && l[0].parse::<i64>().map(within).unwrap_or(false), "{:?} gives the list {:?}", g, l);
    let v = gv(&g, ex, &none())?;
    let n = match (&v, ex) { (Value::String(s), Value::String(_)) => s.parse::<i64>().ok(), (Value::Number(n), e) if !e.is_string() => n.as_i64(), _ => None };
    ensure!(n.map(within).unwrap_or(false), "{:?} for the example {} gives {}", g, ex, v);
    match gu(&g, &none()) {
      Ok(n) => ensure!(within(n as i64), "{:?} gives {} as a status", g, n),
      Err(e) => ensure!(*max < 0 || *min > 65535 || *min < 0 || *max > 65535, "{:?} gives no status: {}", g, e),
    }
    Ok(())
  });
  h.check("integer_all", 300, "RandomInt with a small range, drawn 400 times; non-trivial: always", || (prop_oneof![1 => int(), 1 => Just(i32::MAX - 1), 1 => Just(i32::MAX), 1 => Just(65534), 1 => Just(0)], 0i32..4), move |(min, n), c| {
    c.nontrivial(true);
    let g = Generator::RandomInt(*min, min.saturating_add(*n));
    let want: HashSet<i64> = (*min as i64..=min.saturating_add(*n) as i64).collect();
    let mut got: [HashSet<i64>; 3] = Default::default();
    for _ in 0..400 {
      got[0].insert(gs(&g, &none())?.parse::<i64>().map_err(|e| e.to_string())?);
      got[1].insert(gv(&g, &json!(1), &none())?.as_i64().ok_or("not an integer")?);
      if *min >= 0 && *min < 65532 { got[2].insert(gu(&g, &none())? as i64); }
    }
    for (i, s) in got.iter().enumerate() { ensure!(s == &want || (i == 2 && s.is_empty()), "400 values of {:?} are {:?}", g, s); }
    Ok(())
  });
  h.check("uuid", 8_000, "Uuid of every format and none, for examples of any type; non-trivial: a format is given", || (prop::option::of(uuid_format()), example()), move |(f, ex), c| {
    c.nontrivial(f.is_some()); c.label_if(!ex.is_string(), "example is not a string");
    let (g, re) = (Generator::Uuid(*f), Regex::new(uuid_re(*f)).unwrap());
    let (a, b) = (gs(&g, &none())?, gv(&g, ex, &none())?);
    ensure!(re.is_match(&a), "{:?} gives {:?}", g, a);
    ensure!(b.as_str().map(|b| re.is_match(b) && b != a).unwrap_or(false), "{:?} for the example {} gives {}", g, ex, b);
    Ok(())
  });
  h.check("digits", 12_000, "RandomDecimal, RandomHexadecimal and RandomString of any size; non-trivial: more than 16 digits", || (size(), example()), move |(n, ex), c| {
    c.nontrivial(*n > 16);
    let k = *n as usize;
    for (g, ok) in [
      (Generator::RandomDecimal(*n), Box::new(move |s: &str| is_decimal(s, k)) as Box<dyn Fn(&str) -> bool>),
      (Generator::RandomHexadecimal(*n), Box::new(move |s: &str| s.len() == k && s.chars().all(|c| c.is_ascii_hexdigit() && !c.is_ascii_lowercase()))),
      (Generator::RandomString(*n), Box::new(move |s: &str| s.len() == k && s.chars().all(|c| c.is_ascii_alphanumeric()))),
    ] {
      let s = gs(&g, &none())?;
      ensure!(ok(&s), "{:?} gives {:?}", g, s);
      if matches!(g, Generator::RandomDecimal(_)) && ex.is_number() {
        match gv(&g, ex, &none()) {
          Ok(v) => ensure!(v.as_f64().map(|f| f >= 0.0 && f.is_finite() && f < 10f64.powi(k as i32)).unwrap_or(false), "{:?} for the example {} gives {}", g, ex, v),
          Err(e) => ensure!(k == 0 || k > 300, "{:?} for the example {} fails: {}", g, ex, e),
        }
      } else {
        let v = gv(&g, ex, &none())?;
        ensure!(v.as_str().map(&ok).unwrap_or(false), "{:?} for the example {} gives {}", g, ex, v);
      }
    }
    Ok(())
  });
  h.check("spread", 200, "400 values of RandomHexadecimal(1), RandomBoolean and RandomDecimal(1); non-trivial: always", || Just(()), move |_, c| {
    c.nontrivial(true);
    for (g, n) in [(Generator::RandomHexadecimal(1), 16), (Generator::RandomBoolean, 2), (Generator::RandomDecimal(1), 10)] {
      let s: HashSet<String> = (0..400).map(|_| gs(&g, &none())).collect::<Result<_, _>>()?;
      ensure_eq!(s.len(), n, "different values of {:?}", g);
    }
    let s: HashSet<String> = (0..400).map(|_| gv(&Generator::RandomBoolean, &json!(1), &none()).map(|v| v.to_string())).collect::<Result<_, _>>()?;
    ensure_eq!(s, ["true".to_string(), "false".to_string()].into_iter().collect::<HashSet<_>>(), "JSON values of RandomBoolean");
    Ok(())
  });
  h.check("regex", 12_000, "Regex with expressions of literals, escapes, classes, groups, alternatives and repetition, with and without anchors; non-trivial: anchored on one side", || (re(), 0u8..4, example()), move |(r, anchors, ex), c| {
    let (a, b) = (anchors & 1 == 1, anchors & 2 == 2);
    let mut t = re_text(r);
    if top_alt(r) && (a || b) { t = format!("({})", t); }
    c.nontrivial(a != b); c.label_if(t.ends_with("\\$"), "ends with an escaped dollar");
    let full = format!("{}{}{}", if a { "^" } else { "" }, t, if b { "$" } else { "" });
    let check = Regex::new(&format!("(?-u)\\A(?:{})\\z", t)).map_err(|e| e.to_string())?;
    let g = Generator::Regex(full.clone());
    let s = gs(&g, &none()).map_err(|e| format!("{:?}: {}", full, e))?;
    ensure!(check.is_match(&s), "{:?} gives {:?}", g, s);
    let v = gv(&g, ex, &none())?;
    ensure!(v.as_str().map(|s| check.is_match(s)).unwrap_or(false), "{:?} for the example {} gives {}", g, ex, v);
    Ok(())
  });
  h.pinned("regex_dot", "Regex with . or a negated class", || {
    for r in [".", "a.*", "[^a-z]"] { gs(&Generator::Regex(r.into()), &Ctx::new()).map_err(|e| format!("{:?}: {}", r, e))?; }
    Ok(())
  });
  h.check("mock_server_url", 12_000, "MockServerURL with the expression the consumer DSL writes, and others; non-trivial: the expression matches the example", || ("[a-z]{3,8}:[0-9]{2,5}", "(/[a-zA-Z0-9_.-]{1,6}){0,3}", "https?://[a-z0-9.]{1,8}(:[0-9]{2,4})?(/b)?", 0u8..6), move |(host, path, url, k), c| {
    let ex = format!("http://{}{}", host, path);
    let q = regex::escape(path);
    let (re, want) = match k {
      0 | 1 => (format!(".*({})$", q), Ok(format!("{}{}", url, path))), 2 => (format!("^http://[^/]+({})$", q), Ok(format!("{}{}", url, path))),
      3 => ("^ftp:(.*)$".to_string(), Ok(ex.clone())), 4 => (format!("^.*{}$", q), Err(())), _ => ("([".to_string(), Err(())) };
    c.nontrivial(*k < 3);
    let g = Generator::MockServerURL(ex.clone(), re);
    for key in ["url", "href"] {
      let ctx: Ctx = [("mockServer", json!({key: url, "port": 1234}))].into_iter().collect();
      let (a, b) = (gs(&g, &ctx).map_err(|_| ()), gv(&g, &json!("x"), &ctx).map_err(|_| ()));
      ensure_eq!(b, want.clone().map(Value::String), "{:?} with {:?}", g, ctx);
      if key == "url" || a.is_ok() { ensure_eq!(a, want, "{:?} with {:?}", g, ctx); }
    }
    for ctx in [none(), [("mockServer", json!("x"))].into_iter().collect(), [("mockServer", json!({"port": 1}))].into_iter().collect()] {
      ensure!(gs(&g, &ctx).is_err() && gv(&g, &json!("x"), &ctx).is_err(), "{:?} generates a value without an address of the mock server", g);
    }
    Ok(())
  });
  h.check("dates", 20_000, "Date, Time and DateTime with a given base, a format or none, and some expressions; non-trivial: a format", || (civil(), prop::option::of(format()), 0u8..3, prop::sample::select(vec!["", "now", "+ 1 day", "tomorrow", "- 2 days"]), prop::sample::select(vec!["", "now", "+ 1 hour", "- 90 minutes"])), move |(dt, f, kind, de, te), c| {
    c.nontrivial(f.is_some());
    let base = Local.from_utc_datetime(dt);
    let d = |t: chrono::DateTime<Local>| match *de { "+ 1 day" | "tomorrow" => t + chrono::TimeDelta::days(1), "- 2 days" => t - chrono::TimeDelta::days(2), _ => t };
    let m = |t: chrono::DateTime<Local>| match *te { "+ 1 hour" => t + chrono::TimeDelta::hours(1), "- 90 minutes" => t - chrono::TimeDelta::minutes(90), _ => t };
    let fmt = f.as_ref().map(|f| format_text(f));
    let opt = |s: &str| if s.is_empty() { None } else { Some(s.to_string()) };
    let (g, key, want, plain) = match kind {
      0 => (Generator::Date(fmt.clone(), opt(de)), "baseDate", d(base), "%Y-%m-%d"),
      1 => (Generator::Time(fmt.clone(), opt(te)), "baseTime", m(base), "%H:%M:%S"),
      _ => (Generator::DateTime(fmt.clone(), Some(if te.is_empty() { de.to_string() } else if de.is_empty() { format!("@{}", te) } else { format!("{} @ {}", de, te) })), "baseDateTime", m(d(base)), "%Y-%m-%dT%H:%M:%S.%3f%z") };
    let want = match f { None => want.format(plain).to_string(), Some(els) => els.iter().map(|e| match e { El::L(c, n) => padded(*c, *n, &want.naive_local(), want.offset().local_minus_utc()), El::Text(t) => t.clone() }).collect() };
    let ctx: Ctx = [(key, json!(base.to_rfc3339_opts(chrono::SecondsFormat::Nanos, true)))].into_iter().collect();
    ensure_eq!(gs(&g, &ctx)?, want, "{:?} from {}", g, base);
    ensure_eq!(gv(&g, &json!("x"), &ctx)?, json!(want), "{:?} from {} as JSON", g, base);
    Ok(())
  });
  h.check("dates_now", 4_000, "Date, Time and DateTime without a base, and with formats or expressions that are not valid; non-trivial: not valid", || (0u8..3, prop_oneof![2 => Just(None), 2 => format().prop_map(|f| Some(format_text(&f))), 1 => Just(Some("yyyy 'x".to_string())), 1 => Just(Some("jj".to_string()))], prop::sample::select(vec!["", "", "now", "nonsense", "+ 1"])), move |(k, f, e), c| {
    let bad = f.as_deref() == Some("yyyy 'x") || f.as_deref() == Some("jj") || ["nonsense", "+ 1"].contains(e);
    c.nontrivial(bad);
    let e = if e.is_empty() { None } else { Some(e.to_string()) };
    let g = match k { 0 => Generator::Date(f.clone(), e), 1 => Generator::Time(f.clone(), e), _ => Generator::DateTime(f.clone(), e) };
    let (a, b) = (gs(&g, &none()), gv(&g, &json!(1), &none()));
    ensure!(a.is_err() == bad && b.is_err() == bad, "{:?} gives {:?} and {:?}", g, a, b);
    if f.is_none() && !bad {
      let p = match k { 0 => "yyyy-MM-dd", 1 => "HH:mm:ss", _ => "yyyy-MM-dd'T'HH:mm:ss.SSSZ" };
      pact_models::time_utils::validate_datetime(&a?, p)?;
    }
    Ok(())
  });
  h.check("attributes", 12_000, "generators created from JSON attributes with numbers of any size; non-trivial: a number does not fit", || (prop_oneof![3 => -50i64..50, 2 => any::<i64>(), 2 => prop::sample::select(vec![i32::MAX as i64, i32::MAX as i64 + 1, u32::MAX as i64 + 2, 65535, 65536, 65539, i32::MIN as i64 - 1, -1])], prop_oneof![3 => -50i64..50, 2 => any::<i64>(), 1 => Just(4294967299i64)]), move |(a, b), c| {
    c.nontrivial(i32::try_from(*a).is_err() || i32::try_from(*b).is_err());
    let make = |t: &str, v: Value| Generator::create(t, &v).ok();
    if let Some(Generator::RandomInt(x, y)) = make("RandomInt", json!({"min": a, "max": b})) {
      if *a <= *b && x <= y { ensure!(x as i64 >= (*a).min(i32::MAX as i64) && y as i64 <= (*b).max(i32::MIN as i64), "limits {} and {} are read as {} and {}", a, b, x, y); }
      if i32::try_from(*a).is_ok() { ensure_eq!(x as i64, *a, "minimum"); }
      if i32::try_from(*b).is_ok() { ensure_eq!(y as i64, *b, "maximum"); }
    } else { return Err("RandomInt is not created".into()) }
    if *a > 0 {
      for (t, f) in [("RandomDecimal", "digits"), ("RandomHexadecimal", "digits"), ("RandomString", "size")] {
        match make(t, json!({f: a})) {
          Some(Generator::RandomDecimal(n) | Generator::RandomHexadecimal(n) | Generator::RandomString(n)) => {
            if *a <= 65535 { ensure_eq!(n as i64, *a, "{} of {}", f, t); } else { ensure!([10, 65535].contains(&n), "{} of {}: {} is read as {}", f, t, a, n); }
          }
          g => return Err(format!("{} gives {:?}", t, g)),
        }
      }
    }
    Ok(())
  });
}

// ---------------------------------------------------------------- P22

#[derive(Debug, Clone)]
pub enum Part { Lit(String), Exp(String), Empty, Open(String) }
fn part_text(p: &[Part]) -> String { p.iter().map(|p| match p { Part::Lit(s) => s.clone(), Part::Exp(n) => format!("${{{}}}", n), Part::Empty => "${}".into(), Part::Open(n) => format!("${{{}", n) }).collect() }
fn name() -> B<String> { prop_oneof![5 => prop::sample::select(vec!["a", "b", "c", "user id", "é"]).prop_map(|s| s.to_string()), 1 => "[a-z. $_'-]{1,4}"].boxed() }
/// Parts with text between any two expressions or not; an unclosed one only at the end.
fn parts() -> B<Vec<Part>> {
  let lit = prop_oneof![3 => "[a-z/ =]{1,4}", 2 => "[a${}é/]{1,5}", 1 => text(), 1 => prop::sample::select(vec!["}", "{", "$", "{}", "$$", "}}", "}$", "/}"]).prop_map(|s| s.to_string())];
  let part = prop_oneof![3 => lit.prop_map(Part::Lit), 4 => name().prop_map(Part::Exp), 1 => Just(Part::Empty)];
  (prop::collection::vec(part, 0..5), prop::option::weighted(0.05, "[a-z ]{0,3}")).prop_map(|(v, open)| {
    let mut out: Vec<Part> = vec![];
    for p in v { match (out.last_mut(), p) { (Some(Part::Lit(a)), Part::Lit(b)) => a.push_str(&b), (_, p) => out.push(p) } }
    for p in out.iter_mut() { if let Part::Lit(s) = p { while s.contains("${") { *s = s.replace("${", "{"); } } }
    out.retain(|p| !matches!(p, Part::Lit(s) if s.is_empty()));
    if let Some(o) = open { out.push(Part::Open(o)); }
    out
  }).boxed()
}
fn state_values() -> B<BTreeMap<String, Value>> { prop::collection::btree_map(name(), prop_oneof![3 => json_scalar(), 1 => json_value()], 0..6).boxed() }
fn shown(v: &Value) -> String { match v { Value::String(s) => s.clone(), Value::Null => String::new(), v => v.to_string() } }
fn eval(p: &[Part], ctx: &BTreeMap<String, Value>) -> Option<Value> {
  if p.iter().any(|p| matches!(p, Part::Open(_))) { return None; }
  let mut out = vec![];
  for p in p { match p { Part::Lit(s) => out.push(json!(s)), Part::Exp(n) => out.push(ctx.get(n)?.clone()), _ => () } }
  Some(if out.len() == 1 { out.remove(0) } else { json!(out.iter().map(shown).collect::<String>()) })
}

/// The JSON value of the data type: None when there is none.
fn cast(v: &Value, t: DataType) -> Option<Value> {
  match (t, v) {
    (DataType::RAW, v) => Some(v.clone()),
    (DataType::STRING, Value::String(s)) => Some(json!(s)),
    (DataType::STRING, v) => Some(json!(v.to_string())),
    (_, Value::Array(_) | Value::Object(_)) => None,
    (DataType::INTEGER, Value::Null) => Some(json!(0)),
    (DataType::INTEGER, Value::Bool(b)) => Some(json!(*b as i32)),
    (DataType::INTEGER, Value::Number(n)) => if n.is_u64() || n.is_i64() { Some(v.clone()) } else { let f = n.as_f64()?.trunc(); if f.abs() < 9.2e18 { Some(json!(f as i64)) } else { None } },
    (DataType::INTEGER, Value::String(s)) => s.parse::<i64>().map(|n| json!(n)).or_else(|_| s.parse::<u64>().map(|n| json!(n))).ok(),
    (DataType::FLOAT | DataType::DECIMAL, Value::Null) => Some(json!(0.0)),
    (DataType::FLOAT | DataType::DECIMAL, Value::Bool(b)) => Some(json!(*b as i32 as f64)),
    (DataType::FLOAT | DataType::DECIMAL, Value::Number(n)) => Some(json!(n.as_f64()?)),
    (DataType::FLOAT | DataType::DECIMAL, Value::String(s)) => s.parse::<f64>().ok().filter(|f| f.is_finite()).map(|f| json!(f)),
    (DataType::BOOLEAN, Value::Null) => Some(json!(false)),
    (DataType::BOOLEAN, Value::Bool(b)) => Some(json!(b)),
    (DataType::BOOLEAN, Value::Number(n)) => Some(json!(n.as_f64()? > 0.0)),
    (DataType::BOOLEAN, Value::String(s)) => match s.as_str() { "true" => Some(json!(true)), "false" => Some(json!(false)), _ => None },
  }
}
fn castable() -> B<Value> {
  prop_oneof![4 => json_scalar(), 1 => json_value(), 3 => prop::sample::select(vec!["0", "1", "-5", "65535", "65536", "70000", "-1", "1.5", "-2.25", "1e3", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "NaN", "inf", "true", "false", "True", "", " 1", "abc"]).prop_map(|s| json!(s)),
    3 => prop::sample::select(vec![json!(0), json!(65535), json!(65536), json!(70000), json!(-1), json!(-70000), json!(i64::MAX), json!(i64::MIN), json!(u64::MAX), json!(1e30), json!(-1e30), json!(0.5), json!(-0.5), json!(200.0), json!(99999.9)])].boxed()
}

pub fn p22(h: &mut H) {
  h.assume("A literal part never contains ${ itself. The integer value of a number with a fraction is the number without the fraction.");
  h.check("template", 40_000, "expressions of literal text and references, evaluated with values of any type; non-trivial: at least two parts, one of them a reference", || (parts(), state_values()), |(p, ctx), c| {
    c.nontrivial(p.len() > 1 && p.iter().any(|p| matches!(p, Part::Exp(_))));
    let t = part_text(p);
    c.label_if(t.find('}') < t.find("${") && t.contains('}') && t.contains("${"), "closing brace before the first reference");
    let context: Ctx = ctx.iter().map(|(k, v)| (k.as_str(), v.clone())).collect();
    let want = eval(p, ctx);
    c.label_if(want.is_none(), "no value");
    ensure_eq!(contains_expressions(&t), p.iter().any(|p| !matches!(p, Part::Lit(_))), "{:?} contains expressions", t);
    let got = parse_expression(&t, &MapValueResolver { context: context.clone() }).ok();
    ensure_eq!(got, want, "{:?} with {:?}", t, ctx);
    Ok(())
  });
  h.check("generator", 40_000, "provider state generators for JSON, text, lists and statuses, values given directly or as provider state; non-trivial: a value with a data type", || (prop_oneof![2 => parts().prop_map(|p| (None, p)), 3 => name().prop_map(|n| (Some(n.clone()), vec![Part::Exp(n)]))], prop::collection::btree_map(name(), castable(), 0..6), prop::option::of(data_type()), any::<bool>()), |((plain, p), ctx, dt, nested), c| {
    let t = plain.clone().unwrap_or_else(|| part_text(p));
    let raw = match plain { Some(n) if n.contains("${") => return Ok(()), Some(n) => ctx.get(n).cloned(), None if contains_expressions(&t) => eval(p, ctx), None => ctx.get(&t).cloned() };
    let want = raw.as_ref().and_then(|v| cast(v, dt.unwrap_or(DataType::RAW)));
    c.nontrivial(dt.is_some() && raw.is_some());
    let decoy: Map<String, Value> = ctx.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let mut context: Ctx = Ctx::new();
    if *nested { context.insert("providerState", Value::Object(decoy)); context.insert("mockServer", json!({"url": "x"})); for k in ctx.keys() { context.insert(k.as_str(), json!("decoy")); } }
    else { for (k, v) in ctx { context.insert(k.as_str(), v.clone()); } }
    let g = Generator::ProviderStateGenerator(t.clone(), *dt);
    ensure_eq!(gv(&g, &json!("x"), &context).ok(), want, "{:?} with {:?}", g, context);
    if !nested { ensure_eq!(generate_value_from_context(&t, &context, dt).and_then(|v| v.as_json()).ok(), want, "{:?} with {:?}", g, context); }
    let s = gs(&g, &context).ok();
    ensure_eq!(gl(&g, &context).ok(), s.clone().map(|s| vec![s]), "as a list: {:?}", g);
    match (dt.unwrap_or(DataType::RAW), &want) {
      (DataType::RAW | DataType::STRING, w) => ensure_eq!(s, raw.as_ref().filter(|_| w.is_some()).map(shown), "{:?} as text with {:?}", g, context),
      (DataType::BOOLEAN, w) => ensure_eq!(s, w.as_ref().map(shown), "{:?} as text with {:?}", g, context),
      // larger integers may be refused
      (DataType::INTEGER, Some(w)) => if w.is_i64() { ensure_eq!(s, Some(shown(w)), "{:?} as text with {:?}", g, context) } else { ensure!(s.is_none() || s == Some(shown(w)), "{:?} as text with {:?}: {:?}", g, context, s) },
      (_, Some(w)) => ensure!(s.as_ref().and_then(|s| s.parse::<f64>().ok()) == w.as_f64(), "{:?} as text with {:?}: {:?} for {}", g, context, s, w),
      // NaN and infinity are texts of floating point numbers, but not of JSON numbers
      (DataType::FLOAT | DataType::DECIMAL, None) if raw.as_ref().map(|v| v.as_str().map(|s| s.parse::<f64>().is_ok()).unwrap_or(false)).unwrap_or(false) => (),
      (_, None) => ensure_eq!(s, None, "{:?} as text with {:?}", g, context),
    }
    let status = gu(&g, &context).ok();
    let whole = raw.as_ref().and_then(|v| match v { Value::Null => Some(0f64), Value::Bool(b) => Some(*b as i32 as f64), Value::Number(n) => n.as_f64(), Value::String(s) => s.parse::<f64>().ok(), _ => None }).map(|f| f.trunc());
    match status {
      Some(n) => ensure!(whole == Some(n as f64), "{:?} with {:?} gives the status {}", g, context, n),
      None => ensure!(!(raw.as_ref().map(|v| v.is_u64()).unwrap_or(false) && whole.map(|f| (0.0..=65535.0).contains(&f)).unwrap_or(false)), "{:?} with {:?} gives no status", g, context),
    }
    Ok(())
  });
  h.check("conversions", 30_000, "values of every data type converted to the Rust numbers; non-trivial: a number or the text of one", || (castable(), data_type()), |(v, t), c| {
    let d = DataValue { wrapped: v.clone(), data_type: *t };
    let exact: Option<i128> = match v { Value::Null => Some(0), Value::Bool(b) => Some(*b as i128), Value::Number(n) => n.as_u64().map(|n| n as i128).or(n.as_i64().map(|n| n as i128)).or(n.as_f64().map(|f| f.trunc() as i128)),
      Value::String(s) => s.parse::<i128>().ok().or(s.parse::<f64>().ok().filter(|f| f.is_finite()).map(|f| f.trunc() as i128)), _ => None };
    c.nontrivial(exact.is_some() && !v.is_null() && !v.is_boolean());
    // the text of a large whole number may go through a double
    let close = |got: i128| match exact { Some(e) => e == got || (v.is_string() && [DataType::FLOAT, DataType::DECIMAL].contains(t) && e.abs() > 1 << 53 && (e - got).abs() <= e.abs() >> 52), None => false };
    if let Ok(n) = u16::try_from(d.clone()) { ensure!(close(n as i128), "{:?} as u16 is {}", d, n); }
    if let Ok(n) = u64::try_from(d.clone()) { ensure!(close(n as i128), "{:?} as u64 is {}", d, n); }
    if let Ok(n) = i64::try_from(d.clone()) { ensure!(close(n as i128), "{:?} as i64 is {}", d, n); }
    if let (Some(e), true) = (exact, v.is_u64() || v.is_i64()) {
      ensure!(u16::try_from(d.clone()).is_ok() == u16::try_from(e).is_ok() && u64::try_from(d.clone()).is_ok() == u64::try_from(e).is_ok() && i64::try_from(d.clone()).is_ok() == i64::try_from(e).is_ok(), "{:?} is or is not converted", d);
    }
    if let (Ok(f), Some(n)) = (f64::try_from(d.clone()), v.as_f64()) { ensure_eq!(f, n, "{:?} as f64", d); }
    ensure_eq!(d.as_json().ok(), cast(v, *t), "{:?} as JSON", d);
    ensure_eq!(DataType::from(Into::<Value>::into(*t)), *t, "data type read back");
    ensure_eq!(DataType::from(json!(Into::<Value>::into(*t).as_str().unwrap_or_default().to_lowercase())), *t, "data type read back from lower case");
    Ok(())
  });
}

// ---------------------------------------------------------------- P24

/// The JSON pointers (as lists of names and indices) of the values a path denotes, in document order.
fn select<'a>(v: &'a Value, t: &[PathToken], at: &mut Vec<String>, out: &mut Vec<(Vec<String>, &'a Value)>) {
  let Some(first) = t.first() else { out.push((at.clone(), v)); return };
  let mut go = |k: String, v: &'a Value| { at.push(k); select(v, &t[1..], at, out); at.pop(); };
  match (first, v) {
    (PathToken::Field(n), Value::Object(o)) => if let Some(v) = o.get(n) { go(n.clone(), v) },
    (PathToken::Index(i), Value::Array(a)) => if let Some(v) = a.get(*i) { go(i.to_string(), v) },
    (PathToken::Star, Value::Object(o)) => for (k, v) in o { go(k.clone(), v) },
    (PathToken::StarIndex, Value::Array(a)) => for (i, v) in a.iter().enumerate() { go(i.to_string(), v) },
    _ => (),
  }
}
fn selected<'a>(v: &'a Value, t: &[PathToken]) -> Vec<(Vec<String>, &'a Value)> { let mut out = vec![]; select(v, &t[1..], &mut vec![], &mut out); out }
fn pointer(p: &[String]) -> String { p.iter().map(|s| format!("/{}", s.replace('~', "~0").replace('/', "~1"))).collect() }

/// A document of small vocabulary and a path into it that mostly leads somewhere: the choices follow the document.
fn doc() -> B<Value> {
  let leaf = prop_oneof![2 => json_scalar(), 1 => Just(json!({})), 1 => Just(json!([]))];
  leaf.prop_recursive(4, 40, 5, |inner| prop_oneof![
    1 => prop::collection::vec(inner.clone(), 0..5).prop_map(Value::Array),
    2 => prop::collection::vec((dkey(), inner), 0..5).prop_map(|v| Value::Object(v.into_iter().collect())),
  ]).boxed()
}
fn dkey() -> B<String> { prop_oneof![6 => prop::sample::select(vec!["a", "b", "c", "0", "1", "*"]).prop_map(|s| s.to_string()), 2 => prop::sample::select(vec!["a/b", "~", "~1", "/", "a~0b", "x y", "$", "é", "a.b", "[0]", "'"]).prop_map(|s| s.to_string()), 1 => field()].boxed() }
fn walk(v: &Value, choices: &[(u8, u16)]) -> Vec<PathToken> {
  let mut out = vec![PathToken::Root];
  let mut cur = v;
  for (how, k) in choices {
    let k = *k as usize;
    match cur {
      Value::Object(o) if !o.is_empty() => { let (n, v) = o.iter().nth(k % o.len()).unwrap(); out.push(if how % 5 < 3 { PathToken::Field(n.clone()) } else { PathToken::Star }); cur = v; if how % 20 == 19 { out.pop(); out.push(PathToken::StarIndex); } }
      Value::Array(a) if !a.is_empty() => { let i = k % a.len(); out.push(match how % 10 { 0..=3 => PathToken::Index(i), 4..=7 => PathToken::StarIndex, 8 => PathToken::Index(a.len() + i % 2), _ => PathToken::Star }); cur = &a[i]; }
      _ => { if how % 4 == 0 { out.push(match k % 4 { 0 => PathToken::Field("a".into()), 1 => PathToken::Index(0), 2 => PathToken::Star, _ => PathToken::StarIndex }); } break; }
    }
  }
  out.retain(|t| !matches!(t, PathToken::Field(n) if n.is_empty()));
  out
}
fn choices() -> B<Vec<(u8, u16)>> { prop::collection::vec((any::<u8>(), any::<u16>()), 0..6).boxed() }

#[derive(Debug, Clone)]
pub struct X { name: String, attrs: BTreeMap<String, String>, children: Vec<XC> }
#[derive(Debug, Clone)]
pub enum XC { E(X), T(String) }
fn xname() -> B<String> { prop::sample::select(vec!["a", "b", "c", "a-b", "x.y", "_n1", "item", "A"]).prop_map(|s| s.to_string()).boxed() }
fn xdoc() -> B<X> {
  let attrs = || prop::collection::btree_map(xname(), "[a-z '/é]{0,4}", 0..3);
  let leaf = (xname(), attrs(), prop::option::of("[a-zé0-9]{1,4}|[a-z<&>]{1,4}")).prop_map(|(name, attrs, t)| X { name, attrs, children: t.into_iter().map(XC::T).collect() });
  leaf.prop_recursive(3, 24, 5, move |inner| (xname(), attrs(), prop::collection::vec(prop_oneof![5 => inner.prop_map(XC::E), 1 => "[a-z]{1,3}".prop_map(XC::T)], 0..6)).prop_map(|(name, attrs, children)| X { name, attrs, children })).boxed()
}
fn esc(s: &str) -> String { s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;") }
fn xml(x: &X, n: &mut usize, out: &mut String) {
  *out += &format!("<{} id=\"{}\"", x.name, n);
  *n += 1;
  for (k, v) in &x.attrs { *out += &format!(" {}=\"{}\"", k, esc(v)); }
  *out += ">";
  for c in &x.children { match c { XC::E(e) => xml(e, n, out), XC::T(t) => *out += &esc(t) } }
  *out += &format!("</{}>", x.name);
}
#[derive(Debug, Clone, PartialEq)]
enum XV { E(usize), A(String, String), T(String) }
/// Numbers of the elements in document order.
fn numbered(x: &X, n: &mut usize, out: &mut HashMap<*const X, usize>) { out.insert(x as *const X, *n); *n += 1; for c in &x.children { if let XC::E(e) = c { numbered(e, n, out); } } }
fn direct(x: &X) -> String { x.children.iter().filter_map(|c| if let XC::T(t) = c { Some(t.as_str()) } else { None }).collect() }
fn xselect(x: &X, i: usize, t: &[PathToken], at: &str, ids: &HashMap<*const X, usize>, out: &mut Vec<(String, XV)>) {
  let rest = match (&t[0], t.get(1)) {
    (PathToken::Field(n), Some(PathToken::Index(k))) => { if *n != x.name || *k != i { return; } &t[2..] }
    (PathToken::Field(n), _) => { if *n != x.name { return; } &t[1..] }
    (PathToken::Star | PathToken::StarIndex, _) => &t[1..],
    _ => return };
  let here = format!("{}/{}[{}]", at, x.name, i);
  match rest {
    [] => out.push((here, XV::E(ids[&(x as *const X)]))),
    [PathToken::Field(f)] if f.starts_with('@') => if let Some(v) = x.attrs.get(&f[1..]) { out.push((format!("{}/{}", here, f), XV::A(f[1..].to_string(), v.clone()))); },
    [PathToken::Field(f)] if f == "#text" => { let s = direct(x); if !s.is_empty() { out.push((format!("{}/#text", here), XV::T(s))); } }
    rest => {
      let mut groups: BTreeMap<&str, Vec<&X>> = BTreeMap::new();
      for c in &x.children { if let XC::E(e) = c { groups.entry(&e.name).or_default().push(e); } }
      for g in groups.values() { for (i, e) in g.iter().enumerate() { xselect(e, i, rest, &here, ids, out); } }
    }
  }
}
fn xwalk(x: &X, choices: &[(u8, u16)]) -> Vec<PathToken> {
  let mut out = vec![PathToken::Root];
  let mut cur = x;
  for (n, (how, k)) in choices.iter().enumerate() {
    out.push(if n == 0 || how % 4 != 3 { PathToken::Field(cur.name.clone()) } else if k % 2 == 0 { PathToken::Star } else { PathToken::StarIndex });
    if n > 0 && how % 4 == 1 { out.push(PathToken::Index(*k as usize % 3)); }
    let kids: Vec<&X> = cur.children.iter().filter_map(|c| if let XC::E(e) = c { Some(e) } else { None }).collect();
    match how / 4 % 8 {
      0 if !cur.attrs.is_empty() => { out.push(PathToken::Field(format!("@{}", cur.attrs.keys().nth(*k as usize % cur.attrs.len()).unwrap()))); break; }
      1 => { out.push(PathToken::Field("#text".into())); break; }
      2 if n > 1 => { out.push(PathToken::Field("@other".into())); break; }
      _ => () }
    if kids.is_empty() { break; }
    cur = kids[*k as usize % kids.len()];
  }
  out
}

pub fn p24(h: &mut H) {
  h.assume("Paths start at the root. In XML an index follows the name of an element; names of fields are never empty. Elements have no namespaces, and attributes no entities (the XML library does not decode them).");
  h.check("json", 60_000, "documents and paths that follow them, with names that need escaping in a JSON pointer; non-trivial: a wildcard selects several values, or nothing is selected", || (doc(), choices()), |(d, ch), c| {
    let t = walk(d, ch);
    let want = selected(d, &t);
    c.nontrivial(want.len() != 1); c.label_if(want.is_empty(), "selects nothing"); c.label_if(want.len() > 1, "selects several");
    c.label_if(want.iter().any(|(p, _)| p.iter().any(|s| s.contains(['/', '~']))), "names with / or ~");
    if t.len() == 1 { return Ok(()); }
    let got = json_utils::resolve_path(d, &DocPath::from_tokens(t.clone()));
    ensure_eq!(got, want.iter().map(|(p, _)| pointer(p)).collect::<Vec<_>>(), "{} in {}", print(&t), d);
    for (p, (_, v)) in got.iter().zip(&want) { ensure_eq!(d.pointer(p), Some(*v), "value at {}", p); }
    Ok(())
  });
  h.check("xml", 6_000, "XML documents and paths that follow them, with indices, wildcards, attributes and text; non-trivial: not exactly one node", || (xdoc(), prop::collection::vec((any::<u8>(), any::<u16>()), 1..6)), |(x, ch), c| {
    let t = xwalk(x, ch);
    let mut text = String::new();
    xml(x, &mut 0, &mut text);
    let mut ids = HashMap::new();
    numbered(x, &mut 0, &mut ids);
    let mut want = vec![];
    xselect(x, 0, &t[1..], "", &ids, &mut want);
    c.nontrivial(want.len() != 1); c.label_if(want.is_empty(), "selects nothing"); c.label_if(want.iter().any(|(_, v)| !matches!(v, XV::E(_))), "selects attributes or text");
    let dom = kiss_xml::parse_str(&text).map_err(|e| format!("{}: {}", text, e))?;
    let root = dom.root_element();
    let got = xml_utils::resolve_path(root, &DocPath::from_tokens(t.clone()));
    ensure_eq!(got, want.iter().map(|(p, _)| p.clone()).collect::<Vec<_>>(), "{} in {}", print(&t), text);
    for (p, w) in &want {
      let node = xml_utils::resolve_matching_node(root, p);
      let got = node.as_ref().map(|n| match n {
        xml_utils::XmlResult::ElementNode(e) => XV::E(e.attributes().get("id").and_then(|s| s.parse().ok()).unwrap_or(usize::MAX)),
        xml_utils::XmlResult::Attribute(k, v) => XV::A(k.clone(), v.clone()),
        xml_utils::XmlResult::TextNode(t) => XV::T(t.clone()) });
      // the text of an element with children also contains theirs
      if let (Some(XV::T(g)), XV::T(w)) = (&got, w) { if g != w && x_has_mixed(x) { continue; } }
      ensure_eq!(got, Some(w.clone()), "node at {} in {}", p, text);
    }
    Ok(())
  });
}
fn x_has_mixed(x: &X) -> bool { (x.children.iter().any(|c| matches!(c, XC::T(_))) && x.children.iter().any(|c| matches!(c, XC::E(_)))) || x.children.iter().any(|c| matches!(c, XC::E(e) if x_has_mixed(e))) }

// ---------------------------------------------------------------- P23

/// Finds the variant by the field "t" of the element.
#[derive(Debug, Clone)]
struct ByField;
impl VariantMatcher for ByField {
  fn find_matching_variant(&self, value: &Value, variants: &Vec<(usize, MatchingRuleCategory, HashMap<DocPath, Generator>)>) -> Option<(usize, HashMap<DocPath, Generator>)> {
    let t = value.get("t").and_then(|t| t.as_u64())?;
    variants.iter().find(|(i, _, _)| *i as u64 == t).map(|(i, _, g)| (*i, g.clone()))
  }
  fn boxed(&self) -> Box<dyn VariantMatcher + Send + Sync> { Box::new(self.clone()) }
}
fn put(v: &mut Value, p: &[String], new: Value) { if let Some(x) = v.pointer_mut(&pointer(p)) { *x = new; } }
fn overlap(a: &[String], b: &[String]) -> bool { a.iter().zip(b).all(|(x, y)| x == y) }

pub fn p23(h: &mut H) {
  h.assume("Generators whose paths select the same value, or one inside another, are not tested together: their order is not specified.");
  let modes = || prop_oneof![Just(GeneratorTestMode::Provider), Just(GeneratorTestMode::Consumer)];
  h.check("json", 40_000, "documents with several generators on paths that follow them, in both modes; non-trivial: a generator applies to some values and others stay", move || (doc(), prop::collection::vec((choices(), 0u8..5, json_scalar()), 0..4), modes()), |(d, specs, mode), c| {
    let mut gens = HashMap::new();
    let mut ctx: Ctx = Ctx::new();
    let names = ["s0", "s1", "s2", "s3"];
    let mut want = d.clone();
    let mut taken: Vec<Vec<String>> = vec![];
    let mut random: Vec<(Vec<String>, u8)> = vec![];
    ctx.insert("mockServer", json!({"url": "http://mock"}));
    for (i, (ch, kind, v)) in specs.iter().enumerate() {
      let t = walk(d, ch);
      let hits: Vec<Vec<String>> = selected(d, &t).into_iter().map(|(p, _)| p).collect();
      if hits.iter().any(|p| taken.iter().any(|q| overlap(p, q))) || gens.contains_key(&DocPath::from_tokens(t.clone())) { continue; }
      let g = match kind {
        0 | 1 => { ctx.insert(names[i], v.clone()); if *mode == GeneratorTestMode::Provider { for p in &hits { put(&mut want, p, v.clone()); } } Generator::ProviderStateGenerator(names[i].into(), None) }
        2 => { if *mode == GeneratorTestMode::Consumer { for p in &hits { put(&mut want, p, json!("http://mock/p")); } } Generator::MockServerURL("http://x/p".into(), ".*(/p)$".into()) }
        3 => { for p in &hits { random.push((p.clone(), 3)); } Generator::RandomBoolean }
        // has no value: nothing changes
        _ => Generator::ProviderStateGenerator("missing".into(), None),
      };
      taken.extend(hits);
      gens.insert(DocPath::from_tokens(t), g);
    }
    c.nontrivial(want != *d || !random.is_empty()); c.label_if(taken.iter().any(|p| p.is_empty()), "the whole document");
    let mut handler = JsonHandler { value: d.clone() };
    let body = handler.process_body(&gens, mode, &ctx, &noop())?;
    ensure!(body.content_type().map(|t| t.is_json()).unwrap_or(false), "content type {:?}", body.content_type());
    let mut got: Value = serde_json::from_slice(&body.value().unwrap_or_default()).map_err(|e| e.to_string())?;
    ensure_eq!(got, handler.value, "the body and the document");
    for (p, _) in &random {
      let v = got.pointer(&pointer(p)).cloned();
      ensure!(matches!(v, Some(Value::Bool(_))), "{} is {:?} in {}, generated from {} with {:?}", pointer(p), v, got, d, gens);
      put(&mut got, p, json!(0)); put(&mut want, p, json!(0));
    }
    ensure_eq!(got, want, "{} with {:?} in mode {:?}", d, gens, mode);
    Ok(())
  });
  h.check("array_contains", 20_000, "arrays with elements of some variants and generators per variant; non-trivial: at least one element of a variant with generators", || (prop::collection::vec((0u64..5, doc()), 0..6), prop::collection::vec(prop::sample::select(vec!["$.v", "$.w", "$.v[*].id", "$.t2"]), 1..4)), |(items, paths), c| {
    let arr: Vec<Value> = items.iter().map(|(t, v)| json!({"t": t, "v": v, "w": 1, "t2": "x"})).collect();
    let ctx: Ctx = [("n", json!("generated"))].into_iter().collect();
    let variants: Vec<_> = paths.iter().enumerate().map(|(i, p)| (i, MatchingRuleCategory::empty("body"), HashMap::from([(DocPath::new_unwrap(*p), Generator::ProviderStateGenerator("n".into(), None))]))).collect();
    c.nontrivial(items.iter().any(|(t, _)| (*t as usize) < paths.len()));
    let mut want = arr.clone();
    for (v, (t, _)) in want.iter_mut().zip(items) {
      if let Some(p) = paths.get(*t as usize) {
        let t = DocPath::new_unwrap(*p).tokens().clone();
        let hits: Vec<Vec<String>> = selected(v, &t).into_iter().map(|(p, _)| p).collect();
        for h in hits { put(v, &h, json!("generated")); }
      }
    }
    let d = json!({"other": arr, "list": arr});
    let mut handler = JsonHandler { value: d.clone() };
    let gens = HashMap::from([(DocPath::new_unwrap("$.list"), Generator::ArrayContains(variants))]);
    handler.process_body(&gens, &GeneratorTestMode::Provider, &ctx, &ByField.boxed())?;
    ensure_eq!(handler.value, json!({"other": arr, "list": want}), "{} with variants {:?}", d, paths);
    ensure!(gv(&Generator::ArrayContains(vec![]), &json!({"a": 1}), &ctx).is_err(), "array contains applied to an object");
    Ok(())
  });
  h.check("form", 20_000, "form parameters, some repeated, with generators by name and by name and index; non-trivial: a repeated parameter", move || (prop::collection::vec((prop_oneof![4 => prop::sample::select(vec!["a", "b", "c"]).prop_map(|s| s.to_string()), 1 => field(), 1 => Just("a b&=".to_string())], text()), 0..7), prop::collection::vec((any::<prop::sample::Index>(), 0usize..4, text()), 0..3), modes()), |(params, specs, mode), c| {
    let mut want: Vec<(String, String)> = params.clone();
    let mut gens = HashMap::new();
    let mut ctx: Ctx = Ctx::new();
    let names = ["s0", "s1", "s2"];
    let mut used = HashSet::new();
    for (i, (pick, k, v)) in specs.iter().enumerate() {
      if params.is_empty() { break; }
      let name = params[pick.index(params.len())].0.clone();
      if name == "*" || !used.insert(name.clone()) { continue; }
      let at: Vec<usize> = params.iter().enumerate().filter(|(_, (n, _))| *n == name).map(|(i, _)| i).collect();
      c.nontrivial(at.len() > 1);
      let mut path = vec![PathToken::Root, PathToken::Field(name)];
      let hit = if at.len() == 1 && k % 2 == 0 { Some(at[0]) } else { path.push(PathToken::Index(*k)); at.get(*k).copied() };
      ctx.insert(names[i], json!(v));
      if let (Some(j), GeneratorTestMode::Provider) = (hit, mode) { want[j].1 = v.clone(); }
      gens.insert(DocPath::from_tokens(path), Generator::ProviderStateGenerator(names[i].into(), None));
    }
    let mut handler = FormUrlEncodedHandler { params: params.clone() };
    let body = handler.process_body(&gens, mode, &ctx, &noop())?;
    ensure_eq!(handler.params, want, "{:?} with {:?}", params, gens);
    let got = form_decode(&String::from_utf8_lossy(&body.value().unwrap_or_default()));
    ensure_eq!(got, want, "body of {:?}", params);
    Ok(())
  });
}
fn form_decode(s: &str) -> Vec<(String, String)> {
  let dec = |s: &str| { let b = s.as_bytes(); let mut out = vec![]; let mut i = 0; while i < b.len() { match b[i] { b'+' => out.push(b' '), b'%' => { out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(0)); i += 2; } x => out.push(x) } i += 1; } String::from_utf8_lossy(&out).to_string() };
  if s.is_empty() { return vec![]; }
  s.split('&').map(|p| { let (a, b) = p.split_once('=').unwrap_or((p, "")); (dec(a), dec(b)) }).collect()
}
#[allow(dead_code)] fn unused() -> R { Ok(()) }
