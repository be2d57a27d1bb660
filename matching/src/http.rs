//! Matching of the parts of requests and responses other than bodies.
use proptest::prelude::*;
use pvfw::{ensure, ensure_eq, Case, H, R};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use pact_matching::{match_method, match_path, match_query, match_status, CoreMatchingContext, DiffConfig, HeaderMatchingContext, Mismatch};
use pact_matching::headers::match_headers;
use pact_models::HttpStatus;
use pact_models::matchingrules::{matchers_from_json, MatchingRule, MatchingRuleCategory, RuleList, RuleLogic};
use pact_models::path_exp::DocPath;
use crate::g::B;
use crate::jm::*;

pub fn rl() -> B<Rl> {
  (prop_oneof![3 => prop::collection::vec(text_rule(), 1..2), 1 => prop::collection::vec(text_rule(), 2..4)], any::<bool>()).prop_map(|(rules, or)| Rl { rules, or }).boxed()
}
pub fn text_rule() -> B<Ru> { prop_oneof![8 => scalar_rule().prop_filter("not about texts", |r| *r != Ru::Null), 1 => (0usize..3).prop_map(Ru::Min), 1 => (0usize..3).prop_map(Ru::Max)].boxed() }

fn single(cat: &str, rl: &Rl, strict: bool) -> CoreMatchingContext {
  let c = MatchingRuleCategory { name: cat.into(), rules: [(DocPath::empty(), rl.build())].into_iter().collect() };
  CoreMatchingContext::new(if strict { DiffConfig::NoUnexpectedKeys } else { DiffConfig::AllowUnexpectedKeys }, &c, &HashMap::new())
}

const CLASS: [&str; 5] = ["info", "success", "redirect", "clientError", "serverError"];
#[derive(Clone, Debug)]
pub enum St { Class(u8), Codes(Vec<u16>), NonError, Error, Rule(Ru) }
impl St {
  pub fn build(&self) -> MatchingRule {
    match self {
      St::Class(n) => MatchingRule::StatusCode(match n { 1 => HttpStatus::Information, 2 => HttpStatus::Success, 3 => HttpStatus::Redirect, 4 => HttpStatus::ClientError, _ => HttpStatus::ServerError }),
      St::Codes(v) => MatchingRule::StatusCode(HttpStatus::StatusCodes(v.clone())), St::NonError => MatchingRule::StatusCode(HttpStatus::NonError), St::Error => MatchingRule::StatusCode(HttpStatus::Error),
      St::Rule(r) => r.build()
    }
  }
  pub fn json(&self) -> Option<Value> {
    Some(match self {
      St::Class(n) => json!({"match": "statusCode", "status": CLASS[*n as usize - 1]}),
      St::Codes(v) => json!({"match": "statusCode", "status": v}), St::NonError => json!({"match": "statusCode", "status": "nonError"}), St::Error => json!({"match": "statusCode", "status": "error"}),
      St::Rule(_) => return None
    })
  }
  pub fn ok(&self, e: u16, a: u16) -> bool {
    match self {
      St::Class(n) => a / 100 == *n as u16, St::Codes(v) => v.contains(&a), St::NonError => a < 400, St::Error => a >= 400,
      St::Rule(Ru::Type) => true, St::Rule(Ru::Int) | St::Rule(Ru::Num) => true, St::Rule(Ru::Dec) => false, St::Rule(Ru::Eq) => e == a, St::Rule(Ru::Regex(r)) => r.matches(&a.to_string()), St::Rule(Ru::Include(s)) => a.to_string().contains(s.as_str()),
      _ => unreachable!()
    }
  }
}
pub fn st() -> B<St> {
  prop_oneof![4 => (1u8..6).prop_map(St::Class), 2 => prop::collection::vec(code(), 0..4).prop_map(St::Codes), 1 => Just(St::NonError), 1 => Just(St::Error), 1 => Just(St::Rule(Ru::Type)), 1 => Just(St::Rule(Ru::Int)), 1 => Just(St::Rule(Ru::Eq)),
    1 => Just(St::Rule(Ru::Num)), 1 => Just(St::Rule(Ru::Dec)), 1 => re().prop_map(|r| St::Rule(Ru::Regex(r))), 1 => Just(St::Rule(Ru::Include("0".into())))].boxed()
}
pub fn code() -> B<u16> { prop_oneof![6 => prop::sample::select(vec![99u16, 100, 101, 199, 200, 201, 204, 299, 300, 302, 399, 400, 404, 418, 499, 500, 503, 599, 600, 0]), 3 => 100u16..600, 1 => any::<u16>()].boxed() }

/// Method, path and status.
pub fn p28(h: &mut H) {
  h.check("method", 20000, "the methods differ", || ("[a-zA-Z]{1,4}", "[a-zA-Z]{1,4}", any::<u32>(), any::<bool>()), |(e, o, mask, same), c| {
    let a: String = if *same { e.chars().enumerate().map(|(i, x)| if mask >> i & 1 == 1 { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() }).collect() } else { o.clone() };
    c.nontrivial(*e != a);
    let want = e.eq_ignore_ascii_case(&a);
    match match_method(e, &a) {
      Ok(()) => ensure!(want, "{} matches {}", e, a),
      Err(Mismatch::MethodMismatch { expected, actual, .. }) => { ensure!(!want, "{} does not match {}", e, a); ensure_eq!((&expected, &actual), (e, &a), "reported"); }
      Err(o) => return Err(format!("{:?}", o))
    }
    Ok(())
  });
  let seg = || prop_oneof![3 => "[a-c]{1,2}", 2 => "[0-9]{1,2}", 1 => "[A-Z]", 1 => "[%~.a-]{1,3}", 1 => prop::sample::select(vec!["%2f", "%2F", "%41", "%c3%A9", "é"]).prop_map(|s| s.to_string())];
  h.check("path", 60000, "there is a rule or the paths differ", || (prop::collection::vec(seg(), 0..3), prop::collection::vec(seg(), 0..3), prop::bool::weighted(0.4), prop::option::of(rl()), any::<bool>(), any::<bool>(), 0u8..22), |(e, a, same, rl, json, strict, bare), c| {
    let e = format!("/{}", e.join("/"));
    let mut a = if *same { e.clone() } else { format!("/{}", a.join("/")) };
    match bare {
      0 => a = a.trim_start_matches('/').to_string(), 1 => a.push('/'), 2 => a = a.to_ascii_uppercase(), 3 => a = a.to_ascii_lowercase(), 4 => { a.pop(); }
      5 => a = a.replacen('/', "//", 1), 6 => a.push('?'), 7 => a.push(' '), 8 => a = a.replace("%2F", "%2f"), 9 => a = a.replace("%2", "%252"), 10 => a = a.replace("%2f", "/"), _ => ()
    }
    c.nontrivial(rl.is_some() || e != a);
    let (cx, fails) = match rl {
      None => (CoreMatchingContext::with_config(if *strict { DiffConfig::NoUnexpectedKeys } else { DiffConfig::AllowUnexpectedKeys }), (e != a) as usize),
      Some(l) => {
        let bad = l.rules.iter().filter(|r| !text_ok(r, &e, &a, false)).count();
        let cx = if *json { CoreMatchingContext::new(DiffConfig::NoUnexpectedKeys, &loaded("path", None, l)?, &HashMap::new()) } else { single("path", l, *strict) };
        (cx, if l.or && bad < l.rules.len() { 0 } else { bad })
      }
    };
    c.label(if fails == 0 { "match" } else { "mismatch" });
    let got = match_path(&e, &a, &cx);
    ensure_eq!(got.as_ref().err().map(|m| m.len()).unwrap_or(0), fails, "number of mismatches of {} with {} under {:?}: {:?}", e, a, rl, got);
    for m in got.err().unwrap_or_default() {
      let Mismatch::PathMismatch { expected, actual, mismatch } = &m else { return Err(format!("{:?}", m)) };
      ensure_eq!((expected, actual), (&e, &a), "reported");
      ensure!(!mismatch.is_empty(), "no description");
    }
    Ok(())
  });
  h.check("status", 60000, "there is a rule or the codes differ", || (code(), code(), prop::bool::weighted(0.2), prop::option::weighted(0.8, prop::collection::vec(st(), 1..3)), any::<bool>(), any::<bool>()), |(e, a, same, rules, or, json), c| {
    let a = if *same { *e } else { *a };
    c.nontrivial(rules.is_some() || *e != a);
    let (cx, fails) = match rules {
      None => (CoreMatchingContext::default(), (*e != a) as usize),
      Some(rs) => {
        let js: Option<Vec<Value>> = rs.iter().map(|r| r.json()).collect();
        let cat = match (js, json) {
          (Some(js), true) => matchers_from_json(&json!({"matchingRules": {"status": {"combine": if *or { "OR" } else { "AND" }, "matchers": js}}}), &None).map_err(|e| e.to_string())?.rules_for_category("status").ok_or("no status rules were loaded")?,
          _ => MatchingRuleCategory { name: "status".into(), rules: [(DocPath::empty(), RuleList { rules: rs.iter().map(|r| r.build()).collect(), rule_logic: if *or { RuleLogic::Or } else { RuleLogic::And }, cascaded: false })].into_iter().collect() }
        };
        let bad = rs.iter().filter(|r| !r.ok(*e, a)).count();
        (CoreMatchingContext::new(DiffConfig::AllowUnexpectedKeys, &cat, &HashMap::new()), if *or && bad < rs.len() { 0 } else { bad })
      }
    };
    let got = match_status(*e, a, &cx);
    ensure_eq!(got.as_ref().err().map(|m| m.len()).unwrap_or(0), fails, "number of mismatches of {} with {} under {:?}: {:?}", e, a, rules, got);
    for m in got.err().unwrap_or_default() {
      let Mismatch::StatusMismatch { expected, actual, .. } = &m else { return Err(format!("{:?}", m)) };
      ensure_eq!((expected, actual), (e, &a), "reported");
    }
    Ok(())
  });
}

pub fn rule_json(r: &Ru) -> Value {
  match r {
    Ru::Type => json!({"match": "type"}), Ru::Min(n) => json!({"match": "type", "min": n}), Ru::Max(n) => json!({"match": "type", "max": n}), Ru::MinMax(a, b) => json!({"match": "type", "min": a, "max": b}),
    Ru::Eq => json!({"match": "equality"}), Ru::Regex(x) => json!({"match": "regex", "regex": x.text()}), Ru::Include(s) => json!({"match": "include", "value": s}), Ru::Null => json!({"match": "null"}),
    Ru::Int => json!({"match": "integer"}), Ru::Dec => json!({"match": "decimal"}), Ru::Num => json!({"match": "number"}), Ru::Bool => json!({"match": "boolean"}), Ru::NotEmpty => json!({"match": "notEmpty"}),
    Ru::Semver => json!({"match": "semver"}), Ru::Date => json!({"match": "date", "date": "yyyy-MM-dd"}), Ru::Time => json!({"match": "time"}), Ru::Values => json!({"match": "values"}),
    _ => unreachable!()
  }
}
/// The rules as a pact file holds them.
pub fn loaded(cat: &str, name: Option<&str>, l: &Rl) -> Result<MatchingRuleCategory, String> {
  let list = json!({"combine": if l.or { "OR" } else { "AND" }, "matchers": l.rules.iter().map(rule_json).collect::<Vec<_>>()});
  let doc = match name { Some(n) => json!({"matchingRules": {cat: {n: list}}}), None => json!({"matchingRules": {cat: list}}) };
  matchers_from_json(&doc, &None).map_err(|e| e.to_string())?.rules_for_category(cat).ok_or(format!("no {} rules were loaded", cat))
}

// ---------------------------------------------------------------- lists of texts
/// Result of comparing two lists of texts under a list of rules that applies to the list; the callback decides items.
fn text_lists(l: &Rl, e: &[String], a: &[String], item: &mut dyn FnMut(usize, &str, &str) -> bool) -> bool {
  let mut each = l.rules.iter().map(|r| {
    let n = a.len();
    let ok = match r { Ru::Min(m) => n >= *m, Ru::Max(m) => n <= *m, Ru::MinMax(m, x) => n >= *m && n <= *x, Ru::Eq => e == a, Ru::NotEmpty => n > 0, Ru::Null => false, _ => true };
    let items = a.iter().enumerate().all(|(i, x)| e.get(i).or(e.first()).map(|v| item(i, v, x)).unwrap_or(true));
    ok && items
  });
  if l.or { each.any(|x| x) } else { each.all(|x| x) }
}
pub fn text_list_ok(l: &Rl, e: &str, a: &str) -> bool {
  let mut it = l.rules.iter().map(|r| text_ok(r, e, a, false));
  if l.or { it.any(|x| x) } else { it.all(|x| x) }
}

pub type Q = BTreeMap<String, Vec<Option<String>>>;
pub fn qval() -> B<Option<String>> { prop_oneof![8 => prop_oneof![2 => "[ab1]{0,2}", 1 => texts()].prop_map(Some), 1 => Just(None)].boxed() }
pub fn qmap() -> B<Q> { prop::collection::btree_map(prop_oneof![6 => "[a-c]", 1 => Just("a b".to_string()), 1 => Just("q-1".to_string()), 1 => Just("x[]".to_string())], prop_oneof![3 => prop::collection::vec(qval(), 1..2), 2 => prop::collection::vec(qval(), 0..4)], 0..4).boxed() }

#[derive(Clone, Debug)]
pub enum QEd { Near(u8, u8), Set(String, u8, Option<String>), Push(String, Option<String>), Pop(String), Drop(String), Add(String, Option<String>) }
pub fn qeds() -> B<Vec<(u8, QEd)>> {
  let e = prop_oneof![3 => (any::<u8>(), qval()).prop_map(|(i, v)| QEd::Set(String::new(), i, v)), 2 => (any::<u8>(), any::<u8>()).prop_map(|(i, n)| QEd::Near(i, n)), 2 => qval().prop_map(|v| QEd::Push(String::new(), v)), 1 => Just(QEd::Pop(String::new())), 1 => Just(QEd::Drop(String::new())), 1 => ("[a-d]", qval()).prop_map(|(k, v)| QEd::Add(k, v))];
  prop::collection::vec((any::<u8>(), e), 0..3).boxed()
}
pub fn qapply(m: &Q, eds: &[(u8, QEd)]) -> Q {
  let mut m = m.clone();
  for (w, e) in eds {
    let k = m.keys().nth(*w as usize % m.len().max(1)).cloned();
    match (e, k) {
      (QEd::Add(k, v), _) => { m.entry(k.clone()).or_insert_with(|| vec![v.clone()]); }
      (QEd::Set(_, i, v), Some(k)) => { let l = m.get_mut(&k).unwrap(); if !l.is_empty() { let i = *i as usize % l.len(); l[i] = v.clone(); } }
      (QEd::Near(i, n), Some(k)) => { let l = m.get_mut(&k).unwrap(); if !l.is_empty() { let i = *i as usize % l.len(); l[i] = l[i].as_ref().map(|s| near_text(s, *n)); } }
      (QEd::Push(_, v), Some(k)) => m.get_mut(&k).unwrap().push(v.clone()),
      (QEd::Pop(_), Some(k)) => { m.get_mut(&k).unwrap().pop(); }
      (QEd::Drop(_), Some(k)) => { m.remove(&k); }
      _ => ()
    }
  }
  m
}

/// The parameters that do not match, and all parameters.
pub fn query_model(rules: &Rules, e: &Q, a: &Q, amb: &mut bool) -> (BTreeSet<String>, BTreeSet<String>) {
  let m = M { rules, strict: true };
  let mut out = Out::default();
  let mut bad = BTreeSet::new();
  let mut keys: BTreeSet<String> = e.keys().cloned().collect();
  for (k, ev) in e {
    let Some(av) = a.get(k) else { bad.insert(k.clone()); continue };
    let t = |v: &Vec<Option<String>>| v.iter().map(|x| x.clone().unwrap_or_default()).collect::<Vec<_>>();
    let (ev, av) = (t(ev), t(av));
    let p = vec![Tok::F(k.clone())];
    let ok = match m.best(&p, &mut out) {
      Some((l, _)) => text_lists(l, &ev, &av, &mut |i, x, y| {
        let q = vec![Tok::F(k.clone()), Tok::I(i), Tok::I(0)];
        text_list_ok(m.best(&q, &mut out).unwrap().0, x, y)
      }),
      None => {
        let items = ev.iter().zip(&av).enumerate().all(|(i, (x, y))| match m.best(&[Tok::F(k.clone()), Tok::I(i)], &mut out) { Some((l, _)) => text_list_ok(l, x, y), None => x == y });
        ev.len() == av.len() && items
      }
    };
    if !ok { bad.insert(k.clone()); }
  }
  for k in a.keys() { if !e.contains_key(k) { bad.insert(k.clone()); keys.insert(k.clone()); } }
  *amb = out.ambiguous;
  (bad, keys)
}

/// Query parameters.
pub fn p29(h: &mut H) {
  let judge = move |rules: &Rules, cx: &CoreMatchingContext, e: &Option<Q>, a: &Option<Q>, c: &mut Case| -> R {
    let mut amb = false;
    let none = Q::new();
    let (bad, keys) = query_model(rules, e.as_ref().unwrap_or(&none), a.as_ref().unwrap_or(&none), &mut amb);
    c.label(if bad.is_empty() { "match" } else { "mismatch" });
    c.label_if(amb, "ambiguous rules (not judged)");
    if amb { return Ok(()); }
    let un = |q: &Option<Q>| q.as_ref().map(|q| q.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<HashMap<_, _>>());
    let got = match_query(un(e), un(a), cx);
    ensure_eq!(got.iter().filter(|(_, v)| !v.is_empty()).map(|(k, _)| k.clone()).collect::<BTreeSet<_>>(), bad, "parameters that do not match ({:?} with {:?}): {:?}", e, a, got);
    ensure_eq!(got.keys().cloned().collect::<BTreeSet<_>>(), keys, "parameters in the result");
    for (k, v) in &got { for m in v {
      let Mismatch::QueryMismatch { parameter, mismatch, .. } = m else { return Err(format!("{:?}", m)) };
      ensure!(!mismatch.is_empty() && parameter.contains(k.as_str()), "mismatch does not name its parameter {}: {:?}", k, m);
    } }
    Ok(())
  };
  h.check("no rules", 40000, "both sides have parameters", || (prop::option::weighted(0.9, qmap()), qeds(), prop::option::weighted(0.1, prop::option::of(qmap()))), |(e, eds, other), c| {
    let a = match other { Some(o) => o.clone(), None => e.as_ref().map(|e| qapply(e, eds)) };
    c.nontrivial(e.as_ref().map(|e| !e.is_empty()).unwrap_or(false) && a.is_some());
    judge(&vec![], &ctx(&vec![], "query", true), e, &a, c)
  });
  h.check("rules", 80000, "a rule is for an expected parameter", || (qmap(), qeds(), prop::collection::vec((any::<u8>(), 0u8..8, 0usize..3, rl()), 1..3), any::<bool>()), |(e, eds, rs, json), c| {
    let mut rules: Rules = vec![];
    for (w, shape, i, l) in rs {
      let Some(k) = e.keys().nth(*w as usize % e.len().max(1)) else { continue };
      let mut p = vec![Tok::F(k.clone())];
      match shape { 0 => p.push(Tok::I(*i)), 1 => p.push(Tok::StarI), 2 => p.push(Tok::Star), _ => () }
      if !rules.iter().any(|(q, _)| *q == p) { rules.push((p, l.clone())); }
    }
    c.nontrivial(!rules.is_empty());
    let a = qapply(e, eds);
    let mut cx = ctx(&rules, "query", true);
    if let ([(p, l)], true) = (rules.as_slice(), *json) { if let [Tok::F(k)] = p.as_slice() { if !k.contains(['[', ' ']) {
      cx = CoreMatchingContext::new(DiffConfig::NoUnexpectedKeys, &loaded("query", Some(k), l)?, &HashMap::new()); c.label("rules as loaded");
    } } }
    judge(&rules, &cx, &Some(e.clone()), &Some(a), c)
  });
}

// ---------------------------------------------------------------- headers
pub type Hd = BTreeMap<String, Vec<String>>;
pub fn hname() -> B<String> { prop_oneof![4 => prop::sample::select(vec!["X-A", "x-b", "ETag", "Content-Type", "Accept", "X-Count"]).prop_map(|s| s.to_string())].boxed() }
pub fn hval() -> B<String> {
  prop_oneof![2 => "[ab1]{0,2}", 1 => texts(), 1 => "[ ]?[ab]{1,2}[ ]{0,2}", 4 => (prop::sample::select(vec!["text/plain", "application/json", "TEXT/plain"]), prop::collection::vec((prop::sample::select(vec!["charset", "q", "Charset", "v"]), prop::sample::select(vec!["utf-8", "UTF-8", "0.5", "a=b"]), prop::sample::select(vec!["; ", ";", " ;", ";;"])), 0..3))
    .prop_map(|(t, ps)| format!("{}{}", t, ps.iter().map(|(k, v, s)| format!("{}{}={}", s, k, v)).collect::<String>()))].boxed()
}
pub fn recase(s: &str, mask: u16) -> String { s.chars().enumerate().map(|(i, c)| if mask >> (i % 16) & 1 == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() }

fn params(s: &str) -> (String, BTreeMap<String, String>) {
  let mut parts = s.split(';').map(|p| p.trim()).filter(|p| !p.is_empty());
  (parts.next().unwrap_or("").to_string(), parts.filter_map(|p| p.split_once('=').map(|(k, v)| (k.trim().to_string(), v.trim().to_ascii_lowercase()))).collect())
}
/// A header value without rules: parameterised headers may have more parameters, in any order.
pub fn header_value_ok(name: &str, e: &str, a: &str) -> bool {
  if ["accept", "content-type"].contains(&name.to_lowercase().as_str()) {
    let ((em, ep), (am, ap)) = (params(e.trim()), params(a.trim()));
    em == am && ep.iter().all(|(k, v)| ap.get(k) == Some(v))
  } else { e.trim() == a.trim() }
}

pub fn hmap() -> B<Hd> { prop::collection::vec((hname(), prop_oneof![3 => prop::collection::vec(hval(), 1..2), 2 => prop::collection::vec(hval(), 0..4)]), 0..4).prop_map(|v| v.into_iter().collect::<Hd>()).boxed() }
pub type HEd = (u8, u8, u8, String, String);
pub fn heds() -> B<Vec<HEd>> { prop::collection::vec((any::<u8>(), 0u8..11, any::<u8>(), hval(), hname()), 0..3).boxed() }
pub fn happly(m: &Hd, eds: &[HEd], mask: u16) -> Hd {
  let mut m = m.clone();
  for (w, op, i, v, n) in eds {
    let k = m.keys().nth(*w as usize % m.len().max(1)).cloned();
    match (op, k) {
      (0 | 1, Some(k)) => { let l = m.get_mut(&k).unwrap(); if !l.is_empty() { let i = *i as usize % l.len(); l[i] = v.clone(); } }
      (2, Some(k)) => m.get_mut(&k).unwrap().push(v.clone()),
      (3, Some(k)) => { m.get_mut(&k).unwrap().pop(); }
      (4, Some(k)) => { m.remove(&k); }
      (7, Some(k)) => { let l = m.get_mut(&k).unwrap(); if !l.is_empty() { let j = *i as usize % l.len(); l[j] = near_text(&l[j], i / 8); } }
      (9 | 10, Some(k)) => { let l = m.get_mut(&k).unwrap(); for x in l.iter_mut() {
        let mut ps: Vec<String> = x.split(';').map(|s| s.to_string()).collect();
        let t = ps.remove(0);
        for j in 0..*i as usize % 4 { ps.push(format!("{}={}", ["x", "y", "q1", "z"][j], i)); }
        if i & 16 == 16 { ps.reverse(); } else { let n = ps.len().max(1); ps.rotate_left((*i as usize / 4) % n); }
        *x = std::iter::once(t).chain(ps).collect::<Vec<_>>().join(";");
      } }
      (8, Some(k)) => { let l = m.get_mut(&k).unwrap(); l.reverse(); }
      (5, Some(k)) => { let l = m.get_mut(&k).unwrap(); for x in l.iter_mut() { *x = format!("{};x=1", x); } }
      _ => { m.entry(n.clone()).or_insert_with(|| vec![v.clone()]); }
    }
  }
  m.into_iter().map(|(k, v)| (recase(&k, mask), v)).collect()
}
/// The headers that do not match.
pub fn header_model(rules: &Rules, e: &Option<Hd>, a: &Option<Hd>, amb: &mut bool) -> BTreeSet<String> {
  let low: Rules = rules.iter().map(|(p, l)| (p.iter().map(|t| match t { Tok::F(f) => Tok::F(f.to_lowercase()), o => o.clone() }).collect(), l.clone())).collect();
  let m = M { rules: &low, strict: true };
  let mut out = Out::default();
  let mut bad = BTreeSet::new();
  for (k, ev) in e.iter().flatten() {
    let lk = k.to_lowercase();
    let Some(av) = a.iter().flatten().find(|(n, _)| n.to_lowercase() == lk).map(|(_, v)| v) else { bad.insert(k.clone()); continue };
    let p = vec![Tok::F(lk.clone())];
    let value = |i: usize, x: &str, y: &str, out: &mut Out| match m.best(&p, out).or_else(|| m.best(&[Tok::F(lk.clone()), Tok::I(i)], out)) {
      Some((l, _)) => text_list_ok(l, x.trim(), y.trim()), None => header_value_ok(k, x, y)
    };
    let ok = if ev.is_empty() && !av.is_empty() { false }
      else if ev.len() == 1 && av.len() == 1 { value(0, &ev[0], &av[0], &mut out) }
      else if let Some((l, _)) = m.best(&p, &mut out) { text_lists(l, ev, av, &mut |_, x, y| value(0, x, y, &mut out)) }
      else { ev.len() <= av.len() && av.iter().enumerate().all(|(i, y)| value(i, ev.get(i).map(|s| s.as_str()).unwrap_or(""), y, &mut out)) };
    if !ok { bad.insert(k.clone()); }
  }
  *amb = out.ambiguous;
  bad
}

pub fn p30(h: &mut H) {
  let judge = |rules: &Rules, cx: &CoreMatchingContext, e: &Option<Hd>, a: &Option<Hd>, c: &mut Case| -> R {
    let mut amb = false;
    let bad = header_model(rules, e, a, &mut amb);
    c.label(if bad.is_empty() { "match" } else { "mismatch" });
    if amb { c.label("ambiguous rules (not judged)"); return Ok(()); }
    let un = |q: &Option<Hd>| q.as_ref().map(|q| q.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<HashMap<_, _>>());
    let got = match_headers(un(e), un(a), &HeaderMatchingContext::new(cx));
    ensure_eq!(got.iter().filter(|(_, v)| !v.is_empty()).map(|(k, _)| k.clone()).collect::<BTreeSet<_>>(), bad, "headers that do not match ({:?} with {:?}): {:?}", e, a, got);
    ensure_eq!(got.keys().cloned().collect::<BTreeSet<_>>(), e.iter().flatten().map(|(k, _)| k.clone()).collect::<BTreeSet<_>>(), "headers in the result");
    for (k, v) in &got { for m in v {
      let Mismatch::HeaderMismatch { key, mismatch, .. } = m else { return Err(format!("{:?}", m)) };
      ensure!(!mismatch.is_empty() && key.to_lowercase().contains(&k.to_lowercase()), "mismatch does not name its header {}: {:?}", k, m);
    } }
    Ok(())
  };
  h.check("no rules", 60000, "both sides have headers", || (prop::option::weighted(0.95, hmap()), heds(), any::<u16>(), prop::option::weighted(0.1, prop::option::of(hmap()))), |(e, eds, mask, other), c| {
    let a = match other { Some(o) => o.clone(), None => e.as_ref().map(|e| happly(e, eds, *mask)) };
    c.nontrivial(e.as_ref().map(|e| !e.is_empty()).unwrap_or(false) && a.is_some());
    judge(&vec![], &ctx(&vec![], "header", true), e, &a, c)
  });
  h.check("rules", 80000, "a rule is for an expected header", || (hmap(), heds(), any::<u16>(), any::<u16>(), prop::collection::vec((any::<u8>(), 0u8..8, 0usize..3, rl()), 1..3), any::<bool>()), |(e, eds, mask, mask2, rs, json), c| {
    let mut rules: Rules = vec![];
    for (w, shape, i, l) in rs {
      let Some(k) = e.keys().nth(*w as usize % e.len().max(1)) else { continue };
      let k = recase(k, *mask2);
      let mut p = vec![Tok::F(k)];
      match shape { 0 => p.push(Tok::I(*i)), _ => () }
      if !rules.iter().any(|(q, _)| *q == p) { rules.push((p, l.clone())); }
    }
    c.nontrivial(!rules.is_empty());
    let a = happly(e, eds, *mask);
    let mut cx = ctx(&rules, "header", true);
    if let ([(p, l)], true) = (rules.as_slice(), *json) { if let [Tok::F(k)] = p.as_slice() {
      cx = CoreMatchingContext::new(DiffConfig::NoUnexpectedKeys, &loaded("header", Some(k), l)?, &HashMap::new()); c.label("rules as loaded");
    } }
    judge(&rules, &cx, &Some(e.clone()), &Some(a), c)
  });
}
