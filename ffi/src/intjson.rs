//! Matching rules and generators embedded in the JSON given for bodies, headers, query parameters, paths, statuses and metadata.
use std::collections::BTreeMap;

#[allow(deprecated)]
use pact_ffi::mock_server::handles::*;
use pact_models::path_exp::DocPath;
use pact_models::PactSpecification;
use proptest::prelude::*;
use pvfw::{ensure, ensure_eq, Case, H, R};
use serde_json::{json, Map, Value};

use crate::common::*;
use crate::g;

/// One matching rule: the attributes it is asked for with, and what it is then
#[derive(Debug, Clone)]
pub struct Rule { pub name: &'static str, pub attrs: Map<String, Value>, pub want: Value }
#[derive(Debug, Clone)]
pub enum Spec {
  One(Rule), Many(Vec<Rule>),
  /// text of the expression, the rules it stands for, the generator it brings, name of a member it refers to
  Expr(String, Vec<Value>, Option<Value>, Option<String>),
  /// something that is no rule
  Bad(Value),
}
#[derive(Debug, Clone)]
pub enum T {
  Leaf(Value), Obj(Vec<(String, T)>), Arr(Vec<T>),
  Match { spec: Spec, made: Made, value: Option<Box<T>> },
  Contains(Vec<T>, bool),
}
pub type Made = Option<(Map<String, Value>, Option<Value>)>;
pub fn obj(v: Value) -> Map<String, Value> { v.as_object().cloned().unwrap_or_default() }
impl Spec {
  fn values(&self) -> bool { self.rules().map(|r| r.iter().any(|r| r["match"] == "values" || r["match"] == "eachValue")).unwrap_or(false) }
  pub fn rules(&self) -> Option<Vec<Value>> {
    match self { Spec::One(r) => Some(vec![r.want.clone()]), Spec::Many(rs) => Some(rs.iter().map(|r| r.want.clone()).collect()), Spec::Expr(_, rs, _, _) => Some(rs.clone()), Spec::Bad(_) => None }
  }
  pub fn write(&self, o: &mut Map<String, Value>) {
    const K: &str = "pact:matcher:type";
    match self {
      Spec::One(r) => { o.insert(K.into(), json!(r.name)); for (k, v) in &r.attrs { o.insert(k.clone(), v.clone()); } }
      Spec::Many(rs) => { o.insert(K.into(), json!(rs.iter().map(|r| { let mut m = r.attrs.clone(); m.insert(K.into(), json!(r.name)); m }).collect::<Vec<_>>())); }
      Spec::Expr(t, _, _, refers) => { o.insert(K.into(), json!(t)); if let Some(n) = refers { o.insert(n.clone(), json!("x")); } }
      Spec::Bad(v) => { o.insert(K.into(), v.clone()); }
    }
  }
}
impl T {
  pub fn json(&self) -> Value {
    match self {
      T::Leaf(v) => v.clone(),
      T::Obj(m) => json!(m.iter().map(|(k, t)| (k.clone(), t.json())).collect::<Map<_, _>>()),
      T::Arr(v) => json!(v.iter().map(|t| t.json()).collect::<Vec<_>>()),
      T::Match { spec, made, value } => {
        let mut o = Map::new();
        if let Some((attrs, _)) = made { o.extend(attrs.clone()); }
        spec.write(&mut o);
        if let Some(v) = value { o.insert("value".into(), v.json()); }
        json!(o)
      }
      T::Contains(vs, dash) => json!({ "pact:matcher:type": if *dash { "array-contains" } else { "arrayContains" }, "variants": vs.iter().map(|t| t.json()).collect::<Vec<_>>() }),
    }
  }
  pub fn matchers(&self) -> usize {
    match self { T::Leaf(_) => 0, T::Obj(m) => m.iter().map(|x| x.1.matchers()).sum(), T::Arr(v) => v.iter().map(T::matchers).sum(), T::Match { value, .. } => 1 + value.as_ref().map(|v| v.matchers()).unwrap_or(0), T::Contains(v, _) => 1 + v.iter().map(T::matchers).sum::<usize>() }
  }
}
/// The rules and generators found, by the place they are for
#[derive(Debug, Default, Clone)]
pub struct Found { pub rules: BTreeMap<String, Vec<Value>>, pub gens: BTreeMap<String, Value> }
impl Found {
  pub fn dump_rules(&self, cat: &str) -> Map<String, Value> { self.rules.iter().map(|(p, r)| (format!("{} {}", cat, p), json!(["And", r]))).collect() }
  pub fn dump_gens(&self, cat: &str) -> Map<String, Value> { self.gens.iter().map(|(p, r)| (format!("{} {}", cat, p), r.clone())).collect() }
}
fn at(path: &str, f: impl Fn(&mut DocPath)) -> String { let mut p = DocPath::new(path).unwrap(); f(&mut p); p.to_string() }
fn field(path: &str, name: &str) -> String { at(path, |p| { p.push_field(name); }) }
fn index(path: &str, i: usize) -> String { at(path, |p| { p.push_index(i); }) }
fn star(path: &str) -> String { at(path, |p| { p.push_star(); }) }
fn star_index(path: &str) -> String { at(path, |p| { p.push_star_index(); }) }

impl T {
  /// The example; members are any (`.*`) or elements are any (`[*]`) directly below a rule about them
  pub fn example(&self, path: &str, any_member: bool, any_element: bool, found: &mut Found) -> Value {
    match self {
      T::Leaf(v) => v.clone(),
      T::Obj(m) => json!(m.iter().filter(|(k, _)| !k.starts_with("pact:")).map(|(k, t)| (k.clone(), t.example(&if any_member { star(path) } else { field(path, k) }, false, false, found))).collect::<Map<_, _>>()),
      T::Arr(v) => json!(v.iter().enumerate().map(|(i, t)| t.example(&if any_element { star_index(path) } else { index(path, i) }, false, false, found)).collect::<Vec<_>>()),
      T::Match { spec, made, value } => {
        let rules = spec.rules();
        let example = match (&rules, value) { (Some(_), Some(v)) => v.example(path, spec.values(), true, found), _ => Value::Null };
        if let Spec::Expr(_, _, Some(g), _) = spec { found.gens.insert(path.into(), g.clone()); }
        if let Some((_, Some(g))) = made { found.gens.insert(path.into(), g.clone()); }
        if let Some(rules) = rules { if !rules.is_empty() { found.rules.entry(path.into()).or_default().extend(rules) } }
        example
      }
      T::Contains(vs, _) => {
        let mut examples = vec![];
        let variants: Vec<Value> = vs.iter().enumerate().map(|(i, t)| {
          let mut own = Found::default();
          examples.push(t.example("$", false, false, &mut own));
          let mut v = json!({ "index": i, "rules": own.rules.iter().map(|(p, r)| (p.clone(), json!({ "combine": "AND", "matchers": r }))).collect::<Map<_, _>>() });
          if !own.gens.is_empty() { v["generators"] = json!(own.gens) }
          v
        }).collect();
        found.rules.entry(path.into()).or_default().push(json!({ "match": "arrayContains", "variants": variants }));
        json!(examples)
      }
    }
  }
}

fn rule_(name: &'static str, attrs: Value, want: Value) -> Rule { Rule { name, attrs: obj(attrs), want } }
/// A rule that needs nothing but its own attributes
pub fn simple() -> BoxedStrategy<Rule> {
  prop_oneof![
    3 => Just(rule_("type", json!({}), json!({ "match": "type" }))),
    1 => (0usize..9).prop_map(|n| rule_("type", json!({ "min": n }), json!({ "match": "type", "min": n }))),
    1 => (0usize..9).prop_map(|n| rule_("type", json!({ "max": n }), json!({ "match": "type", "max": n }))),
    1 => (0usize..9, 0usize..9).prop_map(|(a, b)| rule_("type", json!({ "min": a, "max": b }), json!({ "match": "type", "min": a, "max": b }))),
    2 => prop::sample::select(vec!["\\d+", "[a-z]*", "^(a|b)$", "\\/path\\/\\d+"]).prop_map(|r| rule_("regex", json!({ "regex": r }), json!({ "match": "regex", "regex": r }))),
    3 => prop::sample::select(vec!["integer", "decimal", "number", "boolean", "null", "equality", "semver", "notEmpty", "values"]).prop_map(|n| rule_(n, json!({}), json!({ "match": n }))),
    1 => prop::sample::select(vec![("date", "yyyy-MM-dd"), ("time", "HH:mm")]).prop_map(|(n, f)| rule_(n, json!({ "format": f }), json!({ "match": n, "format": f }))),
    1 => any::<bool>().prop_map(|b| rule_(if b { "datetime" } else { "timestamp" }, json!({ "format": "yyyy-MM-dd'T'HH:mm" }), json!({ "match": "datetime", "format": "yyyy-MM-dd'T'HH:mm" }))),
    1 => prop::sample::select(vec!["success", "clientError", "nonError"]).prop_map(|s| rule_("statusCode", json!({ "status": s }), json!({ "match": "statusCode", "status": s }))),
  ].boxed()
}
/// A rule with a value of its own, as one of many
fn valued() -> BoxedStrategy<Rule> {
  let names = |b: bool, key: bool| match (b, key) { (true, true) => "each-key", (true, false) => "each-value", (false, true) => "eachKey", _ => "eachValue" };
  prop_oneof![
    2 => simple(),
    1 => g::ident().prop_map(|v| rule_("include", json!({ "value": v }), json!({ "match": "include", "value": v }))),
    1 => prop::sample::select(vec!["image/png", "text/plain"]).prop_map(|v| rule_("contentType", json!({ "value": v }), json!({ "match": "contentType", "value": v }))),
    3 => (any::<bool>(), any::<bool>(), prop::option::of(g::ident()), prop::collection::vec(simple(), 1..3)).prop_map(move |(b, key, v, rules)| {
      let mut attrs = obj(json!({ "rules": rules.iter().map(|r| { let mut m = r.attrs.clone(); m.insert("pact:matcher:type".into(), json!(r.name)); m }).collect::<Vec<_>>() }));
      let mut want = obj(json!({ "match": if key { "eachKey" } else { "eachValue" }, "rules": rules.iter().map(|r| r.want.clone()).collect::<Vec<_>>() }));
      if let Some(v) = v { attrs.insert("value".into(), json!(v)); want.insert("value".into(), json!(v)); }
      Rule { name: names(b, key), attrs, want: json!(want) }
    })
  ].boxed()
}
fn expression() -> BoxedStrategy<Spec> {
  let one = || prop::sample::select(vec![
    ("matching(type, 'x')", json!({ "match": "type" }), None), ("matching(integer, 10)", json!({ "match": "integer" }), None), ("matching( number , 1.5)", json!({ "match": "number" }), None),
    ("matching(regex, '\\\\w{3}-\\\\d+', 'AUK-1')", json!({ "match": "regex", "regex": "\\w{3}-\\d+" }), None), ("matching(boolean, true)", json!({ "match": "boolean" }), None),
    ("matching(date, 'yyyy-MM', '2020-01')", json!({ "match": "date", "format": "yyyy-MM" }), Some(json!({ "type": "Date", "format": "yyyy-MM" }))), ("notEmpty('x')", json!({ "match": "notEmpty" }), None), ("matching(semver, '1.0.0')", json!({ "match": "semver" }), None),
    ("matching(type, fromProviderState('${a}', 'x'))", json!({ "match": "type" }), Some(json!({ "type": "ProviderState", "expression": "${a}", "dataType": "STRING" }))),
    ("matching(integer, fromProviderState('b', 100))", json!({ "match": "integer" }), Some(json!({ "type": "ProviderState", "expression": "b", "dataType": "INTEGER" }))),
    ("atLeast(2)", json!({ "match": "type", "min": 2 }), None), ("atMost(3)", json!({ "match": "type", "max": 3 }), None),
    ("eachValue(matching(type, 'v'))", json!({ "match": "eachValue", "value": "v", "rules": [{ "match": "type" }] }), None), ("eachKey(matching(regex, 'a+', 'a'))", json!({ "match": "eachKey", "value": "a", "rules": [{ "match": "regex", "regex": "a+" }] }), None),
  ]);
  prop_oneof![
    6 => prop::collection::vec(one(), 1..4).prop_map(|v| {
      // of several, the first generator counts
      Spec::Expr(v.iter().map(|x| x.0).collect::<Vec<_>>().join(", "), v.iter().map(|x| x.1.clone()).collect(), v.iter().find_map(|x| x.2.clone()), None)
    }),
    1 => Just(Spec::Expr("matching($'other')".into(), vec![json!({ "match": "type" })], None, Some("other".into()))),
  ].boxed()
}
pub fn spec() -> BoxedStrategy<Spec> {
  prop_oneof![
    8 => simple().prop_map(Spec::One), 2 => prop::collection::vec(valued(), 1..4).prop_map(Spec::Many), 2 => expression(),
    1 => prop::sample::select(vec![json!("typo"), json!(""), json!("matching(typo, 'a')"), json!("matching($'nowhere')"), json!([{ "pact:matcher:type": "type" }, { "match": "type" }]), json!([{ "pact:matcher:type": "typo" }]), json!(null), json!(1), json!({})]).prop_map(Spec::Bad)
  ].boxed()
}
/// The generator asked for together with the rule; attributes they share would be the attributes of both
pub fn generator(spec: &Spec) -> BoxedStrategy<Made> {
  let plain = prop::sample::select(vec![
    (json!({ "pact:generator:type": "RandomBoolean" }), Some(json!({ "type": "RandomBoolean" }))),
    (json!({ "pact:generator:type": "RandomDecimal", "digits": 5 }), Some(json!({ "type": "RandomDecimal", "digits": 5 }))),
    (json!({ "pact:generator:type": "RandomString", "size": 7 }), Some(json!({ "type": "RandomString", "size": 7 }))),
    (json!({ "pact:generator:type": "RandomHexadecimal" }), Some(json!({ "type": "RandomHexadecimal", "digits": 10 }))),
    (json!({ "pact:generator:type": "ProviderState", "expression": "id" }), Some(json!({ "type": "ProviderState", "expression": "id" }))),
    (json!({ "pact:generator:type": "Typo" }), None),
  ]);
  let shared = match spec {
    Spec::One(r) if r.name == "regex" => { let x = r.attrs["regex"].clone(); Some((json!({ "pact:generator:type": "Regex" }), Some(json!({ "type": "Regex", "regex": x })))) }
    Spec::One(r) if r.name == "date" => { let x = r.attrs["format"].clone(); Some((json!({ "pact:generator:type": "Date" }), Some(json!({ "type": "Date", "format": x })))) }
    Spec::One(r) if r.name == "type" || r.name == "integer" => Some(if r.attrs.contains_key("min") || r.attrs.contains_key("max") || r.name == "integer" {
      let (a, b) = (r.attrs.get("min").cloned().unwrap_or(json!(0)), r.attrs.get("max").cloned().unwrap_or(json!(10)));
      (json!({ "pact:generator:type": "RandomInt" }), Some(json!({ "type": "RandomInt", "min": a, "max": b })))
    } else { (json!({ "pact:generator:type": "Uuid" }), Some(json!({ "type": "Uuid" }))) }),
    _ => None
  };
  let plain = plain.prop_map(|(a, b)| (obj(a), b)).boxed();
  match shared {
    Some((a, b)) => prop_oneof![3 => Just(None), 1 => plain.prop_map(Some), 2 => Just(Some((obj(a), b)))].boxed(),
    None => prop_oneof![3 => Just(None), 1 => plain.prop_map(Some)].boxed()
  }
}
/// A name that stands for itself in a path
fn key() -> BoxedStrategy<String> {
  prop_oneof![6 => g::ident(), 1 => prop::sample::select(vec!["value", "regex", "min", "match", "variants", "x-y", "a b", "a.b", "é", "$", "#id", "@type", "it's", "a[0]"]).prop_map(String::from)]
    .prop_filter("a name", |k| !k.starts_with("pact:") && !k.is_empty()).boxed()
}
fn leaf() -> BoxedStrategy<Value> { g::json_scalar().prop_filter("no NUL", |v| !v.to_string().contains("\\u0000")).boxed() }
pub fn members(of: BoxedStrategy<T>) -> BoxedStrategy<T> {
  prop::collection::vec((key(), of), 0..4).prop_map(|mut m| { let mut seen = std::collections::BTreeSet::new(); m.retain(|(k, _)| seen.insert(k.clone())); m.sort_by(|a, b| a.0.cmp(&b.0)); T::Obj(m) }).boxed()
}
pub fn document() -> BoxedStrategy<T> {
  prop_oneof![1 => tree(), 3 => members(tree()), 1 => prop::collection::vec(tree(), 1..4).prop_map(T::Arr)].prop_filter("document", |t| !matches!(t, T::Leaf(_))).boxed()
}
pub fn tree() -> BoxedStrategy<T> {
  leaf().prop_map(T::Leaf).prop_recursive(5, 120, 3, |inner| {
    let inner2 = inner.clone();
    prop_oneof![
      3 => members(inner.clone()),
      1 => (key(), inner.clone()).prop_map(|(k, t)| T::Obj(vec![(k, t), ("pact:generator:type".into(), T::Leaf(json!("Uuid"))), ("pact:note".into(), T::Leaf(json!(1)))])),
      2 => prop::collection::vec(inner.clone(), 0..4).prop_map(T::Arr),
      6 => spec().prop_flat_map(move |s| { let g = generator(&s); let v = prop::option::weighted(0.9, prop_oneof![
          2 => inner2.clone(), 2 => prop::collection::vec(inner2.clone(), 1..4).prop_map(T::Arr), 2 => members(inner2.clone())]); (Just(s), g, v) }).prop_map(|(s, made, value)| {
        // a rule about all members is about the members of an object
        let value = match value { Some(v) if s.values() && matches!(v, T::Match { .. } | T::Contains(..)) => Some(T::Obj(vec![("k".into(), v)])), v => v };
        // what is one of the attributes is not free to be chosen
        T::Match { spec: s, made, value: value.map(Box::new) }
      }),
      1 => (g::ident(), prop::sample::select(vec!["include", "contentType", "content-type"])).prop_map(|(v, n)| T::Match { spec: Spec::One(rule_(n, json!({}), json!({ "match": if n == "include" { n } else { "contentType" }, "value": v }))), made: None, value: Some(Box::new(T::Leaf(json!(v)))) }),
      1 => (prop::collection::vec(inner, 0..3), any::<bool>()).prop_map(|(v, d)| T::Contains(v, d)),
    ]
  }).boxed()
}

#[derive(Debug, Clone, Copy)]
pub enum Where { Request, Response, Async, SyncRequest, SyncResponse, Message }
pub const WHERE: [Where; 6] = [Where::Request, Where::Response, Where::Async, Where::SyncRequest, Where::SyncResponse, Where::Message];

/// Gives the body to the place, and what is found there afterwards
#[allow(deprecated)]
pub fn put(w: Where, ct: Option<&str>, text: &str) -> Result<Value, String> {
  let (a, b, d) = (c("a"), c("b"), c("d"));
  let pact = if matches!(w, Where::Message) { as_pact(pactffi_new_message_pact(a.p(), b.p())) } else { pactffi_new_pact(a.p(), b.p()) };
  pactffi_with_specification(pact, PactSpecification::V4);
  let i = match w {
    Where::Request | Where::Response => pactffi_new_interaction(pact, d.p()),
    Where::Async => pactffi_new_message_interaction(pact, d.p()),
    Where::Message => as_interaction(pactffi_new_message(unsafe { std::mem::transmute::<PactHandle, MessagePactHandle>(pact) }, d.p())),
    _ => pactffi_new_sync_message_interaction(pact, d.p())
  };
  let ct = ct.map(c);
  let ctp = ct.as_ref().map(|c| c.p()).unwrap_or(std::ptr::null());
  let response = matches!(w, Where::Response | Where::SyncResponse);
  let ok = if matches!(w, Where::Message) { pactffi_message_with_contents(as_message(i), ctp, c(text).p() as *const u8, text.len()); true }
    else { pactffi_with_body(i, if response { InteractionPart::Response } else { InteractionPart::Request }, ctp, c(text).p()) };
  let got = pact_of(pact).map(|p| dump(&p));
  pactffi_free_pact_handle(pact);
  if !ok { return Err("the body is refused".into()) }
  let mut got = got.ok_or("no pact")?.pop().ok_or("no interaction")?;
  let other = if response { got["request"].take() } else { got["response"].take() };
  let untouched = if other.is_array() { other.as_array().unwrap().iter().all(|o| o["rules"] == json!({}) && o["body"] == "missing") } else { other.is_null() || other["rules"] == json!({}) && other["body"] == "missing" };
  if !untouched { return Err(format!("the other part is changed too: {}", other)) }
  if response { Ok(got["response"][0].take()) } else { Ok(got["request"].take()) }
}

fn bodies(tree: &T, w: Where, given: bool, case: &mut Case) -> R {
  let text = tree.json().to_string();
  let mut found = Found::default();
  let example = tree.example("$", false, false, &mut found);
  let n = tree.matchers();
  case.nontrivial(n >= 2);
  case.label_if(found.rules.keys().any(|k| k.contains('*')), "a rule about all elements or members");
  case.label_if(!found.gens.is_empty(), "with generators");
  case.label_if(text.contains("ontains"), "array contains");
  // what begins in another way is not recognised for what it is
  let known = text.starts_with('[') || text[2..].starts_with(|c: char| c.is_ascii_alphanumeric());
  let got = put(w, if given || !known || matches!(w, Where::Message) { Some("application/json") } else { None }, &text)?;
  ensure_eq!(got["body"][0], json!({ "json": example }), "the example body of {}", text);
  for (k, want) in [("rules", json!(found.dump_rules("body"))), ("generators", json!(found.dump_gens("body")))] {
    let (a, b) = (got[k].as_object().unwrap(), want.as_object().unwrap());
    for p in b.keys().chain(a.keys()) { ensure_eq!(a.get(p).unwrap_or(&Value::Null), b.get(p).unwrap_or(&Value::Null), "{} at {}", k, p); }
  }
  Ok(())
}

pub fn p50(h: &mut H) {
  h.check("json", 40000, "at least two rules in the document", || (document(), prop::sample::select(WHERE.to_vec()), any::<bool>()),
    |(t, w, given), case| bodies(t, *w, *given, case));
  h.assume("member names are not made of digits alone; the value of a rule about all members is not itself a rule");
}

/// What a header, query parameter, path or status is given as
#[derive(Debug, Clone)]
pub enum Given { Plain(String), Value(Value), Match { spec: Spec, made: Made, value: Option<Value> } }
impl Given {
  fn text(&self) -> String {
    match self {
      Given::Plain(s) => s.clone(), Given::Value(v) => json!({ "value": v }).to_string(),
      Given::Match { spec, made, value } => {
        let mut o = Map::new();
        if let Some((attrs, _)) = made { o.extend(attrs.clone()); }
        spec.write(&mut o);
        if let Some(v) = value { o.insert("value".into(), v.clone()); }
        json!(o).to_string()
      }
    }
  }
  /// The example values, and whether they are given as a list
  fn values(&self) -> (Vec<String>, bool) {
    let text = |v: &Value| v.as_str().map(String::from).unwrap_or(v.to_string());
    match self {
      Given::Plain(s) => (vec![s.clone()], false),
      Given::Value(Value::Array(a)) | Given::Match { value: Some(Value::Array(a)), .. } => (a.iter().map(text).collect(), true),
      Given::Value(v) => (vec![text(v)], false),
      Given::Match { value, .. } => (vec![text(value.as_ref().unwrap_or(&Value::Null))], false),
    }
  }
  fn find(&self, path: &str, rules: &mut BTreeMap<String, Vec<Value>>, gens: &mut BTreeMap<String, Value>) {
    if let Given::Match { spec, made, .. } = self {
      if let Some(r) = spec.rules() { if !r.is_empty() { rules.entry(path.into()).or_default().extend(r) } }
      if let Spec::Expr(_, _, Some(g), _) = spec { gens.insert(path.into(), g.clone()); }
      if let Some((_, Some(g))) = made { gens.insert(path.into(), g.clone()); }
    }
  }
}
#[derive(Debug, Clone)]
pub enum FieldOp { Path(Given), Status(Given), Query(String, usize, Option<Given>), Header(bool, String, usize, Given), Meta(String, T) }

fn plain_text() -> BoxedStrategy<String> {
  prop_oneof![3 => g::ident(), 1 => any::<u16>().prop_map(|n| n.to_string()), 1 => g::text()].prop_filter("text", |s| !s.contains('\0') && !serde_json::from_str::<Value>(s).map(|v| v.is_object()).unwrap_or(false)).boxed()
}
fn given(scalar: BoxedStrategy<Value>, plain: BoxedStrategy<String>, lists: bool) -> BoxedStrategy<Given> {
  let value = move || if lists { prop_oneof![3 => scalar.clone(), 1 => prop::collection::vec(scalar.clone(), 0..4).prop_map(Value::Array)].boxed() } else { scalar.clone() };
  let v = value();
  prop_oneof![
    2 => plain.prop_map(Given::Plain), 1 => value().prop_map(Given::Value),
    6 => spec().prop_flat_map(move |s| { let g = generator(&s); (Just(s), g, v.clone()) }).prop_map(|(spec, made, v)| Given::Match { spec, made, value: Some(v) }),
  ].boxed()
}
fn scalar() -> BoxedStrategy<Value> { prop_oneof![3 => plain_text().prop_map(Value::String), 1 => (-99i64..999).prop_map(|n| json!(n)), 1 => any::<bool>().prop_map(Value::Bool)].boxed() }
fn field_op() -> BoxedStrategy<FieldOp> {
  let status = || (100u16..600);
  let name = || prop::sample::select(vec!["id", "X-Two", "a b", "q[]"]).prop_map(String::from);
  let at = |g: Given, i: usize| if g.values().1 { 0 } else { i };
  prop_oneof![
    1 => given(prop_oneof!["/[a-z0-9/]{0,6}".prop_map(Value::String), (0u8..9).prop_map(|n| json!(n))].boxed(), "/[a-z0-9/]{0,6}".boxed(), false).prop_map(FieldOp::Path),
    1 => given(prop_oneof![status().prop_map(|n| json!(n)), status().prop_map(|n| json!(n.to_string()))].boxed(), status().prop_map(|n| n.to_string()).boxed(), false).prop_map(FieldOp::Status),
    4 => (name(), 0usize..4, prop::option::weighted(0.9, given(scalar(), plain_text(), true))).prop_map(move |(n, i, g)| { let i = g.clone().map(|g| at(g, i)).unwrap_or(i); FieldOp::Query(n, i, g) }),
    4 => (any::<bool>(), name(), 0usize..4, given(scalar(), plain_text(), true)).prop_map(move |(r, n, i, g)| { let i = at(g.clone(), i); FieldOp::Header(r, n, i, g) }),
    3 => (prop::sample::select(vec!["id", "Two", "Content-Type", "x_y", "a b", "aws.region", "#1", "list[", "é"]), prop_oneof![1 => leaf().prop_map(T::Leaf), 3 => tree()]).prop_map(|(k, t)| FieldOp::Meta(k.into(), t)),
  ].boxed()
}
#[derive(Default)]
struct Fields { rules: BTreeMap<&'static str, BTreeMap<String, Vec<Value>>>, gens: BTreeMap<&'static str, BTreeMap<String, Value>> }
impl Fields {
  fn put(&mut self, cat: &'static str, path: &str, g: &Given) { g.find(path, self.rules.entry(cat).or_default(), self.gens.entry(cat).or_default()) }
  fn dump(&self) -> (Value, Value) {
    (json!(self.rules.iter().flat_map(|(c, m)| m.iter().map(move |(p, r)| (format!("{} {}", c, short(p)), json!(["And", r])))).collect::<Map<_, _>>()),
     json!(self.gens.iter().flat_map(|(c, m)| m.iter().map(move |(p, r)| (format!("{} {}", c, short(p)), r.clone()))).collect::<Map<_, _>>()))
  }
}
fn short(p: &str) -> &str { p.strip_prefix("$.").unwrap_or(p) }
pub fn compare(what: &str, got: &Value, want: &Value) -> R {
  let (none, a) = (Map::new(), got.as_object().cloned().unwrap_or_default());
  let b = want.as_object().unwrap_or(&none);
  for p in b.keys().chain(a.keys()) { ensure_eq!(a.get(p).unwrap_or(&Value::Null), b.get(p).unwrap_or(&Value::Null), "{} of {}", what, p); }
  Ok(())
}
/// Where the rules of a metadata value are
fn meta_path(k: &str) -> String { match DocPath::new(k) { Ok(p) => p.to_string(), Err(_) => field("$", k) } }

fn fields(ops: &[FieldOp], kind: u8, case: &mut Case) -> R {
  let (a, b, d) = (c("a"), c("b"), c("d"));
  let pact = if kind == 3 { as_pact(pactffi_new_message_pact(a.p(), b.p())) } else { pactffi_new_pact(a.p(), b.p()) };
  pactffi_with_specification(pact, PactSpecification::V4);
  let i = match kind {
    0 => pactffi_new_interaction(pact, d.p()), 1 => pactffi_new_message_interaction(pact, d.p()), 2 => pactffi_new_sync_message_interaction(pact, d.p()),
    _ => as_interaction(pactffi_new_message(unsafe { std::mem::transmute::<PactHandle, MessagePactHandle>(pact) }, d.p()))
  };
  let (mut path, mut status, mut query, mut headers, mut meta) = ("/".to_string(), 200u16, BTreeMap::<String, Vec<Option<String>>>::new(), [BTreeMap::<String, Vec<String>>::new(), BTreeMap::new()], BTreeMap::<String, Value>::new());
  let mut found = [Fields::default(), Fields::default()];
  let mut count = 0;
  let mut answers = vec![];
  for op in ops {
    count += !matches!(op, FieldOp::Path(Given::Plain(_)) | FieldOp::Status(Given::Plain(_)) | FieldOp::Query(_, _, None | Some(Given::Plain(_))) | FieldOp::Header(_, _, _, Given::Plain(_)) | FieldOp::Meta(_, T::Leaf(_))) as u32;
    let at = |name: &str, n: usize| { let f = field("$", name); if n > 0 { index(&f, n) } else { f } };
    // a rule that was for all values is for the first one as soon as there are rules for others
    let rekey = |f: &mut Fields, cat: &'static str, name: &str, n: usize, g: &Given| {
      let ok = matches!(g, Given::Match { spec, .. } if spec.rules().is_some());
      let rules = f.rules.entry(cat).or_default();
      if n > 0 && ok { if let Some(r) = rules.remove(&field("$", name)) { rules.insert(index(&field("$", name), 0), r); } }
    };
    match op {
      FieldOp::Path(g) => { answers.push(pactffi_with_request(i, c("GET").p(), c(&g.text()).p())); path = g.values().0.remove(0); found[0].put("path", "$", g); }
      FieldOp::Status(g) => { answers.push(pactffi_response_status_v2(i, c(&g.text()).p())); status = g.values().0[0].parse().unwrap(); found[1].put("status", "$", g); }
      FieldOp::Query(n, x, g) => {
        answers.push(pactffi_with_query_parameter_v2(i, c(n).p(), *x, cn(&g.as_ref().map(|g| g.text())).p()));
        let e = query.entry(n.clone()).or_default();
        match g.as_ref().map(|g| g.values()) {
          Some((vs, true)) => e.extend(vs.into_iter().map(Some)),
          one => { if e.len() <= *x { e.resize(x + 1, None) } e[*x] = one.map(|mut v| v.0.remove(0)); }
        }
        if let Some(g) = g { rekey(&mut found[0], "query", n, *x, g); found[0].put("query", &at(n, *x), g); }
      }
      FieldOp::Header(r, n, x, g) => {
        answers.push(pactffi_with_header_v2(i, if *r { InteractionPart::Response } else { InteractionPart::Request }, c(n).p(), *x, c(&g.text()).p()));
        let had = headers[*r as usize].contains_key(n);
        let e = headers[*r as usize].entry(n.clone()).or_default();
        match g.values() {
          (vs, true) => *e = vs,
          (vs, _) => {
            let split: Vec<String> = vs[0].split(',').map(|s| s.trim().to_string()).collect();
            if *x == 0 && (!had || e.is_empty() || split.len() > 1) { *e = split } else { if e.len() <= *x { e.resize(x + 1, String::new()) } e[*x] = vs[0].clone() }
          }
        }
        rekey(&mut found[*r as usize], "header", n, *x, g);
        found[*r as usize].put("header", &at(n, *x), g);
      }
      FieldOp::Meta(k, t) => {
        let text = t.json().to_string();
        if kind == 3 { pactffi_message_with_metadata_v2(as_message(i), c(k).p(), c(&text).p()); answers.push(true) } else { answers.push(pactffi_with_metadata(i, c(k).p(), c(&text).p(), InteractionPart::Request)); }
        let mut f = Found::default();
        let v = t.example(&meta_path(k), false, false, &mut f);
        meta.insert(k.clone(), v);
        for (p, r) in f.rules { found[0].rules.entry("metadata").or_default().entry(p).or_default().extend(r) }
        found[0].gens.entry("metadata").or_default().extend(f.gens);
      }
    }
  }
  case.nontrivial(count >= 2);
  case.label_if(found.iter().any(|f| !f.gens.is_empty()), "with generators");
  case.label_if(found.iter().any(|f| f.rules.values().any(|r| r.keys().any(|p| p.contains("[0]")))), "rules of single values");
  let got = pact_of(pact).map(|p| dump(&p));
  pactffi_free_pact_handle(pact);
  ensure!(answers.iter().all(|b| *b), "every call is accepted: {:?}", answers);
  let got = got.ok_or("no pact")?.pop().ok_or("no interaction")?;
  for (n, part) in [&got["request"], &got["response"][0]].into_iter().enumerate() {
    let (rules, gens) = found[n].dump();
    compare("rules", &part["rules"], &rules)?;
    compare("generators", &part["generators"], &gens)?;
    if kind == 0 { ensure_eq!(part["headers"], json!(headers[n]), "headers of part {}", n); } else if n == 0 { compare("metadata", &part["metadata"], &json!(meta))?; }
  }
  if kind == 0 {
    ensure_eq!((got["path"].as_str().unwrap(), got["status"].as_u64().unwrap()), (path.as_str(), status as u64), "path and status");
    ensure_eq!(got["query"], if query.is_empty() { Value::Null } else { json!(query) }, "query");
  }
  Ok(())
}

pub fn p51(h: &mut H) {
  h.check("fields", 30000, "at least two values given in the JSON form", || (0u8..4).prop_flat_map(|k| (Just(k), prop::collection::vec(field_op().prop_filter("of the kind", move |o| (k == 0) != matches!(o, FieldOp::Meta(..))), 1..8))),
    |(k, ops), case| fields(ops, *k, case));
  h.assume("lists of values are given for the first value only; one name is used in one case only");
}
