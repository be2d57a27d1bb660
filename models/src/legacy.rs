//! P02: request/response pacts in V1..V3 form and V3 message pacts; P05: version detection and loading.
use std::collections::BTreeMap;
use base64::Engine;
use base64::engine::general_purpose::STANDARD as BASE64;
use proptest::prelude::*;
use pact_models::{Consumer, PactSpecification, Provider};
use pact_models::bodies::OptionalBody;
use pact_models::content_types::ContentType;
use pact_models::http_parts::HttpPart;
use pact_models::matchingrules::{Category, RuleLogic};
use pact_models::message::Message;
use pact_models::message_pact::MessagePact;
use pact_models::pact::{load_pact_from_json, Pact};
use pact_models::request::Request;
use pact_models::response::Response;
use pact_models::sync_interaction::RequestResponseInteraction;
use pact_models::sync_pact::RequestResponsePact;
use pvfw::{ensure, ensure_eq, H};
use serde_json::{json, Map, Value};

use crate::g::*;
use crate::pacts::*;
use crate::paths::print;
use crate::rules::*;

pub type Ver = PactSpecification;
pub const OLD: &[Ver] = &[PactSpecification::V1, PactSpecification::V1_1, PactSpecification::V2];

/// A body with the content type it effectively has, its V3 JSON form when it is a message or not, and what it is.
#[derive(Debug, Clone)]
pub enum Body3 { Missing, Null, Empty, Present { content: Content, own: bool, kind: Kind, effective: Option<&'static str> } }

fn plain_json(v: &Value) -> bool {
  match v { Value::Null => false, Value::String(s) => !s.is_empty() && !matches!(serde_json::from_str::<Value>(s), Ok(Value::String(_)) | Ok(Value::Object(_))), _ => true }
}

fn body3(declared: Option<Ct>) -> B<Body3> {
  let present = match declared {
    Some((t, Kind::Json)) => (prop_oneof![2 => json_value(), 1 => json_scalar(), 1 => special().prop_map(Value::String)], any::<bool>()).prop_map(move |(v, own)| {
      let v = if plain_json(&v) { v } else { json!({"a": "b"}) };
      Body3::Present { content: Content::Json(v), own, kind: Kind::Json, effective: Some(t) }
    }).boxed(),
    Some((t, Kind::Text)) => (text(), any::<bool>()).prop_map(move |(s, own)| Body3::Present { content: Content::Text(if s.is_empty() { "y".into() } else { s }), own, kind: Kind::Text, effective: Some(t) }).boxed(),
    Some((t, Kind::Binary)) => (prop_oneof![
        2 => prop::collection::vec(any::<u8>(), 1..40).prop_map(Content::Bin), 1 => text().prop_map(|s| Content::Text(if s.is_empty() { "z".into() } else { s })),
        1 => prop_oneof!["([a-zA-Z0-9+/]{4}){1,4}", "[a-z]{1,9}"].prop_map(Content::Text)], any::<bool>())
      .prop_map(move |(content, own)| Body3::Present { content, own, kind: Kind::Binary, effective: Some(t) }).boxed(),
    None => prop_oneof![
      3 => prop::collection::vec((ident(), json_value()), 0..3).prop_map(|v| (Content::Json(Value::Object(v.into_iter().collect())), TYPES[0])),
      1 => prop::collection::vec(json_value(), 0..3).prop_map(|v| (Content::Json(Value::Array(v)), TYPES[0])),
      1 => any::<u32>().prop_map(|v| (Content::Json(json!(v)), TYPES[0])),
      1 => "<\\?xml version=\"1.0\"\\?><[a-z]{1,5}/>".prop_map(|s| (Content::Text(s), TYPES[6])),
      2 => "[g-mé][a-zé ]{0,40}".prop_map(|s| (Content::Text(s), TYPES[4])),
    ].prop_map(|(content, t)| Body3::Present { content, own: false, kind: t.1, effective: Some(t.0) }).boxed(),
  };
  prop_oneof![1 => Just(Body3::Missing), 1 => Just(Body3::Null), 1 => Just(Body3::Empty), 7 => present].boxed()
}

impl Body3 {
  pub fn build(&self) -> OptionalBody {
    match self {
      Body3::Missing => OptionalBody::Missing, Body3::Null => OptionalBody::Null, Body3::Empty => OptionalBody::Empty,
      Body3::Present { content, own, effective, .. } => OptionalBody::Present(content.bytes().into(), if *own { effective.map(|t| ContentType::parse(t).unwrap()) } else { None }, None),
    }
  }
  pub fn json(&self, message: bool) -> Option<Value> {
    match self {
      Body3::Missing => None, Body3::Null => Some(Value::Null), Body3::Empty => Some(json!("")),
      Body3::Present { content, kind, .. } => {
        let bytes = content.bytes();
        Some(match (kind, std::str::from_utf8(&bytes)) {
          (Kind::Json, _) => serde_json::from_slice(&bytes).unwrap(),
          (Kind::Text, Ok(s)) => json!(s),
          (Kind::Binary, Ok(s)) if !message && BASE64.decode(s).is_err() => json!(s),
          _ => json!(BASE64.encode(&bytes)),
        })
      }
    }
  }
  pub fn dump(&self) -> Value {
    match self {
      Body3::Present { content, effective, .. } => body_dump(&OptionalBody::Present(content.bytes().into(), effective.map(|t| ContentType::parse(t).unwrap()), None)),
      b => body_dump(&b.build()),
    }
  }
}

/// What a loaded body stands for: its bytes read with the content type the part gives it.
fn effective_dump(b: &OptionalBody, ct: Option<ContentType>) -> Value {
  match b { OptionalBody::Present(bytes, _, h) => body_dump(&OptionalBody::Present(bytes.clone(), ct, *h)), _ => body_dump(b) }
}

// ---------------------------------------------------------------- specs

#[derive(Debug, Clone)]
pub struct Req3 { pub method: String, pub path: String, pub query: Query, pub headers: Headers, pub body: Body3, pub rules: RulesSpec, pub gens: GensSpec }
#[derive(Debug, Clone)]
pub struct Res3 { pub status: u16, pub headers: Headers, pub body: Body3, pub rules: RulesSpec, pub gens: GensSpec }
#[derive(Debug, Clone)]
pub struct RR3 { pub description: String, pub states: Vec<StateSpec>, pub req: Req3, pub res: Res3 }
#[derive(Debug, Clone)]
pub struct Msg3 { pub description: String, pub states: Vec<StateSpec>, pub metadata: BTreeMap<String, Value>, pub body: Body3, pub rules: RulesSpec, pub gens: GensSpec }
pub type Meta3 = BTreeMap<String, BTreeMap<String, String>>;
#[derive(Debug, Clone)]
pub struct Pact3<T> { pub consumer: String, pub provider: String, pub items: Vec<T>, pub metadata: Meta3 }

const SINGLE: &[&str] = &["date", "accept-datetime", "if-modified-since", "if-unmodified-since", "expires", "retry-after", "last-modified", "set-cookie", "user-agent"];

/// Headers whose values survive being joined with commas.
pub fn headers3() -> B<(Headers, Option<Ct>)> {
  let name = prop_oneof![3 => header_name(), 1 => prop::sample::select(vec!["Date", "Set-Cookie", "Last-Modified", "X-Y"]).prop_map(|s| s.to_string())];
  let base = prop::collection::vec((name, prop::collection::vec(text(), 1..4)), 0..4).prop_map(|v| distinct(v.into_iter().filter(|(k, _)| k.to_lowercase() != "content-type").map(|(k, mut vals)| {
    let single = SINGLE.contains(&k.to_lowercase().as_str());
    if single { vals.truncate(1); }
    let vals = vals.into_iter().map(|v| if single { v.trim().to_string() } else { v.replace(',', ";").trim().to_string() }).collect();
    (k, vals)
  }).collect()));
  let key = prop::sample::select(vec!["Content-Type", "content-type", "CONTENT-TYPE"]);
  prop_oneof![2 => Just((None, None)), 2 => base.clone().prop_map(|v| (Some(v), None)),
    4 => (base, key, ct()).prop_map(|(mut v, k, t)| { v.push((k.to_string(), vec![t.0.to_string()])); (Some(v), Some(t)) })].boxed()
}

fn query3(old: bool) -> B<Query> {
  if old {
    prop::option::of(prop::collection::vec((prop_oneof![ident(), text().prop_map(|s| if s.is_empty() { "n".into() } else { s })], prop::collection::vec(prop::option::weighted(0.8, crate::text::encodable()), 1..4)), 1..4)
      .prop_map(|v| v.into_iter().collect::<BTreeMap<_, _>>().into_iter().collect())).boxed()
  } else { query(prop_oneof![3 => ident(), 1 => text()].boxed()) }
}
fn rules3(old: bool) -> B<RulesSpec> {
  if !old { return rules_spec(HTTP_CATS, rule()); }
  let names = || "[a-zA-Z][a-zA-Z0-9-]{0,6}".boxed();
  let one = |p: B<Tokens>| prop::collection::vec((p, rule()), 0..3).prop_map(|v| { let mut seen = std::collections::BTreeSet::new();
    CatSpec(v.into_iter().filter(|(t, _)| seen.insert(print(t))).map(|(t, r)| (t, ListSpec { logic: RuleLogic::And, rules: vec![r] })).collect()) });
  (one(Just(vec![]).boxed()), one(field_path(names())), one(field_path(names())), one(crate::paths::tokens(4)))
    .prop_map(|(p, h, q, b)| RulesSpec([(Category::PATH, p), (Category::HEADER, h), (Category::QUERY, q), (Category::BODY, b)].into_iter().filter(|(_, c)| !c.0.is_empty()).collect())).boxed()
}
fn rules3_json(r: &RulesSpec, old: bool) -> Value {
  if !old { return r.json(); }
  let mut want = Map::new();
  for (k, c) in &r.0 {
    for (t, l) in &c.0 {
      let key = match k { Category::PATH => "$.path".to_string(), Category::HEADER => format!("$.headers{}", &print(t)[1..]), Category::QUERY => format!("$.query{}", &print(t)[1..]), _ => format!("$.body{}", &print(t)[1..]) };
      want.insert(key, rule_json(&l.rules[0]));
    }
  }
  Value::Object(want)
}
fn gens3(old: bool, cats: &'static [pact_models::generators::GeneratorCategory]) -> B<GensSpec> { if old { Just(GensSpec::default()).boxed() } else { gens_spec(cats) } }

pub fn rr3(old: bool) -> B<RR3> {
  let states = if old { prop::option::of(prop_oneof![ident(), text().prop_map(|s| if s.is_empty() { "s".into() } else { s })].prop_map(|name| StateSpec { name, params: BTreeMap::new() })).prop_map(|s| s.into_iter().collect()).boxed() }
    else { prop::collection::vec(state(), 0..3).boxed() };
  let req = headers3().prop_flat_map(move |(h, t)| (method(), path(), query3(old), Just(h), body3(t), rules3(old), gens3(old, HTTP_GCATS)))
    .prop_map(|(method, path, query, headers, body, rules, gens)| Req3 { method, path, query, headers, body, rules, gens });
  let res = headers3().prop_flat_map(move |(h, t)| (any::<u16>(), Just(h), body3(t), rules3(old), gens3(old, HTTP_GCATS)))
    .prop_map(|(status, headers, body, rules, gens)| Res3 { status, headers, body, rules, gens });
  (prop_oneof![3 => ident(), 1 => text()], states, req, res).prop_map(|(description, states, req, res)| RR3 { description, states, req, res }).boxed()
}

pub fn msg3() -> B<Msg3> {
  let parts = (json_map(4), prop::option::of((ct(), prop::sample::select(vec!["contentType", "content-type", "ContentType", "Content-Type"])))).prop_flat_map(|(mut md, t)| {
    md.retain(|k, _| !["contenttype", "content-type"].contains(&k.to_lowercase().as_str()));
    if let Some((t, k)) = t { md.insert(k.into(), json!(t.0)); }
    (Just(md), body3(t.map(|t| t.0)), rules_spec(MSG_CATS, rule()), gens_spec(MSG_GCATS))
  });
  (prop_oneof![3 => ident(), 1 => text()], prop::collection::vec(state(), 0..3), parts)
    .prop_map(|(description, states, (metadata, body, rules, gens))| Msg3 { description, states, metadata, body, rules, gens }).boxed()
}

pub fn pact3<T: Clone + std::fmt::Debug + 'static>(item: B<T>) -> B<Pact3<T>> {
  let md = prop::collection::btree_map(prop_oneof![3 => ident(), 1 => Just("pactRust".to_string()), 1 => Just("pactSpecification".to_string()), 1 => field()], prop::collection::btree_map(prop_oneof![3 => ident(), 1 => Just("models".to_string()), 1 => Just("version".to_string())], text(), 0..3), 0..4)
    .prop_map(|mut m: Meta3| { m.retain(|k, _| !["pact-specification", "pact-rust"].contains(&k.as_str())); m });
  (prop_oneof![ident(), text()], prop_oneof![ident(), text()], prop::collection::vec(item, 0..4), md)
    .prop_map(|(consumer, provider, items, metadata)| Pact3 { consumer, provider, items, metadata }).boxed()
}

fn some(m: &mut Map<String, Value>, k: &str, v: Value) { if !v.is_null() { m.insert(k.to_string(), v); } }
fn joined(h: &Headers) -> Value { h.as_ref().map(|h| Value::Object(h.iter().map(|(k, v)| (k.clone(), json!(v.join(", ")))).collect())).unwrap_or(Value::Null) }

impl Req3 {
  pub fn build(&self) -> Request {
    Request { method: self.method.clone(), path: self.path.clone(), query: self.query.as_ref().map(|q| map_of(q)), headers: self.headers.as_ref().map(|h| map_of(h)), body: self.body.build(),
      matching_rules: self.rules.build(), generators: self.gens.build() }
  }
  fn json(&self, old: bool) -> Value {
    let mut m = Map::new();
    m.insert("method".into(), json!(self.method.to_uppercase()));
    m.insert("path".into(), json!(self.path));
    if old { if let Some(q) = &self.query { m.insert("query".into(), json!(query_text(q))); } } else { some(&mut m, "query", query_json(&self.query)); }
    some(&mut m, "headers", joined(&self.headers));
    if let Some(b) = self.body.json(false) { m.insert("body".into(), b); }
    if !self.rules.is_empty() { m.insert("matchingRules".into(), rules3_json(&self.rules, old)); }
    if !self.gens.is_empty() { m.insert("generators".into(), self.gens.json()); }
    Value::Object(m)
  }
  pub fn dump(&self) -> Value {
    json!({"method": self.method.to_uppercase(), "path": self.path, "query": query_json(&self.query), "headers": headers_json(&self.headers), "body": self.body.dump(), "rules": self.rules.dump(), "gens": self.gens.dump()})
  }
}
impl Res3 {
  pub fn build(&self) -> Response {
    Response { status: self.status, headers: self.headers.as_ref().map(|h| map_of(h)), body: self.body.build(), matching_rules: self.rules.build(), generators: self.gens.build() }
  }
  fn json(&self, old: bool) -> Value {
    let mut m = Map::new();
    m.insert("status".into(), json!(self.status));
    some(&mut m, "headers", joined(&self.headers));
    if let Some(b) = self.body.json(false) { m.insert("body".into(), b); }
    if !self.rules.is_empty() { m.insert("matchingRules".into(), rules3_json(&self.rules, old)); }
    if !self.gens.is_empty() { m.insert("generators".into(), self.gens.json()); }
    Value::Object(m)
  }
  pub fn dump(&self) -> Value {
    json!({"status": self.status, "headers": headers_json(&self.headers), "body": self.body.dump(), "rules": self.rules.dump(), "gens": self.gens.dump()})
  }
}

/// Query string as the library's documentation describes it: parameters by name, form-encoded.
pub fn query_text(q: &[(String, Vec<Option<String>>)]) -> String {
  let mut q: Vec<_> = q.to_vec();
  q.sort();
  let enc = |s: &str| s.chars().map(|c| match c { ' ' => "+".to_string(), '-' => "-".to_string(), c if c.is_ascii_alphanumeric() => c.to_string(), c => c.to_string().bytes().map(|b| format!("%{:02x}", b)).collect() }).collect::<String>();
  let name = |s: &str| s.chars().map(|c| match c { ' ' => "+".to_string(), '%' | '&' | '+' | '=' => format!("%{:02x}", c as u32), c => c.to_string() }).collect::<String>();
  q.iter().flat_map(|(k, v)| v.iter().map(|v| match v { None => name(k), Some(v) => format!("{}={}", name(k), enc(v)) }).collect::<Vec<_>>()).collect::<Vec<_>>().join("&")
}

fn states_dump(s: &[StateSpec]) -> Value { Value::Array(s.iter().map(|s| json!({"name": s.name, "params": s.params})).collect()) }

impl RR3 {
  pub fn build(&self) -> RequestResponseInteraction {
    RequestResponseInteraction { id: None, description: self.description.clone(), provider_states: self.states.iter().map(|s| s.build()).collect(), request: self.req.build(), response: self.res.build() }
  }
  pub fn json(&self, ver: Ver) -> Value {
    let old = ver != PactSpecification::V3;
    let mut m = Map::new();
    m.insert("description".into(), json!(self.description));
    m.insert("request".into(), self.req.json(old));
    m.insert("response".into(), self.res.json(old));
    if !self.states.is_empty() {
      if old { m.insert("providerState".into(), json!(self.states[0].name)); } else { m.insert("providerStates".into(), Value::Array(self.states.iter().map(|s| s.json()).collect())); }
    }
    Value::Object(m)
  }
  pub fn dump(&self) -> Value { json!({"description": self.description, "states": states_dump(&self.states), "request": self.req.dump(), "response": self.res.dump()}) }
}

fn sorted<V: Clone + serde::Serialize>(h: &Option<std::collections::HashMap<String, V>>) -> Value { h.as_ref().map(|h| json!(h.iter().collect::<BTreeMap<_, _>>())).unwrap_or(Value::Null) }
pub fn rr_dump(i: &RequestResponseInteraction) -> Value {
  let (q, s) = (&i.request, &i.response);
  json!({"description": i.description, "states": state_dump(&i.provider_states),
    "request": {"method": q.method, "path": q.path, "query": sorted(&q.query), "headers": sorted(&q.headers), "body": effective_dump(&q.body, q.content_type()), "rules": rules_dump(&q.matching_rules), "gens": gens_dump(&q.generators)},
    "response": {"status": s.status, "headers": sorted(&s.headers), "body": effective_dump(&s.body, s.content_type()), "rules": rules_dump(&s.matching_rules), "gens": gens_dump(&s.generators)}})
}

impl Msg3 {
  pub fn build(&self) -> Message {
    Message { id: None, description: self.description.clone(), provider_states: self.states.iter().map(|s| s.build()).collect(), contents: self.body.build(), metadata: self.metadata.clone().into_iter().collect(),
      matching_rules: self.rules.build(), generators: self.gens.build() }
  }
  pub fn json(&self) -> Value {
    let mut m = Map::new();
    m.insert("description".into(), json!(self.description));
    m.insert("metadata".into(), json!(self.metadata));
    if let Some(b) = self.body.json(true) { m.insert("contents".into(), b); }
    if !self.rules.is_empty() { m.insert("matchingRules".into(), self.rules.json()); }
    if !self.gens.is_empty() { m.insert("generators".into(), self.gens.json()); }
    if !self.states.is_empty() { m.insert("providerStates".into(), Value::Array(self.states.iter().map(|s| s.json()).collect())); }
    Value::Object(m)
  }
  pub fn dump(&self) -> Value { json!({"description": self.description, "states": states_dump(&self.states), "metadata": self.metadata, "body": self.body.dump(), "rules": self.rules.dump(), "gens": self.gens.dump()}) }
}
pub fn msg3_dump(m: &Message) -> Value {
  json!({"description": m.description, "states": state_dump(&m.provider_states), "metadata": m.metadata.iter().collect::<BTreeMap<_, _>>(), "body": effective_dump(&m.contents, m.message_content_type()),
    "rules": rules_dump(&m.matching_rules), "gens": gens_dump(&m.generators)})
}

pub fn ver_str(v: Ver) -> &'static str { match v { PactSpecification::V1 => "1.0.0", PactSpecification::V1_1 => "1.1.0", PactSpecification::V2 => "2.0.0", PactSpecification::V3 => "3.0.0", PactSpecification::V4 => "4.0", _ => "unknown" } }
fn meta3_json(m: &Meta3, v: Ver) -> Value {
  let mut m = m.clone();
  m.insert("pactSpecification".into(), [("version".to_string(), ver_str(v).to_string())].into());
  m.entry("pactRust".into()).or_default().insert("models".into(), version());
  json!(m)
}
impl Pact3<RR3> {
  pub fn build(&self, v: Ver) -> RequestResponsePact {
    RequestResponsePact { consumer: Consumer { name: self.consumer.clone() }, provider: Provider { name: self.provider.clone() }, interactions: self.items.iter().map(|i| i.build()).collect(), metadata: self.metadata.clone(), specification_version: v }
  }
  pub fn json(&self, v: Ver) -> Value {
    json!({"consumer": {"name": self.consumer}, "provider": {"name": self.provider}, "interactions": self.items.iter().map(|i| i.json(v)).collect::<Vec<_>>(), "metadata": meta3_json(&self.metadata, v)})
  }
  pub fn dump(&self, v: Ver) -> Value {
    json!({"consumer": self.consumer, "provider": self.provider, "items": self.items.iter().map(|i| i.dump()).collect::<Vec<_>>(), "metadata": meta3_json(&self.metadata, v), "version": ver_str(v)})
  }
}
impl Pact3<Msg3> {
  pub fn build(&self) -> MessagePact {
    MessagePact { consumer: Consumer { name: self.consumer.clone() }, provider: Provider { name: self.provider.clone() }, messages: self.items.iter().map(|i| i.build()).collect(), metadata: self.metadata.clone(), specification_version: PactSpecification::V3 }
  }
  pub fn json(&self) -> Value {
    json!({"consumer": {"name": self.consumer}, "provider": {"name": self.provider}, "messages": self.items.iter().map(|i| i.json()).collect::<Vec<_>>(), "metadata": meta3_json(&self.metadata, PactSpecification::V3)})
  }
  pub fn dump(&self) -> Value {
    json!({"consumer": self.consumer, "provider": self.provider, "items": self.items.iter().map(|i| i.dump()).collect::<Vec<_>>(), "metadata": meta3_json(&self.metadata, PactSpecification::V3), "version": "3.0.0"})
  }
}
pub fn rrp_dump(p: &RequestResponsePact) -> Value {
  json!({"consumer": p.consumer.name, "provider": p.provider.name, "items": p.interactions.iter().map(rr_dump).collect::<Vec<_>>(), "metadata": p.metadata, "version": ver_str(p.specification_version)})
}
pub fn mp_dump(p: &MessagePact) -> Value {
  json!({"consumer": p.consumer.name, "provider": p.provider.name, "items": p.messages.iter().map(msg3_dump).collect::<Vec<_>>(), "metadata": p.metadata, "version": ver_str(p.specification_version)})
}

pub fn no_null_gens(mut v: Value) -> Value {
  if let Some(a) = v.get_mut("interactions").and_then(|i| i.as_array_mut()) { for i in a { for p in ["request", "response"] {
    if let Some(o) = i.get_mut(p).and_then(|r| r.as_object_mut()) { if o.get("generators").map(|g| g.is_null()).unwrap_or(false) { o.remove("generators"); } } } } }
  v
}

fn check_rr(s: &Pact3<RR3>, ver: Ver) -> Result<(), String> {
  let p = s.build(ver);
  let got = err(p.to_json(ver), "to_json")?;
  same!(got, s.json(ver), "{:?} JSON form", ver);
  let parsed: Value = serde_json::from_str(&serde_json::to_string_pretty(&got).unwrap()).map_err(|e| e.to_string())?;
  let back = err(load_pact_from_json("x", &parsed), "loading what was written")?;
  ensure!(!back.is_v4() && back.specification_version() == ver, "loaded as {:?}", back.specification_version());
  let back = err(back.as_request_response_pact(), "as a request/response pact")?;
  same!(rrp_dump(&back), s.dump(ver), "loaded again from the {:?} form", ver);
  same!(rrp_dump(&err(RequestResponsePact::from_json("x", &parsed), "from_json")?), s.dump(ver), "loaded again with from_json");
  same!(err(back.to_json(ver), "to_json")?, got, "written again");
  Ok(())
}

pub fn p02(h: &mut H) {
  h.assume("V3 and older forms keep no content type of a body apart from its header or metadata, header values are joined with commas, V1/V2 keep one state name, one rule per path and no generators; the generated pacts stay within that.");
  h.assume("Bodies whose older form is ambiguous (untyped text that looks like JSON, untyped or text-typed bytes that are not UTF-8, JSON strings holding JSON, content that is not JSON under a JSON type) are covered by pinned cases; V1/V2 query values are ASCII.");
  let bodies = |s: &Pact3<RR3>| s.items.iter().any(|i| matches!(i.req.body, Body3::Present { .. }) || matches!(i.res.body, Body3::Present { .. }));
  h.check("v3", 5_000, "random V3 request/response pacts through JSON text; non-trivial: has a body", || pact3(rr3(false)), |s, c| { c.nontrivial(bodies(s)); check_rr(s, PactSpecification::V3) });
  h.check("v1_v2", 5_000, "random V1, V1.1 and V2 pacts through JSON text; non-trivial: has a body", || (pact3(rr3(true)), prop::sample::select(OLD)), |(s, v), c| {
    c.nontrivial(bodies(s));
    c.label(ver_str(*v));
    check_rr(s, *v)
  });
  h.check("messages", 6_000, "random V3 message pacts through JSON text; non-trivial: has contents", || pact3(msg3()), |s, c| {
    c.nontrivial(s.items.iter().any(|i| matches!(i.body, Body3::Present { .. })));
    let p = s.build();
    let got = err(p.to_json(PactSpecification::V3), "to_json")?;
    same!(got, s.json(), "V3 JSON form");
    for v in OLD { ensure!(p.to_json(*v).is_err(), "messages written as {:?}", v); }
    let parsed: Value = serde_json::from_str(&serde_json::to_string_pretty(&got).unwrap()).map_err(|e| e.to_string())?;
    let back = err(load_pact_from_json("x", &parsed), "loading what was written")?;
    ensure_eq!(back.specification_version(), PactSpecification::V3, "version");
    let back = err(back.as_message_pact(), "as a message pact")?;
    same!(mp_dump(&back), s.dump(), "loaded again");
    same!(mp_dump(&err(MessagePact::from_json("x", &parsed), "from_json")?), s.dump(), "loaded again with from_json");
    same!(err(back.to_json(PactSpecification::V3), "to_json")?, got, "written again");
    Ok(())
  });
  let bytes = |b: &[u8], t: Option<&str>| OptionalBody::Present(b.to_vec().into(), t.map(ContentType::from), None);
  for (key, body) in [
    ("v3-untyped-binary", bytes(&[0xff, 0xfe, 1], None)), ("v3-text-typed-binary", bytes(&[0xff, 0xfe, 1], Some("text/plain"))),
    ("v3-untyped-json-like-text", bytes(b"123abc", None)), ("v3-untyped-json-string", bytes(b"\"abc\"", None)),
    ("v3-json-typed-not-json", bytes(b"abc", Some("application/json"))), ("v3-json-string-holding-json", bytes(b"\"{\\\"a\\\":1}\"", Some("application/json"))),
  ] {
    h.pinned(key, &format!("V3 request with body {:?}", body), || {
      let headers = body.content_type().map(|t| [("Content-Type".to_string(), vec![t.to_string()])].into_iter().collect());
      let r = Request { body: body.clone(), headers, ..Request::default() };
      let p = RequestResponsePact { interactions: vec![RequestResponseInteraction { request: r.clone(), ..Default::default() }], ..Default::default() };
      let back = err(load_pact_from_json("x", &err(p.to_json(PactSpecification::V3), "to_json")?), "loading what was written")?;
      let back = err(back.as_request_response_pact(), "as rr")?.interactions[0].request.body.clone();
      ensure_eq!(back.value().map(|b| hex(&b)), body.value().map(|b| hex(&b)), "body bytes");
      Ok(())
    });
  }
  for (key, v) in [("v2-query-latin1", "\u{e9}"), ("v2-query-non-ascii", "\u{1f600}")] {
    h.pinned(key, &format!("V2 request with query a={}", v), || {
      let q: std::collections::HashMap<String, Vec<Option<String>>> = [("a".to_string(), vec![Some(v.to_string())])].into_iter().collect();
      let r = Request { query: Some(q.clone()), ..Request::default() };
      let p = RequestResponsePact { interactions: vec![RequestResponseInteraction { request: r, ..Default::default() }], specification_version: PactSpecification::V2, ..Default::default() };
      let back = err(load_pact_from_json("x", &err(p.to_json(PactSpecification::V2), "to_json")?), "loading what was written")?;
      ensure_eq!(err(back.as_request_response_pact(), "as rr")?.interactions[0].request.query, Some(q), "query");
      Ok(())
    });
  }
}
