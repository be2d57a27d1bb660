//! Interaction and pact specs with independently written JSON forms and canonical dumps; P01..P04.
use std::collections::{BTreeMap, HashMap};
use std::panic::RefUnwindSafe;
use proptest::prelude::*;
use base64::Engine;
use base64::engine::general_purpose::STANDARD as BASE64;
use pact_models::{Consumer, PactSpecification, Provider, PACT_RUST_VERSION};
use pact_models::bodies::OptionalBody;
use pact_models::content_types::{ContentType, ContentTypeHint};
use pact_models::pact::{load_pact_from_json, Pact};
use pact_models::plugins::PluginData;
use pact_models::provider_states::ProviderState;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::v4::interaction::{interaction_from_json, InteractionMarkup, V4Interaction};
use pact_models::v4::message_parts::MessageContents;
use pact_models::v4::pact::V4Pact;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use pvfw::{ensure, ensure_eq, H};
use serde_json::{json, Map, Value};

use crate::g::*;
use crate::rules::*;

pub type V4Box = Box<dyn V4Interaction + Send + Sync + RefUnwindSafe>;
pub fn err<T>(r: anyhow::Result<T>, what: &str) -> Result<T, String> { r.map_err(|e| format!("{}: {:?}", what, e)) }

// ---------------------------------------------------------------- content types and bodies

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Kind { Json, Text, Binary }

/// Content types in the form the library prints them, with the class the specification gives them.
pub const TYPES: &[(&str, Kind)] = &[
  ("application/json", Kind::Json), ("application/json;charset=utf-8", Kind::Json), ("application/vnd.x+json", Kind::Json), ("application/hal+json;v=1", Kind::Json),
  ("text/plain", Kind::Text), ("text/html;charset=utf-8", Kind::Text), ("application/xml", Kind::Text), ("text/xml", Kind::Text), ("application/soap+xml", Kind::Text),
  ("text/csv", Kind::Text), ("application/x-www-form-urlencoded", Kind::Text),
  ("application/octet-stream", Kind::Binary), ("image/png", Kind::Binary), ("application/pdf", Kind::Binary), ("audio/mpeg", Kind::Binary), ("application/zip", Kind::Binary), ("video/mp4", Kind::Binary),
];
pub type Ct = (&'static str, Kind);
pub fn ct() -> B<Ct> { prop_oneof![2 => Just(TYPES[0]), 1 => prop::sample::select(TYPES)].boxed() }

#[derive(Debug, Clone)]
pub enum Content { Json(Value), Text(String), Bin(Vec<u8>) }
impl Content {
  pub fn bytes(&self) -> Vec<u8> { match self { Content::Json(v) => v.to_string().into_bytes(), Content::Text(s) => s.clone().into_bytes(), Content::Bin(b) => b.clone() } }
}

#[derive(Debug, Clone)]
pub enum BodySpec { Missing, Null, Empty, Present(Content, Option<Ct>, Option<ContentTypeHint>) }

/// Content whose type the library detects, as (content, detected type).
fn detectable() -> B<(Content, Option<Ct>)> {
  prop_oneof![
    3 => prop::collection::vec((ident(), json_value()), 0..3).prop_map(|v| (Content::Json(Value::Object(v.into_iter().collect())), Some(TYPES[0]))),
    1 => prop::collection::vec(json_value(), 0..3).prop_map(|v| (Content::Json(Value::Array(v)), Some(TYPES[0]))),
    1 => "<\\?xml version=\"1.0\"\\?><[a-z]{1,5}/>".prop_map(|s| (Content::Text(s), Some(TYPES[6]))),
    2 => "[g-m][a-z ]{0,40}".prop_map(|s| (Content::Text(s), Some(TYPES[4]))),
    1 => prop::collection::vec(any::<u8>(), 0..40).prop_map(|mut b| { b.insert(0, 0xff); (Content::Bin(b), None) }),
  ].boxed()
}

fn hint() -> B<Option<ContentTypeHint>> {
  prop_oneof![4 => Just(None), 1 => Just(Some(ContentTypeHint::BINARY)), 1 => Just(Some(ContentTypeHint::TEXT)), 1 => Just(Some(ContentTypeHint::DEFAULT))].boxed()
}

fn any_content() -> B<Content> {
  prop_oneof![
    2 => json_value().prop_map(Content::Json),
    1 => json_scalar().prop_map(Content::Json),
    1 => special().prop_map(|s| Content::Json(Value::String(s))),
    1 => special().prop_map(Content::Text),
    2 => text().prop_map(|s| Content::Text(if s.is_empty() { "x".into() } else { s })),
    2 => prop::collection::vec(any::<u8>(), 1..60).prop_map(Content::Bin),
  ].boxed()
}

/// JSON text for null and "" is read back as a null and an empty body; those two are left to a pinned case.
fn ambiguous(c: &Content) -> bool { matches!(serde_json::from_slice::<Value>(&c.bytes()), Ok(Value::Null)) || serde_json::from_slice::<Value>(&c.bytes()).map(|v| v == json!("")).unwrap_or(false) }

/// A body for a part whose header or metadata declares `declared`; second: the type it must come back with.
pub fn body_spec(declared: Option<Ct>) -> B<(BodySpec, Option<String>)> {
  let present = (any_content(), ct(), hint()).prop_map(|(c, t, h)| {
    let c = if ambiguous(&c) { Content::Json(json!({"a": 1})) } else { c };
    (BodySpec::Present(c, Some(t), h), Some(t.0.to_string()))
  });
  let untyped = match declared {
    Some(d) => (any_content(), hint()).prop_map(move |(c, h)| {
      let c = if ambiguous(&c) { Content::Json(json!([1])) } else { c };
      (BodySpec::Present(c, None, h), Some(d.0.to_string()))
    }).boxed(),
    None => (detectable(), hint()).prop_map(|((c, t), h)| (BodySpec::Present(c, None, h), Some(t.map(|t| t.0).unwrap_or("*/*").to_string()))).boxed(),
  };
  prop_oneof![2 => Just((BodySpec::Missing, None)), 1 => Just((BodySpec::Null, None)), 1 => Just((BodySpec::Empty, None)), 6 => present, 4 => untyped].boxed()
}

fn kind_of(t: &str) -> Kind { TYPES.iter().find(|x| x.0 == t).map(|x| x.1).unwrap_or(Kind::Binary) }

impl BodySpec {
  pub fn build(&self) -> OptionalBody {
    match self {
      BodySpec::Missing => OptionalBody::Missing, BodySpec::Null => OptionalBody::Null, BodySpec::Empty => OptionalBody::Empty,
      BodySpec::Present(c, t, h) => OptionalBody::Present(c.bytes().into(), t.map(|t| ContentType::parse(t.0).unwrap()), *h),
    }
  }
  /// The V4 form of the body when `effective` is its content type.
  pub fn v4_json(&self, effective: &Option<String>) -> Option<Value> {
    match self {
      BodySpec::Missing => None,
      BodySpec::Null => None,
      BodySpec::Empty => Some(json!({"content": ""})),
      BodySpec::Present(c, _, h) => {
        let t = effective.clone().unwrap();
        let bytes = c.bytes();
        let b64 = || (json!(BASE64.encode(&bytes)), json!("base64"));
        let (content, encoded) = match kind_of(&t) {
          Kind::Json => match serde_json::from_slice::<Value>(&bytes) { Ok(v) => (v, json!(false)), Err(_) => b64() },
          Kind::Text if *h != Some(ContentTypeHint::BINARY) => match std::str::from_utf8(&bytes) { Ok(s) => (json!(s), json!(false)), Err(_) => b64() },
          _ => b64(),
        };
        let mut v = json!({"content": content, "contentType": t, "encoded": encoded});
        if let Some(h) = h { v["contentTypeHint"] = json!(match h { ContentTypeHint::BINARY => "BINARY", ContentTypeHint::TEXT => "TEXT", ContentTypeHint::DEFAULT => "DEFAULT" }); }
        Some(v)
      }
    }
  }
  pub fn dump(&self, effective: &Option<String>) -> Value {
    match self {
      BodySpec::Present(c, _, h) => body_dump(&OptionalBody::Present(c.bytes().into(), effective.as_ref().map(|t| ContentType::parse(t.as_str()).unwrap()), *h)),
      BodySpec::Null => json!("missing"), // as the existing tests have it
      b => body_dump(&b.build()),
    }
  }
  pub fn is_present(&self) -> bool { matches!(self, BodySpec::Present(..)) }
}

pub fn hex(b: &[u8]) -> String { b.iter().map(|b| format!("{:02x}", b)).collect() }

/// Canonical form: JSON bodies by value, everything else by bytes.
pub fn body_dump(b: &OptionalBody) -> Value {
  match b {
    OptionalBody::Missing => json!("missing"), OptionalBody::Null => json!("null"), OptionalBody::Empty => json!("empty"),
    OptionalBody::Present(bytes, ct, hint) => {
      let js = ct.as_ref().map(|c| c.main_type == "application" && (c.sub_type == "json" || c.suffix.as_deref() == Some("json"))).unwrap_or(false);
      let content = match serde_json::from_slice::<Value>(bytes) { Ok(v) if js => json!({"json": v}), _ => match std::str::from_utf8(bytes) { Ok(s) => json!({"text": s}), Err(_) => json!({"hex": hex(bytes)}) } };
      json!({"content": content, "type": ct.as_ref().map(|c| c.to_string()), "hint": hint.map(|h| format!("{:?}", h))})
    }
  }
}

// ---------------------------------------------------------------- HTTP parts

pub type Headers = Option<Vec<(String, Vec<String>)>>;
pub type Query = Option<Vec<(String, Vec<Option<String>>)>>;

pub fn distinct<T>(v: Vec<(String, T)>) -> Vec<(String, T)> { let mut seen = std::collections::BTreeSet::new(); v.into_iter().filter(|(k, _)| seen.insert(k.to_lowercase())).collect() }

pub fn header_name() -> B<String> {
  prop_oneof![3 => "[A-Z][a-z]{0,5}(-[A-Z][a-z]{1,4})?", 1 => "[a-z][a-z0-9!#$%&'*+.^_`|~-]{0,8}", 1 => prop::sample::select(vec!["Accept", "date", "Set-Cookie", "X-A", "x-a", "User-Agent", "Vary"]).prop_map(|s| s.to_string())].boxed()
}

/// Headers without Content-Type, then perhaps with it.
pub fn headers(value: B<String>) -> B<(Headers, Option<Ct>)> {
  let base = prop::collection::vec((header_name(), prop::collection::vec(value, 0..4)), 0..4)
    .prop_map(|v| distinct(v.into_iter().filter(|(k, _)| k.to_lowercase() != "content-type").collect()));
  let key = prop::sample::select(vec!["Content-Type", "content-type", "CONTENT-TYPE"]);
  prop_oneof![
    2 => Just((None, None)),
    2 => base.clone().prop_map(|v| (Some(v), None)),
    4 => (base, key, ct()).prop_map(|(mut v, k, t)| { v.push((k.to_string(), vec![t.0.to_string()])); (Some(v), Some(t)) }),
  ].boxed()
}

pub fn query(name: B<String>) -> B<Query> {
  prop::option::of(prop::collection::vec((name, prop::collection::vec(prop::option::weighted(0.8, text()), 0..4)), 0..4)
    .prop_map(|v| v.into_iter().collect::<BTreeMap<_, _>>().into_iter().collect())).boxed()
}

pub fn map_of<T: Clone>(v: &[(String, T)]) -> HashMap<String, T> { v.iter().cloned().collect() }
pub fn headers_json(h: &Headers) -> Value { h.as_ref().map(|h| Value::Object(h.iter().map(|(k, v)| (k.clone(), json!(v))).collect())).unwrap_or(Value::Null) }
pub fn query_json(q: &Query) -> Value { q.as_ref().map(|q| Value::Object(q.iter().map(|(k, v)| (k.clone(), json!(v))).collect())).unwrap_or(Value::Null) }

#[derive(Debug, Clone)]
pub struct ReqSpec { pub method: String, pub path: String, pub query: Query, pub headers: Headers, pub body: BodySpec, pub effective: Option<String>, pub rules: RulesSpec, pub gens: GensSpec }
#[derive(Debug, Clone)]
pub struct ResSpec { pub status: u16, pub headers: Headers, pub body: BodySpec, pub effective: Option<String>, pub rules: RulesSpec, pub gens: GensSpec }

pub fn method() -> B<String> { prop_oneof![4 => prop::sample::select(vec!["GET", "POST", "put", "Delete", "PATCH"]).prop_map(|s| s.to_string()), 1 => "[A-Za-z]{1,8}"].boxed() }
pub fn path() -> B<String> { prop_oneof![3 => "(/[a-z0-9]{0,4}){1,3}", 1 => text()].boxed() }

pub fn req() -> B<ReqSpec> {
  headers(text()).prop_flat_map(|(hd, ct)| (method(), path(), query(prop_oneof![3 => ident(), 1 => text()].boxed()), Just(hd), body_spec(ct), rules_spec(HTTP_CATS, rule()), gens_spec(HTTP_GCATS)))
    .prop_map(|(method, path, query, headers, (body, effective), rules, gens)| ReqSpec { method, path, query, headers, body, effective, rules, gens }).boxed()
}

pub fn res() -> B<ResSpec> {
  headers(text()).prop_flat_map(|(hd, ct)| (any::<u16>(), Just(hd), body_spec(ct), rules_spec(HTTP_CATS, rule()), gens_spec(HTTP_GCATS)))
    .prop_map(|(status, headers, (body, effective), rules, gens)| ResSpec { status, headers, body, effective, rules, gens }).boxed()
}

fn put(v: &mut Map<String, Value>, k: &str, x: Option<Value>) { if let Some(x) = x { v.insert(k.to_string(), x); } }
fn opt(v: Value) -> Option<Value> { if v.is_null() { None } else { Some(v) } }

impl ReqSpec {
  pub fn build(&self) -> HttpRequest {
    HttpRequest { method: self.method.clone(), path: self.path.clone(), query: self.query.as_ref().map(|q| map_of(q)), headers: self.headers.as_ref().map(|h| map_of(h)),
      body: self.body.build(), matching_rules: self.rules.build(), generators: self.gens.build() }
  }
  pub fn json(&self) -> Value {
    let mut m = Map::new();
    m.insert("method".into(), json!(self.method.to_uppercase()));
    m.insert("path".into(), json!(self.path));
    put(&mut m, "query", opt(query_json(&self.query)));
    put(&mut m, "headers", opt(headers_json(&self.headers)));
    put(&mut m, "body", self.body.v4_json(&self.effective));
    if !self.rules.is_empty() { m.insert("matchingRules".into(), self.rules.json()); }
    if !self.gens.is_empty() { m.insert("generators".into(), self.gens.json()); }
    Value::Object(m)
  }
  pub fn dump(&self) -> Value {
    json!({"method": self.method.to_uppercase(), "path": self.path, "query": query_json(&self.query), "headers": headers_json(&self.headers),
      "body": self.body.dump(&self.effective), "rules": self.rules.dump(), "gens": self.gens.dump()})
  }
}
impl ResSpec {
  pub fn build(&self) -> HttpResponse {
    HttpResponse { status: self.status, headers: self.headers.as_ref().map(|h| map_of(h)), body: self.body.build(), matching_rules: self.rules.build(), generators: self.gens.build() }
  }
  pub fn json(&self) -> Value {
    let mut m = Map::new();
    m.insert("status".into(), json!(self.status));
    put(&mut m, "headers", opt(headers_json(&self.headers)));
    put(&mut m, "body", self.body.v4_json(&self.effective));
    if !self.rules.is_empty() { m.insert("matchingRules".into(), self.rules.json()); }
    if !self.gens.is_empty() { m.insert("generators".into(), self.gens.json()); }
    Value::Object(m)
  }
  pub fn dump(&self) -> Value {
    json!({"status": self.status, "headers": headers_json(&self.headers), "body": self.body.dump(&self.effective), "rules": self.rules.dump(), "gens": self.gens.dump()})
  }
}

fn sorted_map<T: serde::Serialize>(h: &Option<HashMap<String, T>>) -> Value { h.as_ref().map(|h| json!(h.iter().collect::<BTreeMap<_, _>>())).unwrap_or(Value::Null) }
pub fn req_dump(r: &HttpRequest) -> Value {
  json!({"method": r.method, "path": r.path, "query": sorted_map(&r.query), "headers": sorted_map(&r.headers), "body": body_dump(&r.body), "rules": rules_dump(&r.matching_rules), "gens": gens_dump(&r.generators)})
}
pub fn res_dump(r: &HttpResponse) -> Value {
  json!({"status": r.status, "headers": sorted_map(&r.headers), "body": body_dump(&r.body), "rules": rules_dump(&r.matching_rules), "gens": gens_dump(&r.generators)})
}

// ---------------------------------------------------------------- messages

#[derive(Debug, Clone)]
pub struct MsgSpec { pub metadata: BTreeMap<String, Value>, pub body: BodySpec, pub effective: Option<String>, pub rules: RulesSpec, pub gens: GensSpec }

pub fn msg() -> B<MsgSpec> {
  (json_map(4), prop::option::of(ct())).prop_flat_map(|(mut md, t)| {
    md.retain(|k, _| !["contenttype", "content-type"].contains(&k.to_lowercase().as_str()));
    if let Some(t) = t { md.insert("contentType".into(), json!(t.0)); }
    (Just(md), body_spec(t), rules_spec(MSG_CATS, rule()), gens_spec(MSG_GCATS))
  }).prop_map(|(metadata, (body, effective), rules, gens)| MsgSpec { metadata, body, effective, rules, gens }).boxed()
}

impl MsgSpec {
  pub fn build(&self) -> MessageContents {
    MessageContents { contents: self.body.build(), metadata: self.metadata.clone().into_iter().collect(), matching_rules: self.rules.build(), generators: self.gens.build() }
  }
  pub fn json(&self) -> Value {
    let mut m = Map::new();
    put(&mut m, "contents", self.body.v4_json(&self.effective));
    if !self.metadata.is_empty() { m.insert("metadata".into(), json!(self.metadata)); }
    if !self.rules.is_empty() { m.insert("matchingRules".into(), self.rules.json()); }
    if !self.gens.is_empty() { m.insert("generators".into(), self.gens.json()); }
    Value::Object(m)
  }
  pub fn dump(&self) -> Value { json!({"metadata": self.metadata, "body": self.body.dump(&self.effective), "rules": self.rules.dump(), "gens": self.gens.dump()}) }
}
pub fn msg_dump(m: &MessageContents) -> Value {
  json!({"metadata": m.metadata.iter().collect::<BTreeMap<_, _>>(), "body": body_dump(&m.contents), "rules": rules_dump(&m.matching_rules), "gens": gens_dump(&m.generators)})
}

// ---------------------------------------------------------------- interactions

#[derive(Debug, Clone)]
pub struct StateSpec { pub name: String, pub params: BTreeMap<String, Value> }
pub fn state() -> B<StateSpec> { (prop_oneof![ident(), text()], json_map(3)).prop_map(|(name, params)| StateSpec { name, params }).boxed() }
impl StateSpec {
  pub fn build(&self) -> ProviderState { ProviderState { name: self.name.clone(), params: self.params.clone().into_iter().collect() } }
  pub fn json(&self) -> Value { if self.params.is_empty() { json!({"name": self.name}) } else { json!({"name": self.name, "params": self.params}) } }
}
pub fn state_dump(s: &[ProviderState]) -> Value {
  Value::Array(s.iter().map(|s| json!({"name": s.name, "params": s.params.iter().collect::<BTreeMap<_, _>>()})).collect())
}

#[derive(Debug, Clone)]
pub enum PartSpec { Http(ReqSpec, ResSpec), Async(MsgSpec), Sync(MsgSpec, Vec<MsgSpec>) }

#[derive(Debug, Clone)]
pub struct ISpec {
  pub id: Option<String>, pub key: Option<String>, pub description: String, pub states: Vec<StateSpec>, pub comments: BTreeMap<String, Value>, pub pending: bool,
  pub plugins: BTreeMap<String, BTreeMap<String, Value>>, pub markup: (String, String), pub transport: Option<String>, pub part: PartSpec,
}

pub fn ispec_of(part: B<PartSpec>) -> B<ISpec> {
  ((prop::option::weighted(0.2, ident()), prop::option::weighted(0.4, ident()), prop_oneof![3 => ident(), 1 => text()], prop::collection::vec(state(), 0..3), json_map(3)),
    (any::<bool>(), prop::collection::btree_map(ident(), json_map(3), 0..3), prop_oneof![2 => Just((String::new(), String::new())), 1 => (".{1,8}", prop_oneof!["COMMON_MARK", "HTML"])], prop::option::weighted(0.3, ident()), part))
    .prop_map(|((id, key, description, states, comments), (pending, plugins, markup, transport, part))| ISpec { id, key, description, states, comments, pending, plugins, markup, transport, part }).boxed()
}
pub fn http_part() -> B<PartSpec> { (req(), res()).prop_map(|(a, b)| PartSpec::Http(a, b)).boxed() }
pub fn async_part() -> B<PartSpec> { msg().prop_map(PartSpec::Async).boxed() }
pub fn sync_part() -> B<PartSpec> { (msg(), prop::collection::vec(msg(), 0..3)).prop_map(|(a, b)| PartSpec::Sync(a, b)).boxed() }
pub fn ispec() -> B<ISpec> { ispec_of(prop_oneof![2 => http_part(), 1 => async_part(), 1 => sync_part()].boxed()) }

fn blank(v: &Value) -> bool { matches!(v, Value::Null) || v == &json!("") || v == &json!([]) || v == &json!({}) }

impl ISpec {
  pub fn build(&self) -> V4Box {
    let provider_states = self.states.iter().map(|s| s.build()).collect();
    let comments = self.comments.clone().into_iter().collect();
    let plugin_config = self.plugins.iter().map(|(k, v)| (k.clone(), v.clone().into_iter().collect())).collect();
    let interaction_markup = InteractionMarkup { markup: self.markup.0.clone(), markup_type: self.markup.1.clone() };
    let (id, key, description, pending, transport) = (self.id.clone(), self.key.clone(), self.description.clone(), self.pending, self.transport.clone());
    match &self.part {
      PartSpec::Http(a, b) => Box::new(SynchronousHttp { id, key, description, provider_states, request: a.build(), response: b.build(), comments, pending, plugin_config, interaction_markup, transport }),
      PartSpec::Async(m) => Box::new(AsynchronousMessage { id, key, description, provider_states, contents: m.build(), comments, pending, plugin_config, interaction_markup, transport }),
      PartSpec::Sync(a, b) => Box::new(SynchronousMessage { id, key, description, provider_states, comments, request: a.build(), response: b.iter().map(|m| m.build()).collect(), pending, plugin_config, interaction_markup, transport }),
    }
  }
  pub fn kept_comments(&self) -> BTreeMap<String, Value> { self.comments.iter().filter(|(_, v)| !blank(v)).map(|(k, v)| (k.clone(), v.clone())).collect() }
  pub fn json(&self) -> Value {
    let (ty, parts) = match &self.part {
      PartSpec::Http(a, b) => ("Synchronous/HTTP", json!({"request": a.json(), "response": b.json()})),
      PartSpec::Async(m) => ("Asynchronous/Messages", m.json()),
      PartSpec::Sync(a, b) => ("Synchronous/Messages", json!({"request": a.json(), "response": b.iter().map(|m| m.json()).collect::<Vec<_>>()})),
    };
    let mut m = parts.as_object().unwrap().clone();
    m.insert("type".into(), json!(ty));
    m.insert("description".into(), json!(self.description));
    m.insert("pending".into(), json!(self.pending));
    put(&mut m, "key", self.key.as_ref().map(|k| json!(k)));
    if !self.states.is_empty() { m.insert("providerStates".into(), Value::Array(self.states.iter().map(|s| s.json()).collect())); }
    let comments = self.kept_comments();
    if !comments.is_empty() { m.insert("comments".into(), json!(comments)); }
    if !self.plugins.is_empty() { m.insert("pluginConfiguration".into(), json!(self.plugins)); }
    if !self.markup.0.is_empty() { m.insert("interactionMarkup".into(), json!({"markup": self.markup.0, "markupType": self.markup.1})); }
    put(&mut m, "transport", self.transport.as_ref().map(|k| json!(k)));
    Value::Object(m)
  }
  pub fn dump(&self) -> Value {
    let part = match &self.part {
      PartSpec::Http(a, b) => json!({"http": [a.dump(), b.dump()]}),
      PartSpec::Async(m) => json!({"async": m.dump()}),
      PartSpec::Sync(a, b) => json!({"sync": [a.dump(), b.iter().map(|m| m.dump()).collect::<Vec<_>>()]}),
    };
    json!({"id": null, "key": self.key, "description": self.description, "states": self.states.iter().map(|s| json!({"name": s.name, "params": s.params})).collect::<Vec<_>>(),
      "comments": self.kept_comments(), "pending": self.pending, "plugins": self.plugins, "markup": [self.markup.0, self.markup.1], "transport": self.transport, "part": part})
  }
}

pub fn idump(i: &V4Box) -> Value {
  let part = if let Some(h) = i.as_v4_http() { json!({"http": [req_dump(&h.request), res_dump(&h.response)]}) }
    else if let Some(m) = i.as_v4_async_message() { json!({"async": msg_dump(&m.contents)}) }
    else if let Some(m) = i.as_v4_sync_message() { json!({"sync": [msg_dump(&m.request), m.response.iter().map(msg_dump).collect::<Vec<_>>()]}) }
    else { Value::Null };
  let plugins: BTreeMap<String, BTreeMap<String, Value>> = i.plugin_config().into_iter().map(|(k, v)| (k, v.into_iter().collect())).collect();
  json!({"id": i.id(), "key": i.key(), "description": i.description(), "states": state_dump(&i.provider_states()), "comments": i.comments().into_iter().collect::<BTreeMap<_, _>>(),
    "pending": i.pending(), "plugins": plugins, "markup": [i.interaction_markup().markup, i.interaction_markup().markup_type], "transport": i.transport(), "part": part})
}

// ---------------------------------------------------------------- pacts

#[derive(Debug, Clone)]
pub struct PSpec { pub consumer: String, pub provider: String, pub interactions: Vec<ISpec>, pub metadata: BTreeMap<String, Value>, pub plugins: Vec<(String, String, BTreeMap<String, Value>)> }

pub fn metadata() -> B<BTreeMap<String, Value>> {
  (json_map(3), prop::option::of(prop_oneof![3 => json_map(3).prop_map(|m| json!(m)), 1 => json_scalar()]), prop::option::of(json_value())).prop_map(|(mut m, rust, spec)| {
    m.retain(|k, _| !["plugins", "pactSpecification", "pact-specification", "pactRust", "pact-rust"].contains(&k.as_str()));
    if let Some(r) = rust { m.insert("pactRust".into(), r); }
    if let Some(s) = spec { m.insert("pactSpecification".into(), s); }
    m
  }).boxed()
}

pub fn pspec_of(i: B<ISpec>, max: usize) -> B<PSpec> {
  (prop_oneof![ident(), text()], prop_oneof![ident(), text()], prop::collection::vec(i, 0..max), metadata(), prop::collection::vec((ident(), "[0-9]\\.[0-9]", json_map(3)), 0..3))
    .prop_map(|(consumer, provider, interactions, metadata, plugins)| PSpec { consumer, provider, interactions, metadata, plugins }).boxed()
}
pub fn pspec() -> B<PSpec> { pspec_of(ispec(), 4) }

pub fn version() -> String { PACT_RUST_VERSION.unwrap_or("unknown").to_string() }

impl PSpec {
  pub fn build(&self) -> V4Pact {
    V4Pact {
      consumer: Consumer { name: self.consumer.clone() }, provider: Provider { name: self.provider.clone() }, interactions: self.interactions.iter().map(|i| i.build()).collect(),
      metadata: self.metadata.clone(),
      plugin_data: self.plugins.iter().map(|(n, v, c)| PluginData { name: n.clone(), version: v.clone(), configuration: c.clone().into_iter().collect() }).collect(),
    }
  }
  /// Interactions in the order files list them.
  pub fn sorted(&self) -> Vec<&ISpec> { let mut v: Vec<&ISpec> = self.interactions.iter().collect(); v.sort_by(|a, b| a.description.cmp(&b.description)); v }
  pub fn metadata_json(&self) -> Value {
    let mut m: Map<String, Value> = self.metadata.clone().into_iter().collect();
    m.insert("pactSpecification".into(), json!({"version": "4.0"}));
    let rust = m.entry("pactRust").or_insert(json!({}));
    if let Some(o) = rust.as_object_mut() { o.insert("models".into(), json!(version())); }
    if !self.plugins.is_empty() { m.insert("plugins".into(), Value::Array(self.plugins.iter().map(|(n, v, c)| json!({"name": n, "version": v, "configuration": c})).collect())); }
    Value::Object(m)
  }
  pub fn json(&self) -> Value {
    json!({"consumer": {"name": self.consumer}, "provider": {"name": self.provider}, "interactions": self.sorted().iter().map(|i| i.json()).collect::<Vec<_>>(), "metadata": self.metadata_json()})
  }
  pub fn dump(&self) -> Value {
    let mut md = self.metadata_json();
    md.as_object_mut().unwrap().remove("plugins");
    json!({"consumer": self.consumer, "provider": self.provider, "interactions": self.sorted().iter().map(|i| i.dump()).collect::<Vec<_>>(), "metadata": md,
      "plugins": self.plugins.iter().map(|(n, v, c)| json!([n, v, c])).collect::<Vec<_>>()})
  }
}

pub fn pdump(p: &V4Pact) -> Value {
  json!({"consumer": p.consumer.name, "provider": p.provider.name, "interactions": p.interactions.iter().map(idump).collect::<Vec<_>>(), "metadata": p.metadata,
    "plugins": p.plugin_data.iter().map(|d| json!([d.name, d.version, d.configuration.iter().collect::<BTreeMap<_, _>>()])).collect::<Vec<_>>()})
}

/// First difference of two JSON values, for messages.
pub fn diff(a: &Value, b: &Value) -> String {
  fn go(a: &Value, b: &Value, at: String) -> Option<String> {
    if a == b { return None; }
    match (a, b) {
      (Value::Object(x), Value::Object(y)) => {
        for k in x.keys().chain(y.keys()) {
          match (x.get(k), y.get(k)) {
            (Some(p), Some(q)) => if let Some(d) = go(p, q, format!("{}/{}", at, k)) { return Some(d); },
            (p, q) => return Some(format!("{}/{}: {:?} / {:?}", at, k, p.map(|v| v.to_string()), q.map(|v| v.to_string()))),
          }
        }
        None
      }
      (Value::Array(x), Value::Array(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().find_map(|(i, (p, q))| go(p, q, format!("{}/{}", at, i))),
      _ => Some(format!("{}: {} / {}", at, a, b)),
    }
  }
  go(a, b, String::new()).unwrap_or_default()
}
#[macro_export]
macro_rules! same { ($a:expr, $b:expr, $($arg:tt)*) => {{ let (a, b) = (&$a, &$b); if a != b { return Err(format!("{}\n    differs at {}\n    left: {}\n   right: {}", format!($($arg)*), $crate::pacts::diff(a, b), a, b)); } }}; }

fn note(i: &ISpec, c: &mut pvfw::Case) {
  c.label(match i.part { PartSpec::Http(..) => "http", PartSpec::Async(..) => "async", PartSpec::Sync(..) => "sync" });
  let bodies: Vec<&BodySpec> = match &i.part { PartSpec::Http(a, b) => vec![&a.body, &b.body], PartSpec::Async(m) => vec![&m.body], PartSpec::Sync(a, b) => std::iter::once(&a.body).chain(b.iter().map(|m| &m.body)).collect() };
  c.nontrivial(bodies.iter().any(|b| b.is_present()));
  c.label_if(!i.states.is_empty(), "states"); c.label_if(!i.plugins.is_empty(), "plugin configuration"); c.label_if(!i.markup.0.is_empty(), "markup");
}

fn check_interaction(s: &ISpec) -> Result<(), String> {
  let i = s.build();
  let got = i.to_json();
  same!(got, s.json(), "V4 JSON form");
  let back = err(interaction_from_json("x", 7, &got), "loading what was written")?;
  same!(idump(&back), s.dump(), "loaded again");
  same!(back.to_json(), got, "written again");
  ensure_eq!(back.v4_type().to_string(), got["type"].as_str().unwrap(), "type");
  let mut with_id = got.clone();
  with_id["_id"] = json!("abc");
  ensure_eq!(err(interaction_from_json("x", 7, &with_id), "with _id")?.id(), Some("abc".to_string()), "id");
  let mut anon = got.clone();
  anon.as_object_mut().unwrap().remove("description");
  ensure_eq!(err(interaction_from_json("x", 7, &anon), "without description")?.description(), "Interaction 7", "default description");
  Ok(())
}

pub fn p01(h: &mut H) {
  h.assume("Comments with empty values, the type of an empty markup and interaction ids are not part of the file form; names of headers differ by more than case.");
  h.assume("Bodies that are the JSON texts null and \"\" with a JSON content type are covered by pinned cases; JSON numbers are limited to those that survive a text round trip.");
  let per = 8_000;
  h.check("http", per, "random HTTP interactions: written form, loaded again, written again; non-trivial: has a body", || ispec_of(http_part()), |s, c| { note(s, c); check_interaction(s) });
  h.check("async", per, "random asynchronous messages, likewise", || ispec_of(async_part()), |s, c| { note(s, c); check_interaction(s) });
  h.check("sync", per, "random synchronous messages, likewise", || ispec_of(sync_part()), |s, c| { note(s, c); check_interaction(s) });
  h.check("pact", 4_000, "random pacts of mixed interactions through JSON text; non-trivial: at least two interactions", pspec, |s, c| {
    for i in &s.interactions { note(i, c); }
    c.nontrivial = s.interactions.len() > 1;
    let p = s.build();
    let got = err(p.to_json(PactSpecification::V4), "to_json")?;
    same!(got, s.json(), "V4 JSON form");
    let text = serde_json::to_string_pretty(&got).map_err(|e| e.to_string())?;
    let parsed: Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
    same!(parsed, got, "JSON text");
    let back = err(load_pact_from_json("x", &parsed), "loading what was written")?;
    ensure!(back.is_v4() && back.specification_version() == PactSpecification::V4, "loaded as {:?}", back.specification_version());
    let back = err(back.as_v4_pact(), "as V4")?;
    same!(pdump(&back), s.dump(), "loaded again");
    same!(pdump(&err(V4Pact::pact_from_json(&parsed, "x"), "pact_from_json")?), s.dump(), "loaded again with pact_from_json");
    same!(err(back.to_json(PactSpecification::V4), "to_json")?, got, "written again");
    ensure_eq!(back.requires_plugins(), !s.plugins.is_empty(), "requires_plugins");
    Ok(())
  });
  for (key, text) in [("json-null-body", "null"), ("json-empty-string-body", "\"\"")] {
    h.pinned(key, &format!("V4 request with body {:?} of type application/json", text), || {
      let r = HttpRequest { body: OptionalBody::Present(text.as_bytes().to_vec().into(), Some(ContentType::from("application/json")), None), ..HttpRequest::default() };
      let i = SynchronousHttp { request: r.clone(), ..SynchronousHttp::default() };
      let back = err(interaction_from_json("x", 0, &i.to_json()), "loading what was written")?.as_v4_http().unwrap();
      ensure_eq!(body_dump(&back.request.body), body_dump(&r.body), "body");
      Ok(())
    });
  }
}
