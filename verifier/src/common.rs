//! Generated pacts, a provider played by the check, and running the verifier against it.
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use bytes::Bytes;
use itertools::Either;
use pact_models::bodies::OptionalBody;
use pact_models::v4::http_parts::HttpRequest;
use pact_verifier::callback_executors::{HttpRequestProviderStateExecutor, ProviderStateExecutor, RequestFilterExecutor};
use pact_verifier::metrics::VerificationMetrics;
use pact_verifier::verification_result::VerificationExecutionResult;
use pact_verifier::{FilterInfo, PactSource, ProviderInfo, ProviderTransport, PublishOptions, VerificationOptions};
use proptest::prelude::*;
use pvfw::R;
use reqwest::{Reply, Sent};
use serde_json::{json, Map, Value};
pub use crate::g::{self, B};

// ---------------------------------------------------------------- documents
#[derive(Debug, Clone, PartialEq)]
pub enum Body { Missing, Null, Json(Value), Text(String) }
impl Body {
  pub fn bytes(&self) -> Option<Vec<u8>> {
    match self { Body::Missing => None, Body::Null => Some(b"null".to_vec()), Body::Json(v) => Some(v.to_string().into_bytes()), Body::Text(s) => Some(s.clone().into_bytes()) }
  }
  pub fn ctype(&self) -> Option<&'static str> {
    match self { Body::Missing => None, Body::Text(_) => Some("text/plain"), _ => Some("application/json") }
  }
  fn put(&self, v: u8, m: &mut Map<String, Value>) {
    let b = match self { Body::Missing => return, Body::Null => Value::Null, Body::Json(v) => v.clone(), Body::Text(s) => json!(s) };
    m.insert("body".into(), if v == 4 && *self != Body::Null { json!({"content": b, "contentType": self.ctype().unwrap(), "encoded": false}) } else { b });
  }
}
pub type Hd = Vec<(String, Vec<String>)>;
fn headers_json(v: u8, h: &Hd, b: &Body) -> Value {
  let mut m = Map::new();
  for (k, l) in h { m.insert(k.clone(), if v < 3 { json!(l.join(", ")) } else { json!(l) }); }
  if let Some(t) = b.ctype() { m.insert("Content-Type".into(), if v < 3 { json!(t) } else { json!([t]) }); }
  Value::Object(m)
}
#[derive(Debug, Clone)]
pub struct Rq { pub method: String, pub path: String, pub query: Vec<(String, Vec<Option<String>>)>, pub headers: Hd, pub body: Body, pub generators: Option<Value> }
#[derive(Debug, Clone)]
pub struct Rs { pub status: u16, pub headers: Hd, pub body: Body, pub like: bool }
#[derive(Debug, Clone)]
pub struct St { pub name: String, pub params: Vec<(String, Value)> }
#[derive(Debug, Clone)]
pub struct Item {
  pub desc: String, pub states: Vec<St>, pub rq: Rq, pub rs: Rs, pub pending: bool, pub key: Option<String>,
  pub transport: Option<String>, pub id: Option<String>, pub comments: Option<Value>
}
#[derive(Debug, Clone)]
pub struct Doc { pub v: u8, pub consumer: String, pub provider: String, pub items: Vec<Item> }
pub fn form(s: &str) -> String { s.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{:02X}", b) }).collect() }
impl Rq {
  pub fn json(&self, v: u8) -> Value {
    let mut m = Map::new();
    m.insert("method".into(), json!(self.method)); m.insert("path".into(), json!(self.path));
    if !self.query.is_empty() {
      m.insert("query".into(), if v < 3 { json!(self.query.iter().flat_map(|(k, l)| l.iter().map(move |x| match x { Some(x) => format!("{}={}", form(k), form(x)), None => form(k) })).collect::<Vec<_>>().join("&")) }
        else { Value::Object(self.query.iter().map(|(k, l)| (k.clone(), json!(l))).collect()) });
    }
    m.insert("headers".into(), headers_json(v, &self.headers, &self.body));
    self.body.put(v, &mut m);
    if let Some(g) = &self.generators { m.insert("generators".into(), g.clone()); }
    Value::Object(m)
  }
}
impl Rs {
  pub fn json(&self, v: u8) -> Value {
    let mut m = Map::new();
    m.insert("status".into(), json!(self.status));
    m.insert("headers".into(), headers_json(v, &self.headers, &self.body));
    self.body.put(v, &mut m);
    if self.like {
      m.insert("matchingRules".into(), if v < 3 { json!({"$.body": {"match": "type"}}) } else { json!({"body": {"$": {"matchers": [{"match": "type"}]}}}) });
    }
    Value::Object(m)
  }
}
impl St {
  pub fn json(&self) -> Value {
    if self.params.is_empty() { json!({"name": self.name}) } else { json!({"name": self.name, "params": self.params.iter().cloned().collect::<Map<_, _>>()}) }
  }
}
impl Item {
  pub fn json(&self, v: u8) -> Value {
    let mut i = json!({"description": self.desc, "request": self.rq.json(v), "response": self.rs.json(v)});
    if v < 3 { if let Some(s) = self.states.first() { i["providerState"] = json!(s.name); } }
    else if !self.states.is_empty() { i["providerStates"] = self.states.iter().map(|s| s.json()).collect(); }
    if let Some(id) = &self.id { i["_id"] = json!(id); }
    if v == 4 {
      i["type"] = json!("Synchronous/HTTP");
      if self.pending { i["pending"] = json!(true); }
      if let Some(k) = &self.key { i["key"] = json!(k); }
      if let Some(t) = &self.transport { i["transport"] = json!(t); }
      if let Some(c) = &self.comments { i["comments"] = c.clone(); }
    }
    i
  }
  /// The states that survive in a document of this version.
  pub fn states(&self, v: u8) -> Vec<St> {
    if v < 3 { self.states.first().map(|s| St { name: s.name.clone(), params: vec![] }).into_iter().collect() } else { self.states.clone() }
  }
  pub fn full_description(&self, d: &Doc) -> String {
    let mut s = format!("Verifying a pact between {} and {}", d.consumer, d.provider);
    for (n, st) in self.states(d.v).iter().enumerate() { s.push_str(&format!(" {} {}", if n == 0 { "Given" } else { "And" }, st.name)); }
    format!("{} - {}", s, self.desc)
  }
}
impl Doc {
  pub fn json(&self) -> Value {
    let spec = ["", "1.0.0", "2.0.0", "3.0.0", "4.0"][self.v as usize];
    json!({"consumer": {"name": self.consumer}, "provider": {"name": self.provider}, "interactions": self.items.iter().map(|i| i.json(self.v)).collect::<Vec<_>>(),
      "metadata": {"pactSpecification": {"version": spec}}})
  }
}

// ---------------------------------------------------------------- what the provider does
/// How the provider's response differs from the expected one.
#[derive(Debug, Clone, PartialEq)]
pub struct Act {
  /// differences that still match
  pub extra_header: bool, pub extra_field: bool, pub split: bool,
  /// differences that do not
  pub status: Option<u16>, pub header: Option<(usize, u8)>, pub body: Option<(usize, u8)>,
  /// 1: no answer, 2: the body breaks off
  pub fault: u8
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Off { Status, Header, Body, Failed }
pub struct Answer { pub reply: (u16, Vec<(String, Vec<u8>)>, Bytes, u8), pub off: Vec<Off>, pub header_names: Vec<String> }
pub fn act() -> B<Act> {
  let yes = || prop::bool::weighted(0.3);
  (yes(), yes(), yes(), prop::option::weighted(0.15, prop::sample::select(vec![200u16, 201, 204, 400, 404, 500])), prop::option::weighted(0.15, (0usize..4, 0u8..3)),
    prop::option::weighted(0.2, (0usize..4, 0u8..6)), prop_oneof![18 => Just(0u8), 1 => 1u8..3])
    .prop_map(|(extra_header, extra_field, split, status, header, body, fault)| Act { extra_header, extra_field, split, status, header, body, fault }).boxed()
}
fn other(v: &Value) -> Value {
  match v { Value::Number(n) => json!(n.as_i64().unwrap_or(0) + 1), Value::String(s) => json!(format!("{}x", s)), Value::Bool(b) => json!(!b), o => o.clone() }
}
impl Act {
  pub fn answer(&self, rs: &Rs) -> Answer {
    let mut off = vec![];
    let mut names = vec![];
    if self.fault > 0 {
      return Answer { reply: (rs.status, vec![], Bytes::new(), self.fault), off: vec![Off::Failed], header_names: names };
    }
    let status = match self.status { Some(s) if s != rs.status => { off.push(Off::Status); s } _ => rs.status };
    let mut headers: Vec<(String, Vec<u8>)> = vec![];
    let mut list = rs.headers.clone();
    if let Some((at, how)) = self.header {
      if !list.is_empty() {
        let at = at % list.len();
        off.push(Off::Header); names.push(list[at].0.clone());
        match how {
          0 => { list.remove(at); }
          1 => { let l = list[at].1.len() - 1; list[at].1[l].push('x'); }
          _ => list[at].1.push("more".into())
        }
      }
    }
    for (k, l) in &list {
      if self.split { for x in l { headers.push((k.to_lowercase(), x.as_bytes().to_vec())); } } else { headers.push((k.clone(), l.join(", ").into_bytes())); }
    }
    if self.extra_header { headers.push(("X-Extra".into(), b"1".to_vec())); }
    let mut body = rs.body.clone();
    let mut ctype = body.ctype();
    match (&mut body, self.body) {
      (Body::Json(v), Some((at, how))) => {
        let o = v.as_object_mut().unwrap();
        let keys: Vec<String> = o.keys().cloned().collect();
        let key = keys[at % keys.len()].clone();
        match how {
          0 => { o.remove(&key); off.push(Off::Body); }
          1 | 2 => { let n = other(&o[&key]); if n != o[&key] { if !rs.like { off.push(Off::Body); } o.insert(key, n); } }
          3 => { o.insert(key, json!({"another": ["kind"]})); off.push(Off::Body); }
          4 => { for k in keys { o.insert(k, json!({"another": ["kind"]})); } off.push(Off::Body); }
          _ => { body = Body::Missing; off.push(Off::Body); }
        }
      }
      (Body::Text(s), Some((_, how))) => {
        if how < 3 { s.push('!'); off.push(Off::Body) } else { body = Body::Json(json!({"not": "text"})); ctype = Some("application/json"); off.push(Off::Body); off.push(Off::Header); names.push("Content-Type".into()); }
      }
      _ => ()
    }
    if self.extra_field { if let Body::Json(v) = &mut body { v.as_object_mut().unwrap().insert("extra field".into(), json!([1, "a"])); } }
    if let Body::Missing = rs.body { if self.extra_field { body = Body::Text("nobody asked".into()); ctype = Some("text/plain"); } }
    if let Some(t) = ctype { headers.push(("Content-Type".into(), t.into())); }
    off.sort(); off.dedup();
    Answer { reply: (status, headers, body.bytes().unwrap_or_default().into(), 0), off, header_names: names }
  }
}
pub fn reply(a: &(u16, Vec<(String, Vec<u8>)>, Bytes, u8)) -> Reply {
  match a.3 { 0 => Reply::Response(a.0, a.1.clone(), a.2.clone()), 1 => Reply::Refuse, _ => Reply::Cut(a.0, a.1.clone()) }
}

// ---------------------------------------------------------------- generators
pub fn name() -> B<String> { prop_oneof![4 => "[a-d]{1,3}", 2 => "[A-Za-z][A-Za-z0-9 _-]{0,8}[a-z]", 1 => "[a-zé€日]{1,4}"].boxed() }
pub fn token() -> B<String> { "[a-zA-Z0-9_.-]{1,6}".boxed() }
pub fn header_list() -> B<Hd> {
  let value = prop_oneof![4 => token(), 1 => "[a-z]{1,3} [a-z]{1,3}", 1 => "[a-z]{1,3}=[0-9]{1,2}"];
  (prop::collection::vec((prop::sample::select(vec!["X-A", "X-B", "x-c", "Cache-Control", "Vary", "X_D"]), prop::collection::vec(value, 1..4)), 0..4), prop::bool::weighted(0.15))
    .prop_map(|(l, date)| {
      let mut out: Hd = vec![];
      for (k, v) in l { if !out.iter().any(|(o, _)| o == k) { out.push((k.to_string(), v)); } }
      if date { out.push(("Date".into(), vec!["Sun, 12 Mar 2023 01:21:35 GMT".into()])); }
      out
    }).boxed()
}
pub fn json_body() -> B<Value> {
  let scalar = prop_oneof![3 => (-99i64..999).prop_map(|n| json!(n)), 3 => "[a-zé ]{0,5}".prop_map(|s| json!(s)), 1 => any::<bool>().prop_map(|b| json!(b)), 1 => Just(Value::Null)].boxed();
  let inner = prop_oneof![3 => scalar.clone(), 1 => prop::collection::vec(scalar.clone(), 1..3).prop_map(Value::from), 1 => ("[a-c]", scalar).prop_map(|(k, v)| json!({k: v}))];
  (prop::collection::vec(("[a-d]{1,2}", inner), 1..4), prop::bool::weighted(0.15)).prop_map(|(l, same)| { let first = l[0].1.clone(); Value::Object(l.into_iter().map(|(k, v)| (k, if same { first.clone() } else { v })).collect()) }).boxed()
}
pub fn body() -> B<Body> { prop_oneof![2 => Just(Body::Missing), 4 => json_body().prop_map(Body::Json), 2 => "[a-zA-Z é!]{1,8}".prop_map(Body::Text)].boxed() }
pub fn states() -> B<Vec<St>> {
  prop::collection::vec((prop_oneof![3 => name(), 1 => "[a-z]{1,4} (is|has) [a-z]{1,3}[?!.]"], prop::collection::vec(("[p-t]{1,2}", prop_oneof![g::json_scalar(), json_body()]), 0..3)), 0..4)
    .prop_map(|l| l.into_iter().map(|(name, p)| { let mut params: Vec<(String, Value)> = vec![]; for (k, v) in p { if !params.iter().any(|(o, _)| *o == k) { params.push((k, v)); } } St { name, params } }).collect()).boxed()
}
pub fn path() -> B<String> {
  let seg = prop_oneof![4 => "[a-z0-9_~-]{1,4}", 1 => "[a-z:@!$&'()*+,;=.]{1,3}[a-z]", 1 => "[a-z]%20[a-z]", 1 => "[a-z] [a-z]", 1 => "[é€日]{1,2}"];
  (prop::collection::vec(seg, 0..4), prop::bool::weighted(0.2)).prop_map(|(l, slash)| { let p = format!("/{}", l.join("/")); if slash && p != "/" { p + "/" } else { p } }).boxed()
}
pub fn request() -> B<Rq> {
  let query = prop::collection::vec((prop_oneof![3 => "[a-d]{1,2}", 1 => "[a-z \\[\\]&=+%é]{1,4}"], prop::collection::vec(prop_oneof![6 => "[a-z0-9 &=+%#?/é]{0,4}".prop_map(Some), 1 => Just(None)], 1..3)), 0..3)
    .prop_map(|l| { let mut out: Vec<(String, Vec<Option<String>>)> = vec![]; for (k, v) in l { if !out.iter().any(|(o, _)| *o == k) { out.push((k, v)); } } out });
  (prop::sample::select(vec!["GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "PURGE"]), path(), query, header_list(), prop_oneof![8 => body(), 1 => Just(Body::Null)])
    .prop_map(|(method, path, query, headers, body)| Rq { method: method.into(), path, query, headers, body, generators: None }).boxed()
}
pub fn response() -> B<Rs> {
  (prop::sample::select(vec![200u16, 201, 204, 301, 404, 500]), header_list(), body(), prop::bool::weighted(0.25))
    .prop_map(|(status, headers, body, like)| Rs { like: like && matches!(body, Body::Json(_)), status, headers, body }).boxed()
}
pub fn item() -> B<Item> {
  (name(), states(), request(), response(), prop::bool::weighted(0.25), prop::option::of("[a-f0-9]{4}"), prop::option::weighted(0.3, "[a-f0-9]{6}"))
    .prop_map(|(desc, states, rq, rs, pending, key, id)| Item { desc, states, rq, rs, pending, key, id, transport: None, comments: None }).boxed()
}
/// A document whose interactions have different descriptions.
pub fn doc(max: usize) -> B<Doc> {
  (1u8..5, name(), prop::collection::vec(item(), 0..=max)).prop_map(|(v, consumer, items)| Doc { v, consumer, provider: "p".into(), items: distinct(items) }).boxed()
}
pub fn distinct(mut items: Vec<Item>) -> Vec<Item> {
  for n in 0..items.len() {
    while items[..n].iter().any(|o| o.desc == items[n].desc) { items[n].desc.push('\''); }
  }
  items
}

// ---------------------------------------------------------------- running
#[derive(Debug)]
pub struct Filter { pub header: Option<(String, String)>, pub path: Option<String> }
impl RequestFilterExecutor for Filter {
  fn call(self: Arc<Self>, request: &HttpRequest) -> HttpRequest {
    let mut r = request.clone();
    if let Some((k, v)) = &self.header { r.headers.get_or_insert_with(HashMap::new).insert(k.clone(), vec![v.clone()]); }
    if let Some(p) = &self.path { r.path = format!("{}{}", r.path.trim_end_matches('/'), p); }
    r
  }
  fn call_non_http(&self, b: &OptionalBody, m: &HashMap<String, Either<Value, Bytes>>) -> (OptionalBody, HashMap<String, Either<Value, Bytes>>) { (b.clone(), m.clone()) }
}
static CASE: AtomicU64 = AtomicU64::new(0);
/// A host name of its own for the case, removed with its handler at the end.
pub struct Host { pub name: String, pub log: Arc<Mutex<Vec<Sent>>> }
impl Host {
  /// `f` gets the number of the request and the request
  pub fn new(what: &str, f: impl Fn(usize, &Sent) -> Reply + Send + Sync + 'static) -> Host {
    let name = format!("{}{}.test", what, CASE.fetch_add(1, Ordering::Relaxed));
    let log: Arc<Mutex<Vec<Sent>>> = Default::default();
    let l = log.clone();
    reqwest::serve(&name, Arc::new(move |s: &Sent| { let n = { let mut g = l.lock().unwrap_or_else(|e| e.into_inner()); g.push(s.clone()); g.len() - 1 }; f(n, s) }));
    Host { name, log }
  }
  pub fn sent(&self) -> Vec<Sent> { self.log.lock().unwrap().clone() }
}
impl Drop for Host { fn drop(&mut self) { reqwest::stop(&self.name); } }

pub struct Run<'a> {
  pub provider: ProviderInfo, pub sources: Vec<PactSource>, pub filter: FilterInfo, pub consumers: Vec<String>,
  pub options: VerificationOptions<Filter>, pub publish: Option<&'a PublishOptions>, pub states: HttpRequestProviderStateExecutor,
  pub metrics: Option<VerificationMetrics>
}
pub fn options() -> VerificationOptions<Filter> { VerificationOptions { coloured_output: false, ..VerificationOptions::default() } }
#[allow(deprecated)]
pub fn provider(host: &str) -> ProviderInfo { ProviderInfo { name: "p".into(), host: host.into(), ..ProviderInfo::default() } }
pub fn transport(t: &str, port: Option<u16>, path: Option<&str>, scheme: Option<&str>) -> ProviderTransport {
  ProviderTransport { transport: t.into(), port, path: path.map(|p| p.into()), scheme: scheme.map(|p| p.into()) }
}
impl<'a> Run<'a> {
  pub fn new(host: &str, sources: Vec<PactSource>) -> Run<'a> {
    Run { provider: provider(host), sources, filter: FilterInfo::None, consumers: vec![], options: options(), publish: None, states: HttpRequestProviderStateExecutor::default(), metrics: None }
  }
  pub fn go(self) -> Result<VerificationExecutionResult, String> { let states = Arc::new(self.states.clone()); self.go_with(&states) }
  pub fn go_with<S: ProviderStateExecutor>(self, states: &Arc<S>) -> Result<VerificationExecutionResult, String> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().map_err(|e| e.to_string())?;
    rt.block_on(pact_verifier::verify_provider_async(self.provider, self.sources, self.filter, self.consumers, &self.options, self.publish, states, self.metrics))
      .map_err(|e| format!("the verification could not be run: {}", e))
  }
}
pub fn wait<T>(f: impl Future<Output = T>) -> T {
  tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap().block_on(f)
}
pub fn text(s: &Sent) -> R { Err(format!("{:?}", s)) }
