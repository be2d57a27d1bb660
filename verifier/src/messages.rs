//! P48 verification of messages.
use base64::Engine;
use itertools::Itertools;
use pact_matching::Mismatch;
use pact_verifier::{MismatchResult, PactSource};
use proptest::prelude::*;
use pvfw::{ensure, ensure_eq, H, R};
use reqwest::{Reply, Sent};
use serde_json::{json, Map, Value};
use crate::common::*;
use crate::http_check::{consistent, setup, Setup};

#[derive(Debug, Clone)]
struct Part { body: Body, meta: Vec<(String, Value)> }
#[derive(Debug, Clone)]
struct Did { status: u16, meta: Option<(usize, u8)>, body: Option<(usize, u8)>, fault: u8, extra_meta: bool, extra_field: bool, header: usize }
#[derive(Debug, Clone)]
struct Msg { desc: String, states: Vec<St>, pending: bool, id: Option<String>, transport: Option<String>, sync: bool, contents: Part, request: Part, more: Option<Part>, did: Did }
#[derive(Debug, Clone)]
struct MDoc { v: u8, consumer: String, items: Vec<Msg> }

fn part() -> B<Part> {
  let value = prop_oneof![3 => "[a-z]{1,4}".prop_map(|s| json!(s)), 1 => (0i64..99).prop_map(|n| json!(n)), 1 => any::<bool>().prop_map(|b| json!(b)), 1 => json_body()];
  (body(), prop::collection::vec((prop::sample::select(vec!["topic", "key", "Partition", "x-y", "destination"]).prop_map(|s| s.to_string()), value), 0..4), prop::bool::weighted(0.2))
    .prop_map(|(body, m, own)| { let mut m = m; if own && matches!(body, Body::Json(_)) { m.push(("contentType".into(), json!("application/vnd.own+json"))); } Part { body, meta: m.into_iter().unique_by(|x| x.0.to_lowercase()).collect() } }).boxed()
}
fn did() -> B<Did> {
  (prop_oneof![8 => Just(200u16), 1 => Just(204u16), 1 => Just(500u16), 1 => Just(404u16)], prop::option::weighted(0.25, (0usize..4, 0u8..2)), prop::option::weighted(0.25, (0usize..4, 0u8..4)), prop_oneof![15 => Just(0u8), 1 => 1u8..3], any::<bool>(), any::<bool>(), 0usize..3)
    .prop_map(|(status, meta, body, fault, extra_meta, extra_field, header)| Did { status, meta, body, fault, extra_meta, extra_field, header }).boxed()
}
fn mdoc() -> B<MDoc> {
  let kinds = prop::sample::select(vec!["message", "async-message", "sync-message", "http", "a"]).prop_map(|s| s.to_string());
  let msg = (name(), states(), prop::bool::weighted(0.2), prop::option::weighted(0.4, "[a-f0-9]{6}"), prop::option::weighted(0.3, kinds), any::<bool>(), part(), part(), prop::option::weighted(0.3, part()), did())
    .prop_map(|(desc, states, pending, id, transport, sync, contents, request, more, did)| Msg { desc, states, pending, id, transport, sync, contents, request, more, did });
  (3u8..5, name(), prop::collection::vec(msg, 1..4)).prop_map(|(v, consumer, mut items)| {
    for n in 0..items.len() { while items[..n].iter().any(|o| o.desc == items[n].desc) { items[n].desc.push('\''); } }
    if v == 3 { for i in &mut items { i.contents.meta.retain(|m| m.0 != "contentType"); i.sync = false; i.transport = None; i.pending = false; i.did.status = 200; } }
    for i in &mut items { if !i.sync { i.did.status = 200; i.more = None; } }
    MDoc { v, consumer, items }
  }).boxed()
}
impl Part {
  fn contents(&self) -> Option<Value> {
    match &self.body { Body::Missing | Body::Null => None, Body::Json(v) => Some(json!({"content": v, "contentType": "application/json", "encoded": false})), Body::Text(s) => Some(json!({"content": s, "contentType": "text/plain", "encoded": false})) }
  }
  fn meta(&self) -> Value { Value::Object(self.meta.iter().cloned().collect()) }
  fn put(&self, m: &mut Map<String, Value>) { if let Some(c) = self.contents() { m.insert("contents".into(), c); } if !self.meta.is_empty() { m.insert("metadata".into(), self.meta()); } }
}
impl Msg {
  fn json(&self, v: u8) -> Value {
    let mut m = Map::new();
    m.insert("description".into(), json!(self.desc));
    if !self.states.is_empty() { m.insert("providerStates".into(), self.states.iter().map(|s| s.json()).collect()); }
    if let Some(id) = &self.id { m.insert("_id".into(), json!(id)); }
    if v == 3 {
      match &self.contents.body { Body::Json(v) => { m.insert("contents".into(), v.clone()); } Body::Text(s) => { m.insert("contents".into(), json!(s)); } _ => () }
      let mut meta: Map<String, Value> = self.contents.meta.iter().cloned().collect();
      if let Some(t) = self.contents.body.ctype() { meta.insert("contentType".into(), json!(t)); }
      m.insert("metadata".into(), Value::Object(meta));
      return Value::Object(m)
    }
    if self.pending { m.insert("pending".into(), json!(true)); }
    if let Some(t) = &self.transport { m.insert("transport".into(), json!(t)); }
    if self.sync {
      m.insert("type".into(), json!("Synchronous/Messages"));
      let one = |p: &Part| { let mut o = Map::new(); p.put(&mut o); Value::Object(o) };
      m.insert("request".into(), one(&self.request));
      let mut l = vec![one(&self.contents)];
      if let Some(p) = &self.more { l.push(one(p)); }
      m.insert("response".into(), Value::Array(l));
    } else { m.insert("type".into(), json!("Asynchronous/Messages")); self.contents.put(&mut m); }
    Value::Object(m)
  }
  /// What the provider answers, and what of it does not match.
  fn answer(&self) -> ((u16, Vec<(String, Vec<u8>)>, Vec<u8>), Vec<Off>, Vec<String>) {
    if self.did.fault > 0 || self.did.status >= 400 { return ((self.did.status, vec![], vec![]), vec![Off::Failed], vec![]) }
    let (mut off, mut keys) = (vec![], vec![]);
    let mut meta = self.contents.meta.clone();
    if let (Some((at, how)), false) = (self.did.meta, meta.is_empty()) {
      let at = at % meta.len();
      off.push(Off::Header); keys.push(meta[at].0.clone());
      if how == 0 { meta.remove(at); } else { meta[at].1 = json!("something else"); }
    }
    if self.did.extra_meta { meta.push(("further".into(), json!(["a"]))); }
    let mut body = self.contents.body.clone();
    match (&mut body, self.did.body) {
      (Body::Json(v), Some((at, how))) => {
        let o = v.as_object_mut().unwrap();
        let k = o.keys().nth(at % o.len()).unwrap().clone();
        off.push(Off::Body);
        match how { 0 => { o.remove(&k); } 1 | 2 => { o.insert(k, json!({"not": "that"})); } _ => body = Body::Missing }
      }
      (Body::Text(s), Some((_, how))) => { off.push(Off::Body); if how < 3 { s.push('!') } else { body = Body::Missing } }
      _ => ()
    }
    if let (Body::Json(v), true) = (&mut body, self.did.extra_field) { v.as_object_mut().unwrap().insert("further field".into(), json!(1)); }
    let mut h: Vec<(String, Vec<u8>)> = vec![];
    if let Some(t) = self.contents.body.ctype() { h.push(("Content-Type".into(), t.into())); }
    if !meta.is_empty() { h.push((["Pact-Message-Metadata", "pact-message-metadata", "PACT-MESSAGE-METADATA"][self.did.header].into(), base64::engine::general_purpose::STANDARD.encode(Value::Object(meta.into_iter().collect()).to_string()).into_bytes())); }
    off.sort();
    ((self.did.status, h, body.bytes().unwrap_or_default()), off, keys)
  }
}
impl MDoc {
  fn json(&self) -> Value {
    let l: Vec<Value> = self.items.iter().map(|i| i.json(self.v)).collect();
    json!({"consumer": {"name": self.consumer}, "provider": {"name": "p"}, (if self.v == 3 { "messages" } else { "interactions" }): l, "metadata": {"pactSpecification": {"version": if self.v == 3 { "3.0.0" } else { "4.0" }}}})
  }
}
fn judge_request(s: &Sent, m: &Msg, target: &(String, Option<u16>, String), set: &Setup) -> R {
  ensure_eq!(s.method.as_str(), "POST", "method");
  ensure_eq!((s.url.scheme().to_string(), s.url.port_or_known_default()), (target.0.clone(), Some(target.1.unwrap_or(if target.0 == "https" { 443 } else { 80 }))), "where it goes");
  let base = target.2.trim_end_matches('/');
  let filter = set.filter.as_ref().and_then(|f| f.1.clone()).unwrap_or_default();
  let path = format!("{}{}", base, filter);
  ensure_eq!(s.url.path(), if path.is_empty() { "/" } else { path.as_str() }, "path");
  for (k, v) in &set.custom { ensure_eq!(s.headers.get_all(k).iter().map(|x| String::from_utf8_lossy(x.as_bytes()).to_string()).collect_vec(), vec![v.clone()], "custom header {}", k); }
  if !set.custom.iter().any(|c| c.0.eq_ignore_ascii_case("content-type")) { ensure_eq!(s.headers.get("content-type").map(|v| v.as_bytes().to_vec()), Some(b"application/json".to_vec()), "content type"); }
  let b: Value = serde_json::from_slice(s.body.as_ref().ok_or("no body")?).map_err(|e| e.to_string())?;
  ensure_eq!(b["description"], json!(m.desc), "description in the request");
  let states = b["providerStates"].as_array().cloned().unwrap_or_default();
  ensure_eq!(states.iter().map(|s| (s["name"].clone(), s.get("params").cloned().unwrap_or(json!({})))).collect_vec(), m.states.iter().map(|s| (json!(s.name), Value::Object(s.params.iter().cloned().collect()))).collect_vec(), "provider states in the request");
  if m.sync {
    let r = &b["request"];
    match m.request.contents() { Some(c) => for k in ["content", "contentType", "encoded"] { ensure_eq!(r["contents"][k], c[k], "{} of the request message", k); }, None => ensure!(r.get("contents").map(|c| c["content"].is_null() || c["content"] == json!("")).unwrap_or(true), "contents {}", r) }
    ensure_eq!(r.get("metadata").cloned().unwrap_or(json!({})), m.request.meta(), "metadata of the request message");
  } else { ensure!(b.get("request").is_none(), "a request is sent: {}", b); }
  Ok(())
}

pub fn p48(h: &mut H) {
  h.check("messages", 25000, "one message passes and one fails", || (mdoc(), setup()), |(d, set), c| {
    let answers = d.items.iter().map(|m| m.answer()).collect_vec();
    let (script, faults) = (answers.iter().map(|a| a.0.clone()).collect_vec(), d.items.iter().map(|m| m.did.fault).collect_vec());
    let host = Host::new("h", move |n, _| match (script.get(n), faults.get(n)) {
      (Some(_), Some(1)) => Reply::Refuse, (Some(a), Some(2)) => Reply::Cut(a.0, a.1.clone()),
      (Some(a), _) => Reply::Response(a.0, a.1.clone(), a.2.clone().into()), _ => Reply::Response(599, vec![], Default::default())
    });
    let mut run = Run::new(&host.name, vec![PactSource::String(d.json().to_string())]);
    set.apply(&mut run);
    let r = run.go()?;
    consistent(&r)?;
    let sent = host.sent();
    ensure_eq!(sent.len(), d.items.len(), "requests");
    ensure_eq!(r.interaction_results.len(), d.items.len(), "results");
    let (mut pass, mut fail) = (0, 0);
    for (((m, (_, off, keys)), got), s) in d.items.iter().zip(&answers).zip(&r.interaction_results).zip(&sent) {
      let target = set.target(m.transport.as_deref(), if m.sync { &["message", "sync-message"] } else { &["message", "async-message"] });
      judge_request(s, m, &target, set).map_err(|e| format!("'{}', sent {:?}: {}", m.desc, s, e))?;
      ensure_eq!((got.interaction_description.clone(), got.interaction_id.clone(), got.pending), (m.desc.clone(), m.id.clone(), m.pending), "the result");
      match &got.result {
        Ok(()) => { pass += 1; ensure!(off.is_empty(), "'{}' passes although {:?} {:?} do not match", m.desc, off, keys); }
        Err(MismatchResult::Error(e, id)) => { fail += 1; ensure!(*off == [Off::Failed], "'{}': the error '{}', expected {:?}", m.desc, e, off); ensure_eq!(*id, m.id, "id of the error"); }
        Err(MismatchResult::Mismatches { mismatches, expected, interaction_id, .. }) => {
          fail += 1;
          let mut kinds = mismatches.iter().map(|m| match m { Mismatch::MetadataMismatch { .. } => Off::Header, Mismatch::BodyMismatch { .. } | Mismatch::BodyTypeMismatch { .. } => Off::Body, _ => Off::Status }).collect_vec();
          kinds.sort(); kinds.dedup();
          ensure_eq!(kinds, *off, "'{}': what does not match, in {:?}", m.desc, mismatches);
          let got = mismatches.iter().filter_map(|m| match m { Mismatch::MetadataMismatch { key, .. } => Some(key.clone()), _ => None }).collect_vec();
          ensure_eq!(got, *keys, "'{}': metadata that does not match", m.desc);
          ensure_eq!((expected.description(), interaction_id.clone()), (m.desc.clone(), m.id.clone()), "expected message");
        }
      }
    }
    let bodies = r.output.iter().filter(|l| *l == "      has a matching body (FAILED)").count();
    ensure_eq!(bodies, answers.iter().filter(|a| a.1.contains(&Off::Body)).count(), "bodies written as failed: {:?}", r.output);
    let metadata = r.output.iter().filter(|l| l.starts_with("        \"") && l.ends_with("(FAILED)")).count();
    ensure_eq!(metadata, answers.iter().map(|a| a.2.len()).sum::<usize>(), "metadata written as failed: {:?}", r.output);
    c.nontrivial(pass > 0 && fail > 0);
    c.label(format!("V{}", d.v)); c.label_if(d.items.iter().any(|i| i.sync), "synchronous"); c.label_if(d.items.iter().any(|i| i.more.is_some()), "two responses");
    c.label_if(d.items.iter().any(|i| i.transport.is_some()), "own transport");
    Ok(())
  });
}
