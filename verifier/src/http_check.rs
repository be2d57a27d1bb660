//! P42 verdicts, P43 the requests the provider gets.
use std::collections::HashMap;
use itertools::Itertools;
use pact_matching::Mismatch;
use pact_verifier::verification_result::{VerificationExecutionResult, VerificationMismatchResult};
use pact_verifier::{MismatchResult, PactSource};
use proptest::prelude::*;
use pvfw::{ensure, ensure_eq, Case, H, R};
use serde_json::Value;
use crate::common::*;

pub fn source(d: &Doc) -> PactSource { PactSource::String(d.json().to_string()) }
pub fn kinds(m: &[Mismatch]) -> Vec<Off> {
  let mut k: Vec<Off> = m.iter().map(|m| match m {
    Mismatch::StatusMismatch { .. } => Off::Status, Mismatch::HeaderMismatch { .. } => Off::Header,
    Mismatch::BodyMismatch { .. } | Mismatch::BodyTypeMismatch { .. } => Off::Body, _ => Off::Failed
  }).collect();
  k.sort(); k.dedup();
  k
}
fn judge_one(off: &[Off], names: &[String], got: &VerificationMismatchResult) -> R {
  match got {
    VerificationMismatchResult::Error { error, .. } => ensure!(off == [Off::Failed], "an error ({}) is reported, expected {:?}", error, off),
    VerificationMismatchResult::Mismatches { mismatches, .. } => {
      ensure_eq!(kinds(mismatches), off.to_vec(), "what is reported as different, in {:?}", mismatches);
      let mut got: Vec<String> = mismatches.iter().filter_map(|m| match m { Mismatch::HeaderMismatch { key, .. } => Some(key.to_lowercase()), _ => None }).collect();
      got.sort(); got.dedup();
      let mut want: Vec<String> = names.iter().map(|n| n.to_lowercase()).collect();
      want.sort(); want.dedup();
      ensure_eq!(got, want, "the headers reported as different");
    }
  }
  Ok(())
}
pub fn id_of(r: &VerificationMismatchResult) -> Option<String> {
  match r { VerificationMismatchResult::Mismatches { interaction_id, .. } | VerificationMismatchResult::Error { interaction_id, .. } => interaction_id.clone() }
}
/// The parts of a result agree with each other.
pub fn consistent(r: &VerificationExecutionResult) -> R {
  ensure_eq!(r.result, r.errors.is_empty(), "the overall result, with {} errors", r.errors.len());
  let failed = |p: bool| r.interaction_results.iter().filter(|i| i.pending == p && i.result.is_err()).map(|i| i.description.clone()).collect_vec();
  ensure_eq!(r.errors.iter().map(|e| e.0.clone()).filter(|e| e != "Failed to load pact").collect_vec(), failed(false), "errors and failed interactions");
  ensure_eq!(r.pending_errors.iter().map(|e| e.0.clone()).collect_vec(), failed(true), "pending errors and failed pending interactions");
  let j: Value = r.into();
  ensure_eq!(j["result"], Value::Bool(r.result), "the result as JSON");
  for (k, l) in [("errors", &r.errors), ("pendingErrors", &r.pending_errors)] {
    let list = j[k].as_array().cloned().unwrap_or_default();
    ensure_eq!(list.len(), l.len(), "number of {} as JSON", k);
    for (j, (d, m)) in list.iter().zip(l) {
      ensure_eq!(j["interaction"], Value::String(d.clone()), "interaction of an error as JSON");
      ensure_eq!(j["mismatch"]["interactionId"], Value::String(id_of(m).unwrap_or_default()), "interaction id of an error as JSON");
      match m {
        VerificationMismatchResult::Error { error, .. } => { ensure_eq!(j["mismatch"]["type"], "error", "type"); ensure_eq!(j["mismatch"]["message"], Value::String(error.clone()), "message"); }
        VerificationMismatchResult::Mismatches { mismatches, .. } => { ensure_eq!(j["mismatch"]["type"], "mismatches", "type"); ensure_eq!(j["mismatch"]["mismatches"], Value::Array(mismatches.iter().map(|m| m.to_json()).collect()), "mismatches as JSON"); }
      }
    }
  }
  let out = r.output.join("\n");
  for (n, what) in [(r.errors.len(), "pact failures"), (r.pending_errors.len(), "non-fatal pact failures on pending")] {
    ensure_eq!(out.contains(&format!("There were {} {}", n, what)), n > 0, "'There were {} {}' in the output: {}", n, what, out);
  }
  ensure!(r.output.iter().all(|l| !l.contains("\u{1b}[")), "colours although none were asked for: {:?}", r.output);
  Ok(())
}

#[derive(Debug, Clone)]
struct Verdicts { docs: Vec<(Doc, Vec<Act>)>, bad: Option<usize> }
fn verdicts() -> B<Verdicts> {
  (prop::collection::vec((doc(3), prop::collection::vec(act(), 3)), 1..3), prop::option::weighted(0.1, 0usize..3))
    .prop_flat_map(|(docs, bad)| (Just(docs), Just(bad), prop::option::weighted(0.2, (prop::collection::vec(act(), 3), any::<bool>()))))
    .prop_map(|(mut docs, bad, again)| {
      // another pact with the same interactions
      if let Some((acts, flip)) = again { let mut d = docs[0].0.clone(); if flip { for i in &mut d.items { i.pending = !i.pending; } } docs.push((d, acts)); }
      Verdicts { docs, bad }
    }).boxed()
}

pub fn p42(h: &mut H) {
  h.check("verdicts", 25000, "at least one interaction fails and one passes", verdicts, |v, c| {
    let answers: Vec<Answer> = v.docs.iter().flat_map(|(d, a)| d.items.iter().zip(a).map(|(i, a)| a.answer(&i.rs))).collect();
    let replies = answers.iter().map(|a| a.reply.clone()).collect_vec();
    let host = Host::new("h", move |n, _| replies.get(n).map(reply).unwrap_or(reqwest::Reply::Response(599, vec![], Default::default())));
    let mut sources: Vec<PactSource> = v.docs.iter().map(|(d, _)| source(d)).collect();
    let bad = v.bad.map(|b| b.min(sources.len()));
    if let Some(b) = bad { sources.insert(b, PactSource::String("{\"consumer\": ".into())); }
    let r = Run::new(&host.name, sources).go()?;
    consistent(&r)?;
    ensure_eq!(host.sent().len(), answers.len(), "number of requests to the provider");
    let items = v.docs.iter().flat_map(|(d, _)| d.items.iter().map(move |i| (d, i))).collect_vec();
    ensure_eq!(r.interaction_results.len(), items.len(), "number of results");
    let (mut errors, mut pending) = (r.errors.iter().filter(|e| e.0 != "Failed to load pact"), r.pending_errors.iter());
    let (mut pass, mut fail) = (0, 0);
    for (((d, i), a), got) in items.iter().zip(&answers).zip(&r.interaction_results) {
      let what = format!("interaction '{}'", i.desc);
      let is_pending = d.v == 4 && i.pending;
      ensure_eq!(got.description, i.full_description(d), "{}: description of the result", what);
      ensure_eq!(got.interaction_description, i.desc, "{}: description of the interaction", what);
      ensure_eq!(got.interaction_id, i.id, "{}: id", what);
      if d.v == 4 { if let Some(k) = &i.key { ensure_eq!(got.interaction_key, Some(k.clone()), "{}: key", what); } } else { ensure_eq!(got.interaction_key, None, "{}: key", what); }
      ensure_eq!(got.pending, is_pending, "{}: pending", what);
      match &got.result {
        Ok(()) => { pass += 1; ensure!(a.off.is_empty(), "{} passes although the response differs in {:?}", what, a.off); }
        Err(e) => {
          fail += 1;
          ensure!(!a.off.is_empty(), "{} fails although the response matches: {:?}", what, e);
          let m = if is_pending { pending.next() } else { errors.next() };
          let (d2, m) = m.ok_or("an error is missing")?;
          ensure_eq!(*d2, got.description, "{}: description of the error", what);
          judge_one(&a.off, &a.header_names, m).map_err(|e| format!("{}: {}", what, e))?;
          ensure_eq!(id_of(m), i.id, "{}: id of the error", what);
          ensure_eq!(VerificationMismatchResult::from(e), *m, "{}: the error and the result", what);
          if let MismatchResult::Mismatches { expected, .. } = e { ensure_eq!(expected.description(), i.desc, "{}: expected interaction", what); }
        }
      }
    }
    let unreadable = r.errors.iter().filter(|e| e.0 == "Failed to load pact").count();
    ensure_eq!(unreadable, bad.iter().count(), "pacts that could not be loaded");
    // what is written about each interaction
    for (d, i) in &items {
      let warn = r.output.iter().any(|l| l.starts_with(&format!("  {} (", i.desc)) && (l.ends_with("[PENDING]") == (d.v == 4 && i.pending)));
      ensure!(warn, "the output does not mention '{}' as expected: {:?}", i.desc, r.output);
    }
    let ok_bodies = r.output.iter().filter(|l| *l == "      has a matching body (OK)").count();
    let ko_bodies = r.output.iter().filter(|l| *l == "      has a matching body (FAILED)").count();
    ensure_eq!(ko_bodies, answers.iter().filter(|a| a.off.contains(&Off::Body)).count(), "bodies written as failed: {:?}", r.output);
    ensure_eq!(ok_bodies, answers.iter().filter(|a| !a.off.contains(&Off::Body) && !a.off.contains(&Off::Failed)).count(), "bodies written as OK: {:?}", r.output);
    let ko_status = r.output.iter().filter(|l| l.starts_with("      has status code ") && l.ends_with("(FAILED)")).count();
    ensure_eq!(ko_status, answers.iter().filter(|a| a.off.contains(&Off::Status)).count(), "status codes written as failed: {:?}", r.output);
    let ko_headers = r.output.iter().filter(|l| l.starts_with("        \"") && l.ends_with("(FAILED)")).count();
    ensure_eq!(ko_headers, answers.iter().map(|a| a.header_names.iter().unique().count()).sum::<usize>(), "headers written as failed: {:?}", r.output);
    c.nontrivial(pass > 0 && fail > 0);
    c.label_if(!r.pending_errors.is_empty(), "pending failure");
    c.label_if(r.result, "passed"); c.label_if(bad.is_some(), "unreadable pact");
    c.label_if(items.is_empty(), "no interactions");
    for a in &answers { for o in &a.off { c.label(format!("{:?}", o)); } }
    Ok(())
  });
}


// ---------------------------------------------------------------- the requests
#[derive(Debug, Clone)]
pub struct Setup {
  pub transports: Vec<(String, Option<u16>, Option<String>, Option<String>)>, pub port: Option<u16>, pub path: String, pub protocol: &'static str,
  pub custom: Vec<(String, String)>, pub filter: Option<(Option<(String, String)>, Option<String>)>
}
fn base() -> B<String> { prop_oneof![2 => Just("/".to_string()), 1 => Just("".to_string()), 2 => "(/[a-z]{1,3}){1,2}/?"].boxed() }
pub fn setup() -> B<Setup> {
  let transport = (prop::sample::select(vec!["http", "https", "a", "b", "message"]).prop_map(|s| s.to_string()), prop::option::weighted(0.8, 1u16..9), prop::option::of(base()), prop::option::of(prop::sample::select(vec!["http", "https"]).prop_map(|s| s.to_string())));
  let custom = prop::collection::vec((prop::sample::select(vec!["X-A", "x-b", "X-C", "Authorization", "Cache-Control", "accept", "content-type"]).prop_map(|s| s.to_string()), "[a-z]{1,4}( [a-z]{1,3})?"), 0..3)
    .prop_map(|l| l.into_iter().unique_by(|(k, _)| k.to_lowercase()).collect());
  let filter = (prop::option::of((prop::sample::select(vec!["X-A", "X-Filter"]).prop_map(|s| s.to_string()), "[a-z]{1,4}")), prop::option::of(Just("/filtered".to_string())));
  (prop::collection::vec(transport, 0..4), prop::option::weighted(0.9, 8000u16..8003), base(), prop::sample::select(vec!["http", "https"]), custom, prop::option::weighted(0.3, filter))
    .prop_map(|(transports, port, path, protocol, custom, filter)| Setup { transports, port, path, protocol, custom, filter }).boxed()
}
impl Setup {
  #[allow(deprecated)]
  pub fn apply(&self, r: &mut Run) {
    r.provider.transports = self.transports.iter().map(|(t, p, b, s)| transport(t, *p, b.as_deref(), s.as_deref())).collect();
    r.provider.port = self.port; r.provider.path = self.path.clone(); r.provider.protocol = self.protocol.into();
    r.options.custom_headers = self.custom.iter().cloned().collect();
    r.options.request_filter = self.filter.as_ref().map(|(h, p)| std::sync::Arc::new(Filter { header: h.clone(), path: p.clone() }));
  }
  /// Scheme, port and base path for a kind of interaction: its own transport, or the first of those named.
  pub fn target(&self, transport: Option<&str>, default: &[&str]) -> (String, Option<u16>, String) {
    let t = match transport { Some(t) => self.transports.iter().find(|(n, ..)| n == t), None => self.transports.iter().find(|(n, ..)| default.contains(&n.as_str())) };
    match t {
      Some((_, p, b, s)) => (s.clone().unwrap_or("http".into()), *p, b.clone().unwrap_or_default()),
      None => (self.protocol.into(), self.port, self.path.clone())
    }
  }
}
pub fn join(base: &str, path: &str) -> String {
  let b = base.trim_end_matches('/');
  if path == "/" || path.is_empty() { if b.is_empty() { "/".into() } else { b.into() } } else { format!("{}{}", b, path) }
}
fn unescape(s: &str) -> String { percent_encoding::percent_decode_str(s).decode_utf8_lossy().to_string() }
/// What must have been sent for a request.
pub fn judge_sent(s: &reqwest::Sent, rq: &Rq, target: &(String, Option<u16>, String), set: &Setup) -> R {
  let mut rq = rq.clone();
  let own = rq.body.ctype().map(|t| ("Content-Type".to_string(), vec![t.to_string()]));
  rq.headers.extend(own);
  if let Some((h, p)) = &set.filter {
    if let Some((k, v)) = h { rq.headers.retain(|(n, _)| n != k); rq.headers.push((k.clone(), vec![v.clone()])); }
    if let Some(p) = p { rq.path = format!("{}{}", rq.path.trim_end_matches('/'), p); }
  }
  ensure_eq!(s.method.as_str(), rq.method, "method");
  ensure_eq!(s.url.scheme(), target.0, "scheme");
  let known = if target.0 == "https" { 443 } else { 80 };
  ensure_eq!(s.url.port_or_known_default(), Some(target.1.unwrap_or(known)), "port");
  ensure_eq!(unescape(s.url.path()), unescape(&join(&target.2, &rq.path)), "path");
  let sent: Vec<(String, String)> = s.url.query_pairs().map(|(k, v)| (k.to_string(), v.to_string())).collect();
  let mut want: Vec<(String, String)> = rq.query.iter().flat_map(|(k, l)| l.iter().map(|v| (k.clone(), v.clone().unwrap_or_default()))).collect();
  want.sort_by(|a, b| a.0.cmp(&b.0));
  ensure_eq!(sent, want, "query");
  let mut headers: Vec<(String, Vec<String>)> = vec![];
  for (k, l) in &rq.headers {
    if set.custom.iter().any(|(c, _)| c.eq_ignore_ascii_case(k)) { continue }
    let k = k.to_lowercase();
    match headers.iter_mut().find(|(o, _)| *o == k) { Some((_, o)) => o.extend(l.iter().cloned()), None => headers.push((k, l.clone())) }
  }
  for (k, v) in &set.custom { headers.push((k.to_lowercase(), vec![v.clone()])); }
  if !headers.iter().any(|(k, _)| k == "accept") { headers.push(("accept".into(), vec!["*/*".into()])); }
  for (_, l) in &mut headers { *l = l.iter().flat_map(|v| v.split(", ").map(|s| s.to_string()).collect::<Vec<_>>()).sorted().collect(); }
  headers.sort();
  let got: Vec<(String, Vec<String>)> = s.headers.keys().map(|k| (k.to_string(), s.headers.get_all(k).iter().flat_map(|v| String::from_utf8_lossy(v.as_bytes()).split(", ").map(|s| s.to_string()).collect::<Vec<_>>()).sorted().collect())).sorted().collect();
  ensure_eq!(got, headers, "headers");
  match (&s.body, &rq.body) {
    (Some(b), Body::Json(v)) => ensure_eq!(serde_json::from_slice::<Value>(b).ok(), Some(v.clone()), "JSON body {:?}", b),
    (b, o) => ensure_eq!(b.as_ref().map(|b| b.to_vec()), o.bytes(), "body")
  }
  Ok(())
}

fn requests() -> B<(Doc, Setup, Vec<Option<String>>)> {
  (doc(3), setup(), prop::collection::vec(prop::option::weighted(0.3, prop::sample::select(vec!["http", "https", "a", "b"]).prop_map(|s| s.to_string())), 3))
    .prop_map(|(mut d, s, t)| { if d.v == 4 { for (i, t) in d.items.iter_mut().zip(&t) { i.transport = t.clone(); } } (d, s, t) }).boxed()
}

/// Values for ProviderState generators: where they go, the name they are looked up by; the parameters of each state and what its handler returns.
#[derive(Debug, Clone)]
pub struct Injected { v: u8, states: Vec<(Vec<(String, Value)>, Vec<(String, Value)>)>, path: Option<usize>, query: Option<usize>, header: Option<usize>, body: Option<usize>, after: bool }
pub fn injected() -> B<Injected> {
  let value = || prop_oneof![2 => (0i64..999).prop_map(Value::from), 3 => "[a-z]{1,4}".prop_map(Value::from)];
  let map = move || prop::collection::vec((prop::sample::select(vec!["a", "b", "c", "id"]).prop_map(|s| s.to_string()), value()), 0..4).prop_map(|l| l.into_iter().unique_by(|(k, _)| k.clone()).collect::<Vec<_>>());
  let at = || prop::option::weighted(0.6, 0usize..4);
  (3u8..5, prop::collection::vec((map(), map()), 1..4), at(), at(), at(), at(), any::<bool>()).prop_map(|(v, states, path, query, header, body, after)| Injected { v, states, path, query, header, body, after }).boxed()
}
/// The request has the parameters of the states, replaced by those returned; those of a later state replace those of an earlier one.
/// An interaction after it, without states, has none of them.
pub fn values(x: &Injected, c: &mut Case) -> R {
  let keys = ["a", "b", "c", "id"];
  let mut all: HashMap<String, Value> = HashMap::new();
  for (p, _) in &x.states { all.extend(p.iter().cloned()); }
  for (_, r) in &x.states { all.extend(r.iter().cloned()); }
  let show = |v: &Value| v.as_str().map(|s| s.to_string()).unwrap_or(v.to_string());
  let generator = |k: usize| serde_json::json!({"type": "ProviderState", "expression": format!("${{{}}}", keys[k]), "dataType": "STRING"});
  let mut rq = Rq { method: "POST".into(), path: "/path".into(), query: vec![("q".into(), vec![Some("1".into())])], headers: vec![("X-H".into(), vec!["1".into()])], body: Body::Json(serde_json::json!({"k": "1", "l": ["2"]})), generators: None };
  let mut g = serde_json::Map::new();
  if let Some(k) = x.path { g.insert("path".into(), generator(k)); }
  if let Some(k) = x.query { g.insert("query".into(), serde_json::json!({"q": generator(k)})); }
  if let Some(k) = x.header { g.insert("header".into(), serde_json::json!({"X-H": generator(k)})); }
  if let Some(k) = x.body { g.insert("body".into(), serde_json::json!({"$.k": generator(k)})); }
  rq.generators = Some(Value::Object(g));
  let states = x.states.iter().enumerate().map(|(n, (p, _))| St { name: format!("s{}", n), params: p.clone() }).collect_vec();
  let item = |desc: &str, states: Vec<St>| Item { desc: desc.into(), states, rq: rq.clone(), rs: Rs { status: 200, headers: vec![], body: Body::Missing, like: false }, pending: false, key: None, transport: None, id: None, comments: None };
  let mut items = vec![item("d", states)];
  if x.after { items.push(item("e", vec![])); }
  let d = Doc { v: x.v, consumer: "c".into(), provider: "p".into(), items };
  let returned: Vec<Value> = x.states.iter().map(|(_, r)| Value::Object(r.iter().cloned().collect())).collect();
  let host = Host::new("h", |_, _| reqwest::Reply::Response(200, vec![], Default::default()));
  let state = Host::new("s", move |n, _| match returned.get(n) { Some(r) => reqwest::Reply::Response(200, vec![("Content-Type".into(), b"application/json".to_vec())], r.to_string().into()), None => reqwest::Reply::Response(200, vec![], Default::default()) });
  let mut run = Run::new(&host.name, vec![source(&d)]);
  run.states.state_change_url = Some(format!("http://{}/s", state.name));
  let r = run.go()?;
  ensure!(r.result, "the verification failed: {:?}", r.errors);
  let mut places = 0;
  let mut want = rq.clone();
  let mut value = |k: Option<usize>| k.and_then(|k| all.get(keys[k])).map(|v| { places += 1; show(v) });
  if let Some(v) = value(x.path) { want.path = v; }
  if let Some(v) = value(x.query) { want.query[0].1[0] = Some(v); }
  if let Some(v) = value(x.header) { want.headers[0].1[0] = v; }
  if let Some(v) = value(x.body) { want.body = Body::Json(serde_json::json!({"k": v, "l": ["2"]})); }
  want.path = format!("/{}", want.path.trim_start_matches('/'));
  let plain = Setup { transports: vec![], port: Some(8080), path: "/".into(), protocol: "http", custom: vec![], filter: None };
  let sent = host.sent();
  ensure_eq!(sent.len(), d.items.len(), "requests");
  judge_sent(&sent[0], &want, &plain.target(None, &[]), &plain).map_err(|e| format!("sent {:?}: {}", sent[0], e))?;
  if x.after { judge_sent(&sent[1], &rq, &plain.target(None, &[]), &plain).map_err(|e| format!("the interaction without states, sent {:?}: {}", sent[1], e))?; }
  c.nontrivial(places >= 2);
  c.label_if(x.states.iter().any(|(p, r)| r.iter().any(|(k, _)| p.iter().any(|(p, _)| p == k))), "returned value beside a parameter");
  c.label_if(x.states.iter().enumerate().any(|(n, (_, r))| x.states[..n].iter().any(|(_, o)| o.iter().any(|(k, _)| r.iter().any(|(l, _)| l == k)))), "value returned twice");
  Ok(())
}

pub fn p43(h: &mut H) {
  h.check("requests", 20000, "an interaction with a query, headers and a body", requests, |(d, set, _), c| {
    let host = Host::new("h", |_, _| reqwest::Reply::Response(200, vec![], Default::default()));
    let mut run = Run::new(&host.name, vec![source(d)]);
    set.apply(&mut run);
    let r = run.go()?;
    consistent(&r)?;
    let sent = host.sent();
    ensure_eq!(sent.len(), d.items.len(), "number of requests");
    for (s, i) in sent.iter().zip(&d.items) {
      let target = set.target(i.transport.as_deref(), &["http"]);
      let mut rq = i.rq.clone();
      if d.v < 3 { for (_, l) in &mut rq.query { for v in l { if v.is_none() { *v = Some(String::new()); } } } }
      judge_sent(s, &rq, &target, set).map_err(|e| format!("interaction '{}', sent {:?}: {}", i.desc, s, e))?;
      c.nontrivial(!i.rq.query.is_empty() && !i.rq.headers.is_empty() && i.rq.body != Body::Missing);
      c.label_if(i.transport.is_some(), "transport of the interaction");
    }
    c.label_if(set.filter.is_some(), "request filter"); c.label_if(!set.custom.is_empty(), "custom headers"); c.label(format!("V{}", d.v));
    Ok(())
  });
  h.check("values_from_states", 6000, "at least two places get a value", injected, values);
}
