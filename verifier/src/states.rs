//! P44 provider state changes, P45 which interactions are verified.
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use itertools::Itertools;
use pact_models::provider_states::ProviderState;
use pact_verifier::callback_executors::{ProviderStateError, ProviderStateExecutor};
use pact_verifier::{FilterInfo, MismatchResult};
use proptest::prelude::*;
use pvfw::{ensure, ensure_eq, H, R};
use reqwest::{Reply, Sent};
use serde_json::{json, Value};
use crate::common::*;
use crate::http_check::{consistent, injected, source, values};

/// What the state change handler answers to one call.
#[derive(Debug, Clone)]
struct Handler { broken: usize, forever: bool, last: u16, unreachable: bool, body: u8 }
fn handler() -> B<Handler> {
  let body = 0u8..6;
  prop_oneof![
    9 => (prop_oneof![4 => Just(0usize), 1 => 1usize..4], prop::sample::select(vec![200u16, 201, 204, 299]), body.clone()).prop_map(|(broken, last, body)| Handler { broken, forever: false, last, unreachable: false, body }),
    1 => (prop_oneof![2 => Just(0usize), 1 => 1usize..3], prop::sample::select(vec![400u16, 404, 301, 422, 499]), body.clone()).prop_map(|(broken, last, body)| Handler { broken, forever: false, last, unreachable: false, body }),
    1 => Just(Handler { broken: 0, forever: true, last: 503, unreachable: false, body: 0 }),
    1 => Just(Handler { broken: 0, forever: false, last: 200, unreachable: true, body: 0 })
  ].boxed()
}
impl Handler {
  fn reply(&self) -> Reply {
    if self.unreachable { return Reply::Refuse }
    let (t, b): (&str, &str) = match self.body {
      0 => ("", ""), 1 => ("application/json", "{\"p\": 1}"), 2 => ("application/json; charset=utf-8", "[1, 2]"), 3 => ("text/plain", "{\"p\": 1}"), 4 => ("application/json", "{not JSON"), _ => ("not a content type", "{}")
    };
    Reply::Response(self.last, if t.is_empty() { vec![] } else { vec![("Content-Type".into(), t.into())] }, b.to_string().into())
  }
}
#[derive(Debug, Clone)]
struct Story { doc: Doc, acts: Vec<bool>, handlers: Vec<Handler>, retries: u8, teardown: bool, in_body: bool, url: Option<u8> }
fn story() -> B<Story> {
  (doc(3), prop::collection::vec(prop::bool::weighted(0.8), 3), prop::collection::vec(handler(), 18), 0u8..5, any::<bool>(), any::<bool>(), prop::option::weighted(0.9, 0u8..4))
    .prop_map(|(doc, acts, mut handlers, retries, teardown, in_body, url)| {
      // a handler that recovers does so within the number of attempts every reading of `retries` allows
      for h in &mut handlers { h.broken = h.broken.min((retries as usize).max(1) - 1); }
      Story { doc, acts, handlers, retries, teardown, in_body, url }
    }).boxed()
}
#[derive(Debug, Clone)]
enum Step { State { name: String, params: Vec<(String, Value)>, setup: bool, attempts: usize }, Request(usize) }

fn is_state(s: &Sent) -> bool { s.url.path().contains("_states") }
fn judge_state(s: &Sent, name: &str, params: &[(String, Value)], setup: bool, in_body: bool) -> R {
  let action = if setup { "setup" } else { "teardown" };
  ensure_eq!(s.method.as_str(), "POST", "method");
  let query: Vec<(String, String)> = s.url.query_pairs().map(|(k, v)| (k.to_string(), v.to_string())).filter(|(k, _)| k != "own").sorted().collect();
  if in_body {
    let b = s.body.clone().ok_or("no body")?;
    ensure_eq!(serde_json::from_slice::<Value>(&b).map_err(|e| e.to_string())?, json!({"state": name, "action": action, "params": params.iter().cloned().collect::<serde_json::Map<_, _>>()}), "body");
    ensure_eq!(s.headers.get("content-type").map(|v| v.as_bytes().to_vec()), Some(b"application/json".to_vec()), "content type");
    ensure_eq!(query, vec![], "query");
  } else {
    let mut want: Vec<(String, String)> = vec![("state".into(), name.into()), ("action".into(), action.into())];
    want.extend(params.iter().map(|(k, v)| (k.clone(), v.as_str().map(|s| s.to_string()).unwrap_or(v.to_string()))));
    want.sort();
    ensure_eq!(query, want, "query");
    ensure!(s.body.as_ref().map(|b| b.is_empty()).unwrap_or(true), "a body was sent: {:?}", s.body);
  }
  Ok(())
}

/// A state change callback implemented by the user.
#[derive(Debug)]
struct Own { calls: Mutex<Vec<(Option<String>, String, Vec<(String, Value)>, bool)>>, fails: Vec<u8>, teardown: bool }
#[async_trait::async_trait]
impl ProviderStateExecutor for Own {
  async fn call(self: Arc<Self>, id: Option<String>, state: &ProviderState, setup: bool, _: Option<&reqwest::Client>) -> anyhow::Result<HashMap<String, Value>> {
    let n = { let mut c = self.calls.lock().unwrap(); c.push((id.clone(), state.name.clone(), state.params.iter().map(|(k, v)| (k.clone(), v.clone())).sorted_by(|a, b| a.0.cmp(&b.0)).collect(), setup)); c.len() - 1 };
    match self.fails.get(n) { Some(1) => Err(anyhow::anyhow!("it failed")), Some(2) => Err(ProviderStateError { description: "it failed".into(), interaction_id: id }.into()), _ => Ok(HashMap::new()) }
  }
  fn teardown(&self) -> bool { self.teardown }
}

pub fn p44(h: &mut H) {
  h.check("calls", 20000, "an interaction with two states or a handler that is asked again", story, |s, c| {
    // what has to happen
    let (mut steps, mut verdicts) = (vec![], vec![]);
    let mut used = 0;
    let retries = s.retries as usize;
    for (n, i) in s.doc.items.iter().enumerate() {
      let mut states: Vec<(String, Vec<(String, Value)>)> = i.states(s.doc.v).into_iter().map(|s| (s.name, s.params)).collect();
      if states.is_empty() { states.push((String::new(), vec![])); }
      let mut run = |setup: bool, steps: &mut Vec<Step>| {
        let mut ok = true;
        if s.url.is_none() { return true }
        for (name, params) in &states {
          let h = &s.handlers[used]; used += 1;
          let attempts = if h.forever { retries.max(1) } else { h.broken + 1 };
          steps.push(Step::State { name: name.clone(), params: params.clone(), setup, attempts });
          ok &= !h.forever && !h.unreachable && (200..300).contains(&h.last);
        }
        ok
      };
      if !run(true, &mut steps) { verdicts.push(Err(Some("setup"))); continue }
      steps.push(Step::Request(n));
      let matches = s.acts[n];
      let torn = !s.teardown || run(false, &mut steps);
      verdicts.push(if !torn { Err(Some("teardown")) } else if !matches { Err(None) } else { Ok(()) });
    }
    // what the handler and the provider do
    let state = Arc::new(Mutex::new((0usize, 0usize, 0usize))); // call, attempt, interaction
    let (handlers, requests) = (s.handlers.clone(), steps.iter().filter_map(|s| match s { Step::Request(n) => Some(*n), _ => None }).collect_vec());
    let (items, acts, attempts) = (s.doc.items.clone(), s.acts.clone(), retries.max(1));
    let host = Host::new("h", move |_, sent| {
      let mut st = state.lock().unwrap_or_else(|e| e.into_inner());
      if is_state(sent) {
        let h = handlers.get(st.0).cloned().unwrap_or(Handler { broken: 0, forever: false, last: 200, unreachable: false, body: 0 });
        if h.forever { st.1 += 1; if st.1 >= attempts { st.0 += 1; st.1 = 0; } return Reply::Response(503, vec![], Default::default()) }
        step(&h, &mut st)
      } else {
        let n = requests.get(st.2).copied().unwrap_or(0); st.2 += 1;
        let mut a = items.get(n).map(|i| i.rs.clone()).unwrap_or(Rs { status: 200, headers: vec![], body: Body::Missing, like: false });
        if !acts.get(n).copied().unwrap_or(true) { a.status = 599; }
        reply(&Act { extra_header: false, extra_field: false, split: false, status: None, header: None, body: None, fault: 0 }.answer(&a).reply)
      }
    });
    let mut run = Run::new(&host.name, vec![source(&s.doc)]);
    run.states.state_change_url = s.url.map(|u| format!("http://{}{}", host.name, ["/_states", "/_states/", "/a/_states", "/_states?own=1"][u as usize]));
    run.states.reties = s.retries; run.states.state_change_teardown = s.teardown; run.states.state_change_body = s.in_body;
    let r = run.go()?;
    consistent(&r)?;
    // the log against the script
    let sent = host.sent();
    let mut at = 0;
    for step in &steps {
      match step {
        Step::Request(n) => { ensure!(at < sent.len() && !is_state(&sent[at]), "the request of '{}' expected as call {}: {}", s.doc.items[*n].desc, at, show(&sent)); ensure_eq!(sent[at].method.as_str(), s.doc.items[*n].rq.method, "method of call {}", at); at += 1; }
        Step::State { name, params, setup, attempts } => {
          let mut count = 0;
          while count < *attempts && at < sent.len() && is_state(&sent[at]) && judge_state(&sent[at], name, params, *setup, s.in_body).is_ok() { at += 1; count += 1; }
          if count < *attempts && at < sent.len() && is_state(&sent[at]) { judge_state(&sent[at], name, params, *setup, s.in_body).map_err(|e| format!("call {}: {}", at, e))?; }
          ensure!(count >= *attempts, "{} call(s) of the state '{}' (setup: {}) before call {}, expected at least {}: {}", count, name, setup, at, *attempts, show(&sent));
        }
      }
    }
    ensure_eq!(at, sent.len(), "number of calls: {}", show(&sent));
    if let Some(3) = s.url { ensure!(sent.iter().filter(|s| is_state(s)).all(|s| s.url.query_pairs().any(|(k, v)| k == "own" && v == "1")), "the query of the state change URL is lost"); }
    ensure_eq!(r.interaction_results.len(), verdicts.len(), "results");
    for ((i, v), got) in s.doc.items.iter().zip(&verdicts).zip(&r.interaction_results) {
      match (v, &got.result) {
        (Ok(()), Ok(())) => (),
        (Err(None), Err(MismatchResult::Mismatches { .. })) => (),
        (Err(Some(what)), Err(MismatchResult::Error(e, id))) => { ensure!(e.contains(&format!("{} state change handlers has failed", what)), "'{}': the error is '{}'", i.desc, e); ensure_eq!(*id, i.id, "id of the error"); }
        (v, got) => return Err(format!("'{}': expected {:?}, got {:?}; {}", i.desc, v, got, show(&sent)))
      }
    }
    c.nontrivial(s.url.is_some() && (s.doc.items.iter().any(|i| i.states(s.doc.v).len() > 1) || s.handlers[..used].iter().any(|h| h.forever || h.broken > 0)));
    c.label_if(verdicts.iter().any(|v| *v == Err(Some("setup"))), "setup fails"); c.label_if(verdicts.iter().any(|v| *v == Err(Some("teardown"))), "teardown fails");
    c.label_if(s.in_body, "in the body"); c.label_if(!s.in_body, "in the query"); c.label_if(s.url.is_none(), "no handler");
    c.label_if(s.handlers[..used].iter().any(|h| h.forever), "never recovers"); c.label_if(s.handlers[..used].iter().any(|h| h.broken > 0 && !h.forever), "recovers");
    Ok(())
  });
  h.check("callbacks", 5000, "at least three calls", || (doc(3), prop::collection::vec(prop_oneof![8 => Just(0u8), 1 => 1u8..3], 20), any::<bool>()), |(d, fails, teardown), c| {
    let (mut calls, mut verdicts, mut requests) = (vec![], vec![], 0);
    for i in &d.items {
      let mut states: Vec<(String, Vec<(String, Value)>)> = i.states(d.v).into_iter().map(|s| (s.name, s.params.into_iter().sorted_by(|a, b| a.0.cmp(&b.0)).collect())).collect();
      if states.is_empty() { states.push((String::new(), vec![])); }
      let mut all = |setup: bool| states.iter().map(|(n, p)| { calls.push((i.id.clone(), n.clone(), p.clone(), setup)); fails.get(calls.len() - 1).copied().unwrap_or(0) == 0 }).collect_vec().iter().all(|b| *b);
      if !all(true) { verdicts.push(Some("setup")); continue }
      requests += 1;
      verdicts.push(if *teardown && !all(false) { Some("teardown") } else { None });
    }
    let rs = d.items.iter().map(|i| i.rs.clone()).collect_vec();
    let pass = verdicts.iter().enumerate().filter(|(_, v)| **v != Some("setup")).map(|(n, _)| n).collect_vec();
    let host = Host::new("h", move |n, _| reply(&Act { extra_header: false, extra_field: false, split: false, status: None, header: None, body: None, fault: 0 }.answer(&rs[pass[n]]).reply));
    let own = Arc::new(Own { calls: Default::default(), fails: fails.clone(), teardown: *teardown });
    let r = Run::new(&host.name, vec![source(d)]).go_with(&own)?;
    consistent(&r)?;
    ensure_eq!(*own.calls.lock().unwrap(), calls, "calls");
    ensure_eq!(host.sent().len(), requests, "requests");
    for (v, got) in verdicts.iter().zip(&r.interaction_results) {
      match (v, &got.result) {
        (None, Ok(())) => (),
        (Some(w), Err(MismatchResult::Error(e, _))) if e.contains(&format!("{} state change handlers has failed", w)) => (),
        (v, g) => return Err(format!("'{}': expected {:?}, got {:?}", got.description, v, g))
      }
    }
    c.nontrivial(calls.len() > 2);
    c.label_if(verdicts.iter().any(|v| v.is_some()), "a callback fails");
    Ok(())
  });
  h.check("values", 5000, "at least two places of a request get a value", injected, values);
}
fn step(h: &Handler, st: &mut (usize, usize, usize)) -> Reply {
  if st.1 < h.broken { st.1 += 1; return Reply::Response([500, 503, 502][st.1 % 3], vec![], Default::default()) }
  st.0 += 1; st.1 = 0;
  h.reply()
}
fn show(sent: &[Sent]) -> String { sent.iter().map(|s| format!("{} {} {}", s.method, s.url.path(), s.body.as_ref().map(|b| String::from_utf8_lossy(b).to_string()).unwrap_or_else(|| s.url.query().unwrap_or("").to_string()))).join(" | ") }

// ---------------------------------------------------------------- filters
#[derive(Debug, Clone)]
enum Pat { Part(String), Start(String), End(String), Exact(String), Or(String, String), All, Wild(String, String) }
fn text() -> B<String> { "[ab]{1,2}( c)?".boxed() }
fn pat() -> B<Pat> {
  let t = || prop_oneof![3 => "[ab]{1,2}", 1 => text()];
  prop_oneof![3 => t().prop_map(Pat::Part), 1 => t().prop_map(Pat::Start), 1 => t().prop_map(Pat::End), 2 => t().prop_map(Pat::Exact), 1 => (t(), t()).prop_map(|(a, b)| Pat::Or(a, b)), 1 => Just(Pat::All), 1 => (t(), t()).prop_map(|(a, b)| Pat::Wild(a, b))].boxed()
}
impl Pat {
  fn regex(&self) -> String {
    match self { Pat::Part(s) => s.clone(), Pat::Start(s) => format!("^{}", s), Pat::End(s) => format!("{}$", s), Pat::Exact(s) => format!("^{}$", s), Pat::Or(a, b) => format!("{}|^{}$", a, b), Pat::All => ".".into(), Pat::Wild(a, b) => format!("{}.*{}", a, b) }
  }
  fn is(&self, t: &str) -> bool {
    match self {
      Pat::Part(s) => t.contains(s.as_str()), Pat::Start(s) => t.starts_with(s.as_str()), Pat::End(s) => t.ends_with(s.as_str()), Pat::Exact(s) => t == s, Pat::Or(a, b) => t.contains(a.as_str()) || t == b,
      Pat::All => !t.is_empty(), Pat::Wild(a, b) => t.find(a.as_str()).map(|i| t[i + a.len()..].contains(b.as_str())).unwrap_or(false)
    }
  }
}
#[derive(Debug, Clone)]
enum Flt { None, Description(Pat), State(Option<Pat>), Both(Pat, Option<Pat>) }
#[derive(Debug, Clone)]
struct Selection { docs: Vec<Doc>, filter: Flt, consumers: Vec<String>, bad: bool }
fn selection() -> B<Selection> {
  let one = || (text(), prop::collection::vec(text(), 0..3), prop::bool::weighted(0.2)).prop_map(|(desc, states, pending)| Item { desc, states: states.into_iter().map(|name| St { name, params: vec![] }).collect(), pending, key: None, transport: None, id: None, comments: None,
    rq: Rq { method: "GET".into(), path: "/".into(), query: vec![], headers: vec![], body: Body::Missing, generators: None }, rs: Rs { status: 200, headers: vec![], body: Body::Missing, like: false } });
  let consumer = || prop::sample::select(vec!["a", "b", "ab", "A", "a b"]).prop_map(|s| s.to_string());
  let d = (2u8..5, consumer(), prop::collection::vec(one(), 0..5)).prop_map(|(v, consumer, mut items)| {
    for (n, i) in items.iter_mut().enumerate() { i.rq.path = format!("/{}", n); }
    Doc { v, consumer, provider: "p".into(), items: distinct(items) }
  });
  let st = || prop_oneof![3 => pat().prop_map(Some), 1 => Just(None)];
  let f = prop_oneof![1 => Just(Flt::None), 2 => pat().prop_map(Flt::Description), 2 => st().prop_map(Flt::State), 2 => (pat(), st()).prop_map(|(a, b)| Flt::Both(a, b))];
  (prop::collection::vec(d, 1..4), f, prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec(consumer(), 1..3)], prop::bool::weighted(0.1)).prop_map(|(docs, filter, consumers, bad)| Selection { docs, filter, consumers, bad }).boxed()
}
impl Flt {
  fn info(&self) -> FilterInfo {
    let st = |p: &Option<Pat>| p.as_ref().map(|p| p.regex()).unwrap_or_default();
    match self { Flt::None => FilterInfo::None, Flt::Description(p) => FilterInfo::Description(p.regex()), Flt::State(p) => FilterInfo::State(st(p)), Flt::Both(d, p) => FilterInfo::DescriptionAndState(d.regex(), st(p)) }
  }
  fn takes(&self, v: u8, i: &Item) -> bool {
    let states = i.states(v);
    let st = |p: &Option<Pat>| match p { Some(p) => states.iter().any(|s| p.is(&s.name)), None => states.is_empty() };
    match self { Flt::None => true, Flt::Description(p) => p.is(&i.desc), Flt::State(p) => st(p), Flt::Both(d, p) => d.is(&i.desc) && st(p) }
  }
}
pub fn p45(h: &mut H) {
  h.check("filters", 25000, "some interactions are selected and some are not", selection, |s, c| {
    let mut want = vec![];
    for d in &s.docs { if s.consumers.is_empty() || s.consumers.contains(&d.consumer) { for (n, i) in d.items.iter().enumerate() { if s.filter.takes(d.v, i) { want.push((i.full_description(d), format!("/{}", n))); } } } }
    let host = Host::new("h", |_, s| if is_state(s) { Reply::Response(200, vec![], Default::default()) } else { Reply::Response(if s.url.path() == "/0" { 500 } else { 200 }, vec![], Default::default()) });
    let mut sources = s.docs.iter().map(source).collect_vec();
    if s.bad { sources.insert(0, pact_verifier::PactSource::String("[".into())); }
    let mut run = Run::new(&host.name, sources);
    run.filter = s.filter.info(); run.consumers = s.consumers.clone();
    run.states.state_change_url = Some(format!("http://{}/_states", host.name));
    let r = run.go()?;
    consistent(&r)?;
    ensure_eq!(r.interaction_results.iter().map(|i| i.description.clone()).collect_vec(), want.iter().map(|w| w.0.clone()).collect_vec(), "verified interactions, {:?}", s.filter.info());
    let sent = host.sent();
    ensure_eq!(sent.iter().filter(|s| !is_state(s)).map(|s| s.url.path().to_string()).collect_vec(), want.iter().map(|w| w.1.clone()).collect_vec(), "requests, {:?}", s.filter.info());
    let changes: usize = s.docs.iter().filter(|d| s.consumers.is_empty() || s.consumers.contains(&d.consumer)).flat_map(|d| d.items.iter().filter(|i| s.filter.takes(d.v, i)).map(|i| i.states(d.v).len().max(1))).sum();
    ensure_eq!(sent.iter().filter(|s| is_state(s)).count(), changes, "state changes, {:?}", s.filter.info());
    let loads = r.errors.iter().filter(|e| e.0 == "Failed to load pact").count();
    ensure_eq!(loads, s.bad as usize, "pacts that could not be loaded");
    let bad = r.interaction_results.iter().zip(&want).any(|(i, w)| !i.pending && w.1 == "/0");
    ensure_eq!(r.result, !bad && !s.bad, "the overall result");
    let all: usize = s.docs.iter().map(|d| d.items.len()).sum();
    c.nontrivial(!want.is_empty() && want.len() < all);
    c.label(match s.filter { Flt::None => "no filter", Flt::Description(_) => "description", Flt::State(None) => "no state", Flt::State(_) => "state", Flt::Both(_, None) => "description and no state", Flt::Both(..) => "description and state" });
    c.label_if(!s.consumers.is_empty(), "consumers");
    Ok(())
  });
}
