//! P46 where pacts come from, P47 publishing the results.
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use base64::Engine;
use itertools::Itertools;
use pact_matching::Mismatch;
use pact_models::http_utils::HttpAuth;
use pact_verifier::metrics::VerificationMetrics;
use pact_verifier::verification_result::{VerificationExecutionResult, VerificationInteractionResult};
use pact_verifier::{ConsumerVersionSelector, MismatchResult, PactSource, PublishOptions};
use proptest::prelude::*;
use pvfw::{ensure, ensure_eq, Case, H, R};
use reqwest::Reply;
use serde_json::{json, Value};
use crate::common::*;
use crate::http_check::consistent;

pub fn encode(s: &str) -> String { s.bytes().map(|b| if b.is_ascii_alphanumeric() || b"-_.~".contains(&b) { (b as char).to_string() } else { format!("%{:02X}", b) }).collect() }

#[derive(Debug, Clone)]
struct BDoc { doc: Doc, acts: Vec<Act>, fault: u8, busy: bool, pending: bool, notices: Vec<(&'static str, String)>, properties: bool, publish_link: bool }
#[derive(Debug, Clone)]
struct Dynamic { pending: bool, wip: Option<String>, tags: Vec<String>, branch: Option<String>, selectors: Vec<Vec<(usize, String)>> }
#[derive(Debug, Clone)]
struct Publish { version: Option<String>, build: Option<String>, tags: Vec<String>, branch: Option<String>, metrics: bool, refused: bool }
#[derive(Debug, Clone)]
struct Story { context: &'static str, provider: String, absolute: bool, query: bool, auth: u8, docs: Vec<BDoc>, dynamic: Option<Dynamic>, publish: Option<Publish>, ctype: usize, none_is_error: bool, index: u8, gone: bool }

const WHEN: [&str; 6] = ["before_verification", "after_verification:success_true_published_true", "after_verification:success_true_published_false", "after_verification:success_false_published_true", "after_verification:success_false_published_false", "some other time"];
const SELECTORS: [&str; 12] = ["consumer", "tag", "fallbackTag", "environment", "branch", "fallbackBranch", "latest", "deployedOrReleased", "deployed", "released", "mainBranch", "matchingBranch"];

fn story() -> B<Story> {
  let bdoc = || (doc(3), prop::collection::vec(act(), 3), prop_oneof![9 => Just(0u8), 1 => 1u8..5], prop::bool::weighted(0.1), prop::bool::weighted(0.3), prop::collection::vec((prop::sample::select(WHEN.to_vec()), "[a-z]{3,6} notice"), 0..5), prop::bool::weighted(0.8), prop::bool::weighted(0.9))
    .prop_map(|(mut doc, acts, fault, busy, pending, notices, properties, publish_link)| {
      for (n, i) in doc.items.iter_mut().enumerate() { i.id = i.id.take().map(|id| format!("{}{}", id, n)); }
      BDoc { doc, acts, fault, busy, pending, notices, properties, publish_link }
    });
  let word = || prop_oneof![3 => token().prop_map(|t| if t.chars().all(|c| c == '.') { "dots".to_string() } else { t }), 1 => "[a-z]/[a-z]", 1 => "[a-z] [é&?#%+]"];
  let selector = prop::collection::vec((0usize..12, word()), 1..4).prop_map(|l| l.into_iter().unique_by(|x| x.0).collect::<Vec<_>>());
  let dynamic = (any::<bool>(), prop::option::of("20[0-9]{2}-0[1-9]-1[0-9]"), prop::collection::vec(word(), 0..3), prop::option::of(word()), prop::collection::vec(selector, 0..3)).prop_map(|(pending, wip, tags, branch, selectors)| Dynamic { pending, wip, tags, branch, selectors });
  let publish = (prop::option::weighted(0.95, word()), prop::option::of(Just("http://build/1".to_string())), prop::collection::vec(word(), 0..3), prop::option::of(word()), any::<bool>(), prop::bool::weighted(0.1)).prop_map(|(version, build, tags, branch, metrics, refused)| Publish { version, build, tags, branch, metrics, refused });
  (prop::sample::select(vec!["", "/", "/broker", "/a/broker/"]), word(), any::<bool>(), prop::bool::weighted(0.3), 0u8..5, prop::collection::vec(bdoc(), 0..4), prop::option::of(dynamic), prop::option::weighted(0.6, publish), (0usize..3, prop::bool::weighted(0.7), prop_oneof![12 => Just(0u8), 1 => 1u8..6], prop::bool::weighted(0.05)))
    .prop_map(|(context, provider, absolute, query, auth, docs, dynamic, publish, (ctype, none_is_error, index, gone))| {
      let mut s = Story { context, provider, absolute, query, auth, docs, dynamic, publish, ctype, none_is_error, index, gone };
      // a pact that is listed and gone is only judged where both readings agree
      if !none_is_error { for d in &mut s.docs { if d.fault == 4 { d.fault = 1 } } }
      s
    }).boxed()
}

pub fn auth(n: u8) -> Option<HttpAuth> {
  match n { 0 => None, 1 => Some(HttpAuth::None), 2 => Some(HttpAuth::User("me".into(), Some("pass:word".into()))), 3 => Some(HttpAuth::User("me".into(), None)), _ => Some(HttpAuth::Token("a.token".into())) }
}
pub fn authorization(n: u8) -> Option<String> {
  let basic = |s: &str| Some(format!("Basic {}", base64::engine::general_purpose::STANDARD.encode(s)));
  match n { 0 | 1 => None, 2 => basic("me:pass:word"), 3 => basic("me:"), _ => Some("Bearer a.token".into()) }
}

/// What a broker answers: (method, path and query) to (status, content type, body).
type Pages = HashMap<(String, String), (u16, &'static str, String)>;
struct Broker { host: Host, answered: Arc<Mutex<Vec<(String, String, Option<Vec<u8>>)>>> }
impl Broker {
  fn new(pages: impl FnOnce(&str) -> (Pages, Vec<String>, Option<String>)) -> Broker {
    let answered: Arc<Mutex<Vec<(String, String, Option<Vec<u8>>)>>> = Default::default();
    let log = answered.clone();
    let holder: Arc<Mutex<(Pages, Vec<String>, Option<String>)>> = Default::default();
    let shared = holder.clone();
    let busy: Mutex<HashMap<String, usize>> = Default::default();
    let host = Host::new("b", move |_, s| {
      let g = shared.lock().unwrap();
      let at = format!("{}{}", s.url.path(), s.url.query().map(|q| format!("?{}", q)).unwrap_or_default());
      if g.1.contains(&at) { let mut b = busy.lock().unwrap(); let n = b.entry(at.clone()).or_insert(0); *n += 1; if *n < 3 { return Reply::Response([500, 503][*n - 1], vec![], Default::default()) } }
      log.lock().unwrap().push((s.method.to_string(), at.clone(), s.body.as_ref().map(|b| b.to_vec())));
      if g.2.as_ref() == Some(&at) { return Reply::Refuse }
      match g.0.get(&(s.method.to_string(), at)) {
        Some((status, t, b)) => Reply::Response(*status, if t.is_empty() { vec![] } else { vec![("Content-Type".into(), t.as_bytes().to_vec())] }, b.clone().into()),
        None => Reply::Response(404, vec![("Content-Type".into(), b"application/json".to_vec())], "{\"error\": \"no such page\"}".into())
      }
    });
    *holder.lock().unwrap() = pages(&host.name);
    Broker { host, answered }
  }
}

pub fn mismatch_json(m: &Mismatch) -> Value {
  match m {
    Mismatch::StatusMismatch { mismatch, .. } => json!({"attribute": "status", "description": mismatch}),
    Mismatch::HeaderMismatch { key, mismatch, .. } => json!({"attribute": "header", "identifier": key, "description": mismatch}),
    Mismatch::BodyTypeMismatch { expected, actual, .. } => json!({"attribute": "body", "identifier": "$", "description": format!("Expected body type of '{}' but received '{}'", expected, actual)}),
    Mismatch::BodyMismatch { path, mismatch, .. } => json!({"attribute": "body", "identifier": path, "description": mismatch}),
    Mismatch::MetadataMismatch { key, mismatch, .. } => json!({"attribute": "metadata", "identifier": key, "description": mismatch}),
    o => json!(format!("{:?}", o))
  }
}
/// The document published for these results.
fn judge_payload(b: &Value, results: &[&VerificationInteractionResult], p: &Publish) -> R {
  let ok = results.iter().all(|r| r.result.is_ok());
  ensure_eq!(b["success"], Value::Bool(ok), "success");
  ensure_eq!(b["providerApplicationVersion"], json!(p.version), "provider version");
  ensure_eq!(b.get("buildUrl").cloned(), p.build.as_ref().map(|b| json!(b)), "build URL");
  ensure_eq!(b["verifiedBy"]["implementation"], "Pact-Rust", "verified by");
  ensure!(b["verifiedBy"]["version"].is_string(), "version of the verifier");
  let client = json!({"testFramework": "frame", "name": "app", "version": "9.8"});
  ensure_eq!(b["verifiedBy"].get("clientLanguage"), if p.metrics { Some(&client) } else { None }, "client");
  let list = b["testResults"].as_array().ok_or("no test results")?;
  if ok {
    let ids = results.iter().filter_map(|r| r.interaction_id.clone()).map(|id| json!({"interactionId": id, "success": true})).collect_vec();
    ensure_eq!(*list, ids, "results of a successful verification");
  } else {
    for r in results {
      let Some(id) = &r.interaction_id else { continue };
      let found = list.iter().filter(|e| e["interactionId"] == json!(id)).collect_vec();
      ensure_eq!(found.len(), 1, "entries for interaction {}: {}", id, b);
      let e = found[0];
      ensure_eq!(e["interactionDescription"], json!(r.interaction_description), "description for {}", id);
      ensure_eq!(e["success"], Value::Bool(r.result.is_ok()), "success of {}", id);
      let (mut mismatches, mut exceptions) = (vec![], vec![]);
      match &r.result { Ok(()) => (), Err(MismatchResult::Mismatches { mismatches: m, .. }) => mismatches = m.iter().map(mismatch_json).collect(), Err(MismatchResult::Error(e, _)) => exceptions.push(json!({"message": e})) }
      ensure_eq!(e.get("mismatches").cloned(), if mismatches.is_empty() { None } else { Some(Value::Array(mismatches)) }, "mismatches of {}", id);
      ensure_eq!(e.get("exceptions").cloned(), if exceptions.is_empty() { None } else { Some(Value::Array(exceptions)) }, "exceptions of {}", id);
    }
    let nameless = results.iter().filter(|r| r.interaction_id.is_none()).collect_vec();
    let rest = list.iter().filter(|e| e["interactionId"] == json!("")).collect_vec();
    ensure_eq!(rest.iter().any(|e| e["success"] == json!(false)), nameless.iter().any(|r| r.result.is_err()), "failures without an id: {}", b);
    ensure_eq!(list.len(), rest.len() + results.len() - nameless.len(), "entries: {}", b);
  }
  Ok(())
}

struct Outcome { r: VerificationExecutionResult, broker: Vec<(String, String, Option<Vec<u8>>)>, url: String }
fn play(s: &Story) -> Result<Outcome, String> {
  let replies = s.docs.iter().filter(|d| d.fault == 0).flat_map(|d| d.doc.items.iter().zip(&d.acts).map(|(i, a)| a.answer(&i.rs).reply)).collect_vec();
  let count = replies.len();
  let reached = s.index == 0 && !s.gone;
  let provider = Host::new("h", move |n, _| replies.get(n).map(reply).unwrap_or(Reply::Response(599, vec![], Default::default())));
  let t = ["application/hal+json", "application/json", "application/hal+json;charset=utf-8"][s.ctype];
  let broker = Broker::new(|name| {
    let root = format!("http://{}", name);
    let base = s.context.trim_end_matches('/').to_string();
    let link = |p: &str| format!("{}{}{}", if s.absolute { root.as_str() } else { "" }, base, p);
    let at = |p: &str| format!("{}{}", base, p);
    let q = if s.query { "?q=1&r=a%20b" } else { "" };
    let mut pages: Pages = HashMap::new();
    let mut busy = vec![];
    let index_at = if s.context.is_empty() { "/".to_string() } else { s.context.to_string() };
    let index = json!({"_links": {
      "pb:latest-provider-pacts": {"href": link(&format!("/pacts/provider/{{provider}}/latest{}", q)), "templated": true, "title": "latest"},
      "pb:provider-pacts-for-verification": {"href": link(&format!("/pacts/provider/{{provider}}/for-verification{}", q)), "templated": true}}});
    let page = |b: Value| (200u16, t, b.to_string());
    pages.insert(("GET".into(), index_at.clone()), match s.index {
      0 | 5 => page(index), 1 => (500, t, "{}".into()), 2 => (401, t, "{}".into()), 3 => page(json!({"hello": "you"})), _ => (200, "text/html", "<p/>".into())
    });
    let name_in_path = encode(&s.provider);
    let mut list = vec![];
    for (n, d) in s.docs.iter().enumerate() {
      let p = format!("/pacts/{}{}", n, q);
      list.push(json!({"href": link(&p), "title": "a pact", "name": d.doc.consumer}));
      if d.busy { busy.push(at(&p)); }
      let mut j = d.doc.json();
      let mut links = json!({"self": {"href": link(&p)}, "pb:provider": {"href": link(&format!("/provider/{}{}", n, q))}});
      if d.publish_link { links["pb:publish-verification-results"] = json!({"href": link(&format!("/results/{}{}", n, q))}); }
      j["_links"] = links;
      pages.insert(("GET".into(), at(&p)), match d.fault { 0 => page(j), 1 => (500, t, "{}".into()), 2 => (200, "text/html", j.to_string()), 3 => (200, t, "{\"consumer\": ".into()), _ => (404, t, "{}".into()) });
      pages.insert(("GET".into(), at(&format!("/provider/{}{}", n, q))), page(json!({"_links": {
        "pb:version-tag": {"href": link(&format!("/versions/{{version}}/tags/{{tag}}/{}{}", n, q)), "templated": true},
        "pb:branch-version": {"href": link(&format!("/branches/{{branch}}/versions/{{version}}/{}{}", n, q)), "templated": true}}})));
      if let Some(p) = &s.publish {
        let v = p.version.clone().unwrap_or_default();
        for tag in &p.tags { pages.insert(("PUT".into(), at(&format!("/versions/{}/tags/{}/{}{}", encode(&v), encode(tag), n, q))), page(json!({}))); }
        if let Some(b) = &p.branch { pages.insert(("PUT".into(), at(&format!("/branches/{}/versions/{}/{}{}", encode(b), encode(&v), n, q))), page(json!({}))); }
        pages.insert(("POST".into(), at(&format!("/results/{}{}", n, q))), if p.refused { (400, t, "{\"errors\": [\"no\"]}".into()) } else { page(json!({})) });
      }
    }
    let latest = at(&format!("/pacts/provider/{}/latest{}", name_in_path, q));
    let fv = at(&format!("/pacts/provider/{}/for-verification{}", name_in_path, q));
    if !s.gone {
      pages.insert(("GET".into(), latest), page(json!({"_links": {"self": {"href": "http://elsewhere/"}, "pacts": list}})));
      pages.insert(("GET".into(), fv), page(json!({"_links": {"self": {"href": link(&format!("/selected{}", q))}}})));
      let pacts = s.docs.iter().enumerate().map(|(n, d)| {
        let mut e = json!({"shortDescription": "latest", "_links": {"self": {"href": link(&format!("/pacts/{}{}", n, q)), "name": "a pact"}}});
        if d.properties { e["verificationProperties"] = json!({"notices": d.notices.iter().map(|(w, t)| json!({"when": w, "text": t})).collect::<Vec<_>>()}); if d.pending { e["verificationProperties"]["pending"] = json!(true); } }
        e
      }).collect_vec();
      pages.insert(("POST".into(), at(&format!("/selected{}", q))), page(json!({"_embedded": {"pacts": pacts}})));
    }
    (pages, busy, if s.index == 5 { Some(index_at) } else { None })
  });
  let url = format!("http://{}{}", broker.host.name, s.context);
  let source = match &s.dynamic {
    None => PactSource::BrokerUrl(s.provider.clone(), url.clone(), auth(s.auth), vec![]),
    Some(d) => PactSource::BrokerWithDynamicConfiguration { provider_name: s.provider.clone(), broker_url: url.clone(), enable_pending: d.pending, include_wip_pacts_since: d.wip.clone(), provider_tags: d.tags.clone(), provider_branch: d.branch.clone(),
      selectors: d.selectors.iter().map(|l| serde_json::from_value::<ConsumerVersionSelector>(selector_json(l)).unwrap()).collect(), auth: auth(s.auth), links: vec![] }
  };
  let options = s.publish.as_ref().map(|p| PublishOptions { provider_version: p.version.clone(), build_url: p.build.clone(), provider_tags: p.tags.clone(), provider_branch: p.branch.clone() });
  let mut run = Run::new(&provider.name, vec![source]);
  run.publish = options.as_ref();
  run.options.no_pacts_is_error = s.none_is_error;
  if let Some(p) = &s.publish { if p.metrics { run.metrics = Some(VerificationMetrics { test_framework: "frame".into(), app_name: "app".into(), app_version: "9.8".into() }); } }
  let r = run.go()?;
  consistent(&r)?;
  ensure_eq!(provider.sent().len(), if reached { count } else { 0 }, "requests to the provider");
  for p in provider.sent() { ensure!(p.headers.get("authorization").is_none(), "the provider gets the authorization for the broker"); }
  for p in broker.host.sent() { ensure_eq!(p.headers.get("authorization").map(|v| String::from_utf8_lossy(v.as_bytes()).to_string()), authorization(s.auth), "authorization with {} {}", p.method, p.url); }
  let broker = broker.answered.lock().unwrap().clone();
  Ok(Outcome { r, broker, url })
}
fn selector_json(l: &[(usize, String)]) -> Value { Value::Object(l.iter().map(|(n, w)| (SELECTORS[*n].to_string(), if *n < 6 { json!(w) } else { json!(w.len() % 2 == 0) })).collect()) }

impl Story {
  fn at(&self, p: &str) -> String { format!("{}{}{}", self.context.trim_end_matches('/'), p, if self.query { "?q=1&r=a%20b" } else { "" }) }
  fn pending(&self, d: &BDoc, i: &Item) -> bool { (self.dynamic.is_some() && d.properties && d.pending) || (d.doc.v == 4 && i.pending) }
}
/// The results of each pact that could be loaded, by its index.
fn split<'a>(s: &Story, r: &'a VerificationExecutionResult) -> Vec<(usize, Vec<&'a VerificationInteractionResult>)> {
  let mut left = r.interaction_results.iter();
  s.docs.iter().enumerate().filter(|(_, d)| d.fault == 0).map(|(n, d)| (n, left.by_ref().take(d.doc.items.len()).collect())).collect()
}

fn fetching(s: &Story, c: &mut Case) -> R {
  let o = play(s)?;
  let (r, name) = (&o.r, encode(&s.provider));
  let index = if s.context.is_empty() { "/".to_string() } else { s.context.to_string() };
  let fetch = o.broker.iter().filter(|(m, p, _)| m == "GET" && !p.contains("/provider/") || p.contains("/pacts/") || p.contains("/selected")).cloned().collect_vec();
  let loads = r.errors.iter().filter(|e| e.0 == "Failed to load pact").count();
  c.label(if s.dynamic.is_some() { "selected pacts" } else { "latest pacts" });
  if s.index > 0 {
    ensure!(fetch.iter().all(|f| f.1 == index), "requests to a broker that does not work: {:?}", fetch);
    ensure_eq!(loads, 1, "errors for a broker that does not work");
    c.label("broken broker"); c.nontrivial(true);
    return Ok(())
  }
  // the requests
  let mut want: Vec<(String, String)> = vec![("GET".into(), index)];
  let list = s.at(&format!("/pacts/provider/{}/{}", name, if s.dynamic.is_some() { "for-verification" } else { "latest" }));
  want.push(("GET".into(), list));
  if s.dynamic.is_some() && !s.gone { want.push(("POST".into(), s.at("/selected"))); }
  if !s.gone { for (n, d) in s.docs.iter().enumerate() { for _ in 0..(if d.fault == 1 { if d.busy { 1 } else { 3 } } else { 1 }) { want.push(("GET".into(), s.at(&format!("/pacts/{}", n)))); } } }
  ensure_eq!(fetch.iter().map(|(m, p, _)| (m.clone(), p.clone())).collect_vec(), want, "requests to the broker {}", o.url);
  if let (Some(d), false) = (&s.dynamic, s.gone) {
    let body: Value = serde_json::from_slice(o.broker.iter().find(|(m, p, _)| m == "POST" && p.contains("/selected")).and_then(|x| x.2.as_ref()).ok_or("no body")?).map_err(|e| e.to_string())?;
    let mut want = json!({"includePendingStatus": d.pending, "consumerVersionSelectors": d.selectors.iter().map(|l| selector_json(l)).collect::<Vec<_>>()});
    if !d.tags.is_empty() { want["providerVersionTags"] = json!(d.tags); }
    if let Some(w) = &d.wip { want["includeWipPactsSince"] = json!(w); }
    if let Some(w) = &d.branch { want["providerVersionBranch"] = json!(w); }
    ensure_eq!(body, want, "the selection sent to the broker");
  }
  // what was verified
  if s.gone || s.docs.is_empty() {
    ensure_eq!(loads, s.none_is_error as usize, "errors when there are no pacts");
    ensure!(r.interaction_results.is_empty(), "results without pacts");
    c.label("no pacts");
    return Ok(())
  }
  ensure_eq!(loads, s.docs.iter().filter(|d| d.fault > 0).count(), "pacts that could not be loaded: {:?}", r.errors);
  let parts = split(s, r);
  ensure_eq!(r.interaction_results.len(), parts.iter().map(|p| p.1.len()).sum::<usize>(), "results");
  let (mut notices, mut expected, mut fail, mut pass) = (vec![], vec![], 0, 0);
  for (n, results) in &parts {
    let d = &s.docs[*n];
    ensure_eq!(results.len(), d.doc.items.len(), "results of pact {}", n);
    let mut failed = false;
    for ((i, a), got) in d.doc.items.iter().zip(&d.acts).zip(results) {
      ensure_eq!(got.description, i.full_description(&d.doc), "description");
      ensure_eq!(got.interaction_id, i.id, "id of '{}'", i.desc);
      ensure_eq!(got.pending, s.pending(d, i), "pending of '{}'", i.desc);
      let off = a.answer(&i.rs).off;
      ensure_eq!(got.result.is_err(), !off.is_empty(), "'{}' fails", i.desc);
      failed |= !off.is_empty();
      if off.is_empty() { pass += 1 } else { fail += 1 }
    }
    if s.dynamic.is_some() && d.properties {
      notices.extend(d.notices.iter().map(|(w, t)| HashMap::from([("when".to_string(), w.to_string()), ("text".to_string(), t.clone())])));
      let after = format!("after_verification:success_{}_published_{}", !failed, s.publish.is_some());
      for (w, t) in &d.notices { if *w == "before_verification" { expected.push(t.clone()) } }
      if !d.doc.items.is_empty() { for (w, t) in &d.notices { if *w == after { expected.push(t.clone()) } } }
    }
  }
  ensure_eq!(r.notices, notices, "notices of the result");
  ensure_eq!(r.output.iter().filter(|l| l.ends_with(" notice")).cloned().collect_vec(), expected, "notices that are displayed");
  c.nontrivial(s.docs.len() > 1 && pass + fail > 1);
  c.label_if(!expected.is_empty(), "notices"); c.label_if(s.docs.iter().any(|d| d.fault > 0), "a pact that is not there"); c.label_if(s.docs.iter().any(|d| d.busy), "asked again");
  c.label_if(!r.pending_errors.is_empty(), "pending failure"); c.label_if(s.query, "links with a query"); c.label_if(s.context.len() > 1, "broker with a context path");
  Ok(())
}

fn publishing(s: &Story, c: &mut Case) -> R {
  let o = play(s)?;
  let publish: Vec<(String, String, Option<Vec<u8>>)> = o.broker.iter().filter(|(_, p, _)| (p.contains("/provider/") && !p.contains("/pacts/")) || p.contains("/versions/") || p.contains("/results/")).cloned().collect();
  if s.index > 0 || s.gone { ensure_eq!(publish, vec![], "results published without pacts"); return Ok(()) }
  let mut at = 0;
  let mut published = 0;
  for (n, results) in split(s, &o.r) {
    let d = &s.docs[n];
    let Some(p) = &s.publish else { continue };
    let Some(version) = &p.version else { continue };
    if results.is_empty() { continue }
    let mut want: Vec<(&str, String)> = vec![];
    if let Some(b) = &p.branch { want.push(("GET", s.at(&format!("/provider/{}", n)))); want.push(("PUT", s.at(&format!("/branches/{}/versions/{}/{}", encode(b), encode(version), n)))); }
    if !p.tags.is_empty() { want.push(("GET", s.at(&format!("/provider/{}", n)))); for t in &p.tags { want.push(("PUT", s.at(&format!("/versions/{}/tags/{}/{}", encode(version), encode(t), n)))); } }
    if d.publish_link { want.push(("POST", s.at(&format!("/results/{}", n)))); }
    for (m, path) in want {
      let (gm, gp, body) = publish.get(at).ok_or_else(|| format!("{} {} is missing: {:?}", m, path, o.broker.iter().map(|b| format!("{} {}", b.0, b.1)).collect_vec()))?;
      ensure_eq!((gm.as_str(), gp.clone()), (m, path), "call {} for publishing the results of pact {}", at, n);
      at += 1;
      if m == "PUT" { ensure_eq!(body.clone(), Some(b"{}".to_vec()), "body of {}", gp); }
      if m == "POST" {
        let b: Value = serde_json::from_slice(body.as_ref().ok_or("no body")?).map_err(|e| e.to_string())?;
        judge_payload(&b, &results, p).map_err(|e| format!("published {}: {}", b, e))?;
        published += 1;
        c.label_if(results.iter().any(|r| r.result.is_err()), "failed result"); c.label_if(results.iter().all(|r| r.result.is_ok()), "successful result");
      }
    }
  }
  ensure_eq!(at, publish.len(), "calls for publishing: {:?}", publish.iter().map(|b| format!("{} {}", b.0, b.1)).collect_vec());
  let bad = s.docs.iter().any(|d| d.fault > 0 || d.doc.items.iter().zip(&d.acts).any(|(i, a)| !s.pending(d, i) && !a.answer(&i.rs).off.is_empty())) || (s.docs.is_empty() && s.none_is_error);
  ensure_eq!(o.r.result, !bad, "the overall result when results are published");
  c.nontrivial(published > 0);
  if let Some(p) = &s.publish { c.label_if(p.refused && published > 0, "the broker refuses the results"); c.label_if(p.branch.is_some(), "branch"); c.label_if(!p.tags.is_empty(), "tags"); c.label_if(p.version.is_none(), "no version"); }
  Ok(())
}

#[derive(Debug, Clone)]
struct Places { docs: Vec<(Doc, u8, u8)>, provider: String, auth: u8, bad: u8, publish: bool }
fn places() -> B<Places> {
  let d = (doc(2), 0u8..6, prop_oneof![5 => Just(0u8), 1 => 1u8..3]);
  (prop::collection::vec(d, 1..6), prop::sample::select(vec!["p", "my provider"]).prop_map(|s| s.to_string()), 0u8..5, prop_oneof![4 => Just(0u8), 1 => 1u8..4], any::<bool>())
    .prop_map(|(mut docs, provider, auth, bad, publish)| {
      for (n, d) in docs.iter_mut().enumerate() { d.0.consumer = format!("{}{}", d.0.consumer, n); d.0.provider = provider.clone(); if d.2 == 1 && (1..3).contains(&d.1) { d.0.provider = "another".into(); } }
      Places { docs, provider, auth, bad, publish }
    }).boxed()
}
/// Files, directories, addresses: every pact is verified, in the order of the sources.
fn local(s: &Places, c: &mut Case) -> R {
  let replies = Host::new("h", |_, _| Reply::Response(200, vec![], Default::default()));
  let dir = std::env::temp_dir().join(format!("pv-{}-{}", std::process::id(), replies.name));
  let web_docs = s.docs.clone();
  let web = Host::new("w", move |_, sent| {
    if sent.method != "GET" { return Reply::Response(200, vec![("Content-Type".into(), b"application/json".to_vec())], "{}".into()) }
    let n: usize = sent.url.path().trim_start_matches("/web/").parse().unwrap_or(99);
    match web_docs.get(n) {
      Some((_, _, 2)) => Reply::Response(404, vec![], "gone".into()),
      Some((d, k, _)) => { let mut j = d.json(); if *k == 4 || *k == 5 { j["_links"] = json!({"pb:publish-verification-results": {"href": format!("http://elsewhere/results/{}", n)}}); } Reply::Response(200, vec![("Content-Type".into(), b"application/json".to_vec())], j.to_string().into()) }
      None => Reply::Response(500, vec![], Default::default())
    }
  });
  // kinds: 0 file, 1 directory, 2 nested directory, 3 address, 4 address with a link for results, 5 webhook
  let put = |p: &std::path::Path, d: &Doc, fault: u8| { std::fs::create_dir_all(p.parent().unwrap()).unwrap(); std::fs::write(p, if fault == 2 { "{not JSON".to_string() } else { d.json().to_string() }).unwrap(); };
  let mut sources = vec![];
  let (mut in_dir, mut want) = (vec![], vec![]);
  for (n, (d, kind, fault)) in s.docs.iter().enumerate() {
    match kind {
      0 => { let p = dir.join(format!("files/{}.json", n)); put(&p, d, *fault); sources.push(PactSource::File(p.to_string_lossy().to_string())); }
      1 | 2 => { put(&dir.join(if *kind == 1 { format!("all/{}.json", n) } else { format!("all/sub {}/deep/{}.json", n % 2, n) }), d, *fault); in_dir.push((d.clone(), *fault)); continue }
      3 | 4 => sources.push(PactSource::URL(format!("http://{}/web/{}", web.name, n), auth(s.auth))),
      _ => sources.push(PactSource::WebhookCallbackUrl { pact_url: format!("http://{}/web/{}", web.name, n), broker_url: format!("http://{}", web.name), auth: auth(s.auth) })
    }
    want.push((d.clone(), *fault));
  }
  match s.bad { 1 => sources.push(PactSource::File(dir.join("no such file.json").to_string_lossy().to_string())), 2 => sources.push(PactSource::Dir(dir.join("no such directory").to_string_lossy().to_string())), 3 => sources.push(PactSource::Unknown), _ => () }
  if !in_dir.is_empty() { sources.push(PactSource::Dir(dir.join("all").to_string_lossy().to_string())); }
  let publish = PublishOptions { provider_version: Some("1".into()), ..PublishOptions::default() };
  let mut run = Run::new(&replies.name, sources);
  run.provider.name = s.provider.clone();
  if s.publish { run.publish = Some(&publish); }
  let r = run.go();
  let _ = std::fs::remove_dir_all(&dir);
  let r = r?;
  consistent(&r)?;
  let titles = |l: &[(Doc, u8)]| l.iter().filter(|(_, f)| *f != 2).flat_map(|(d, _)| d.items.iter().map(|i| i.full_description(d)).collect_vec()).collect_vec();
  let first = titles(&want);
  let mut dirs = titles(&in_dir.iter().filter(|(d, _)| d.provider == s.provider).cloned().collect_vec());
  dirs.sort();
  let got = r.interaction_results.iter().map(|i| i.description.clone()).collect_vec();
  ensure_eq!(got.iter().take(first.len()).cloned().collect_vec(), first, "verified interactions");
  ensure_eq!(got.iter().skip(first.len()).cloned().sorted().collect_vec(), dirs, "verified interactions of the directory");
  let loads = r.errors.iter().filter(|e| e.0 == "Failed to load pact").count();
  ensure_eq!(loads, want.iter().chain(&in_dir).filter(|(_, f)| *f == 2).count() + (s.bad > 0) as usize, "pacts that could not be loaded: {:?}", r.errors);
  let sent = web.sent();
  for w in &sent { ensure_eq!(w.headers.get("authorization").map(|v| String::from_utf8_lossy(v.as_bytes()).to_string()), authorization(s.auth), "authorization with {} {}", w.method, w.url); }
  let posts = s.docs.iter().enumerate().filter(|(_, (d, k, f))| s.publish && *k >= 4 && *f != 2 && !d.items.is_empty()).map(|(n, _)| format!("/results/{}", n)).collect_vec();
  ensure_eq!(sent.iter().filter(|w| w.method == "POST").map(|w| w.url.path().to_string()).collect_vec(), posts, "results published");
  let kinds = s.docs.iter().map(|d| d.1).unique().count();
  c.nontrivial(kinds > 1 && !got.is_empty());
  c.label_if(!dirs.is_empty(), "directory"); c.label_if(!posts.is_empty(), "published"); c.label_if(loads > 0, "not loaded");
  Ok(())
}

pub fn p46(h: &mut H) {
  h.check("broker", 12000, "several pacts with several interactions, or a broken broker", story, fetching);
  h.check("places", 6000, "sources of different kinds", places, local);
}
pub fn p47(h: &mut H) {
  h.check("publishing", 15000, "results are published", story, publishing);
}
