crate = "matching"
prop = "P37"
needs = 'a parameter with the same value twice in a row'
breaks = 'equal neighbouring values of a form parameter count as one'
edits = [('rust/pact_matching/src/form_urlencoded.rs', '          let actual_params = super::group_by(a, |(k, _)| k.clone())\n            .iter()\n            .map(|(k, v)| (k.clone(), v.iter().map(|(_, v)| Some(v.clone())).collect_vec()))', '          let actual_params = super::group_by(a, |(k, _)| k.clone())\n            .iter()\n            .map(|(k, v)| (k.clone(), v.iter().map(|(_, v)| Some(v.clone())).dedup_by(|a, b| a == b && v.len() > 2).collect_vec()))')]
demo = r"""
use std::collections::HashMap;
use pact_matching::{match_request, match_response, Mismatch};
use pact_models::{v4::{http_parts::{HttpRequest, HttpResponse}, pact::V4Pact, synch_http::SynchronousHttp}, bodies::OptionalBody, matchingrules::{MatchingRule, RuleLogic}, path_exp::DocPath, pact::Pact, interaction::Interaction};
fn run<T>(f: impl std::future::Future<Output = T>) -> T { tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f) }
fn request(t: &str, b: &str) -> HttpRequest {
  HttpRequest { headers: Some(HashMap::from([("Content-Type".to_string(), vec![t.to_string()])])), body: OptionalBody::Present(b.to_string().into(), None, None), ..HttpRequest::default() }
}
fn response(t: &str, b: &str) -> HttpResponse {
  HttpResponse { headers: Some(HashMap::from([("Content-Type".to_string(), vec![t.to_string()])])), body: OptionalBody::Present(b.to_string().into(), None, None), ..HttpResponse::default() }
}
fn matched(e: &HttpRequest, a: &HttpRequest) -> Vec<Mismatch> {
  let p = V4Pact::default().boxed(); let i = SynchronousHttp::default().boxed();
  run(match_request(e.clone(), a.clone(), &p, &i)).unwrap().mismatches()
}
fn matched_response(e: &HttpResponse, a: &HttpResponse) -> Vec<Mismatch> {
  let p = V4Pact::default().boxed(); let i = SynchronousHttp::default().boxed();
  run(match_response(e.clone(), a.clone(), &p, &i))
}

fn main() {
  let m = |e, a| matched(&request("application/x-www-form-urlencoded", e), &request("application/x-www-form-urlencoded", a)).len();
  assert_eq!(m("a=1&b=2&a=2", "a=1&a=2&b=2"), 0);
  assert_ne!(m("a=1&a=2", "a=1&a=2&a=3"), 0);
  assert_eq!(m("a=1&a=1&a=2", "a=1&a=1&a=2"), 0);
}
"""
