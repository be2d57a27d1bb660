crate = "matching"
prop = "P39"
needs = 'a path with several rules of which more than one does not hold'
breaks = 'only the first mismatch of a path is in the list of mismatches'
edits = [('rust/pact_matching/src/lib.rs', '    if let Some(ref mismatches) = self.path {\n      m.extend_from_slice(mismatches.as_slice());', '    if let Some(ref mismatches) = self.path {\n      m.extend(mismatches.first().cloned());')]
demo = r"""
use std::collections::HashMap;
use pact_matching::{match_request, match_response, Mismatch};
use pact_models::{v4::{http_parts::{HttpRequest, HttpResponse}, pact::V4Pact, synch_http::SynchronousHttp}, bodies::OptionalBody, matchingrules::{MatchingRule, RuleLogic}, path_exp::DocPath, pact::Pact, interaction::Interaction};
fn run<T>(f: impl std::future::Future<Output = T>) -> T { tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f) }
fn request(t: &str, b: &str) -> HttpRequest {
  HttpRequest { headers: Some(HashMap::from([("Content-Type".to_string(), vec![t.to_string()])])), body: OptionalBody::Present(b.to_string().into(), None, None), ..HttpRequest::default() }
}
fn response(t: &str, b: &str) -> HttpResponse {
  HttpResponse { headers: Some(HashMap::from([("Content-Type".to_string(), vec![t.to_string()])])), body: OptionalBody::Present(b.to_string().into(), None, None), ..HttpResponse::default() }
}
fn matched(e: &HttpRequest, a: &HttpRequest) -> Vec<Mismatch> {
  let p = V4Pact::default().boxed(); let i = SynchronousHttp::default().boxed();
  run(match_request(e.clone(), a.clone(), &p, &i)).unwrap().mismatches()
}
fn matched_response(e: &HttpResponse, a: &HttpResponse) -> Vec<Mismatch> {
  let p = V4Pact::default().boxed(); let i = SynchronousHttp::default().boxed();
  run(match_response(e.clone(), a.clone(), &p, &i))
}

fn main() {
  let mut e = HttpRequest { path: "/abc".into(), ..HttpRequest::default() };
  for r in ["/b.*", "/c.*"] { e.matching_rules.add_category("path").add_rule(DocPath::empty(), MatchingRule::Regex(r.into()), RuleLogic::And); }
  assert_eq!(matched(&e, &HttpRequest { path: "/b".into(), ..HttpRequest::default() }).len(), 1);
  assert_eq!(matched(&e, &HttpRequest { path: "/d".into(), ..HttpRequest::default() }).len(), 2);
}
"""
