crate = "matching"
prop = "P35"
needs = 'an expected and an actual content type that differ but share their suffix'
breaks = 'two different vendor types with the same suffix are treated as the same type'
edits = [('rust/pact_matching/src/lib.rs', '    expected_content_type.is_equivalent_to(&actual_content_type.base_type()) ||', '    expected_content_type.is_equivalent_to(&actual_content_type.base_type()) ||\n    (expected_content_type.suffix.is_some() && expected_content_type.base_type() == actual_content_type.base_type()) ||')]
demo = r"""
use std::collections::HashMap;
use pact_matching::{match_request, match_response, Mismatch};
use pact_models::{v4::{http_parts::{HttpRequest, HttpResponse}, pact::V4Pact, synch_http::SynchronousHttp}, bodies::OptionalBody, matchingrules::{MatchingRule, RuleLogic}, path_exp::DocPath, pact::Pact, interaction::Interaction};
fn run<T>(f: impl std::future::Future<Output = T>) -> T { tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f) }
fn request(t: &str, b: &str) -> HttpRequest {
  HttpRequest { headers: Some(HashMap::from([("Content-Type".to_string(), vec![t.to_string()])])), body: OptionalBody::Present(b.to_string().into(), None, None), ..HttpRequest::default() }
}
fn response(t: &str, b: &str) -> HttpResponse {
  HttpResponse { headers: Some(HashMap::from([("Content-Type".to_string(), vec![t.to_string()])])), body: OptionalBody::Present(b.to_string().into(), None, None), ..HttpResponse::default() }
}
fn matched(e: &HttpRequest, a: &HttpRequest) -> Vec<Mismatch> {
  let p = V4Pact::default().boxed(); let i = SynchronousHttp::default().boxed();
  run(match_request(e.clone(), a.clone(), &p, &i)).unwrap().mismatches()
}
fn matched_response(e: &HttpResponse, a: &HttpResponse) -> Vec<Mismatch> {
  let p = V4Pact::default().boxed(); let i = SynchronousHttp::default().boxed();
  run(match_response(e.clone(), a.clone(), &p, &i))
}

fn main() {
  let m = |e, a| matched(&request(e, "{}"), &request(a, "{}"));
  let bodies = |v: Vec<Mismatch>| v.iter().filter(|m| matches!(m, Mismatch::BodyTypeMismatch { .. })).count();
  assert_eq!(bodies(m("application/json", "application/hal+json")), 0);
  assert_eq!(bodies(m("application/json", "text/plain")), 1);
  assert_eq!(bodies(m("application/vnd.a+json", "application/vnd.b+json")), 1);
}
"""
