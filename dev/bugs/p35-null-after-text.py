crate = "matching"
prop = "P35"
needs = 'an expectation of a body where the actual body is empty, and a content type that is not text'
breaks = 'an expected body is satisfied by an empty one when the content type is a vendor type'
edits = [('rust/pact_matching/src/lib.rs', '    (e, &OptionalBody::Empty) => {', '    (e, &OptionalBody::Empty) if e.has_content_type() || content_type.suffix.is_none() => {')]
demo = r"""
use std::collections::HashMap;
use pact_matching::{match_request, match_response, Mismatch};
use pact_models::{v4::{http_parts::{HttpRequest, HttpResponse}, pact::V4Pact, synch_http::SynchronousHttp}, bodies::OptionalBody, matchingrules::{MatchingRule, RuleLogic}, path_exp::DocPath, pact::Pact, interaction::Interaction};
fn run<T>(f: impl std::future::Future<Output = T>) -> T { tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f) }
fn request(t: &str, b: &str) -> HttpRequest {
  HttpRequest { headers: Some(HashMap::from([("Content-Type".to_string(), vec![t.to_string()])])), body: OptionalBody::Present(b.to_string().into(), None, None), ..HttpRequest::default() }
}
fn response(t: &str, b: &str) -> HttpResponse {
  HttpResponse { headers: Some(HashMap::from([("Content-Type".to_string(), vec![t.to_string()])])), body: OptionalBody::Present(b.to_string().into(), None, None), ..HttpResponse::default() }
}
fn matched(e: &HttpRequest, a: &HttpRequest) -> Vec<Mismatch> {
  let p = V4Pact::default().boxed(); let i = SynchronousHttp::default().boxed();
  run(match_request(e.clone(), a.clone(), &p, &i)).unwrap().mismatches()
}
fn matched_response(e: &HttpResponse, a: &HttpResponse) -> Vec<Mismatch> {
  let p = V4Pact::default().boxed(); let i = SynchronousHttp::default().boxed();
  run(match_response(e.clone(), a.clone(), &p, &i))
}

fn main() {
  for t in ["text/plain", "application/json", "application/octet-stream", "application/vnd.a+json", "image/svg+xml"] {
    let mut a = request(t, "");
    a.body = OptionalBody::Empty;
    let b = if t.ends_with("xml") { "<a/>" } else if t.contains("json") { "{}" } else { "x" };
    assert_eq!(matched(&request(t, b), &request(t, b)).len(), 0, "{t}");
    assert!(matched(&request(t, b), &a).iter().any(|m| matches!(m, Mismatch::BodyMismatch { mismatch, .. } if mismatch.ends_with("but was empty"))), "{t}");
  }
}
"""
