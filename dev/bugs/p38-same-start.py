crate = "matching"
prop = "P38"
needs = 'binary contents that differ after their first 1024 bytes'
breaks = 'long binary contents with the same length and the same start are taken as equal'
edits = [('rust/pact_matching/src/binary_utils.rs', '  } else if expected_body != actual_body {\n    let actual_ct', '  } else if expected_body.len() != actual_body.len() || expected_body.iter().zip(actual_body.iter()).take(1024).any(|(e, a)| e != a) {\n    let actual_ct')]
demo = r"""
use std::collections::HashMap;
use pact_matching::{match_request, match_response, Mismatch};
use pact_models::{v4::{http_parts::{HttpRequest, HttpResponse}, pact::V4Pact, synch_http::SynchronousHttp}, bodies::OptionalBody, matchingrules::{MatchingRule, RuleLogic}, path_exp::DocPath, pact::Pact, interaction::Interaction};
fn run<T>(f: impl std::future::Future<Output = T>) -> T { tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f) }
fn request(t: &str, b: &str) -> HttpRequest {
  HttpRequest { headers: Some(HashMap::from([("Content-Type".to_string(), vec![t.to_string()])])), body: OptionalBody::Present(b.to_string().into(), None, None), ..HttpRequest::default() }
}
fn response(t: &str, b: &str) -> HttpResponse {
  HttpResponse { headers: Some(HashMap::from([("Content-Type".to_string(), vec![t.to_string()])])), body: OptionalBody::Present(b.to_string().into(), None, None), ..HttpResponse::default() }
}
fn matched(e: &HttpRequest, a: &HttpRequest) -> Vec<Mismatch> {
  let p = V4Pact::default().boxed(); let i = SynchronousHttp::default().boxed();
  run(match_request(e.clone(), a.clone(), &p, &i)).unwrap().mismatches()
}
fn matched_response(e: &HttpResponse, a: &HttpResponse) -> Vec<Mismatch> {
  let p = V4Pact::default().boxed(); let i = SynchronousHttp::default().boxed();
  run(match_response(e.clone(), a.clone(), &p, &i))
}

fn main() {
  let t = "application/octet-stream";
  let m = |n: usize, at: usize| { let mut e = request(t, ""); let mut a = request(t, ""); let x = vec![7u8; n]; let mut y = x.clone(); y[at] ^= 1;
    e.body = OptionalBody::Present(x.into(), None, None); a.body = OptionalBody::Present(y.into(), None, None); matched(&e, &a).len() };
  assert_eq!(m(100, 99), 1);
  assert_eq!(m(2000, 1500), 1);
}
"""
