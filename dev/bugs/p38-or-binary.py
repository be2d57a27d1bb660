crate = "matching"
prop = "P38"
needs = 'alternative rules for binary contents of which only the last accepts them'
breaks = 'with alternative rules for binary contents the last one is not asked'
edits = [('rust/pact_matching/src/binary_utils.rs', '          if results.iter().all(|result| result.is_err()) {', '          if results.iter().take(1.max(results.len() - 1)).all(|result| result.is_err()) {')]
demo = r"""
use std::collections::HashMap;
use pact_matching::{match_request, match_response, Mismatch};
use pact_models::{v4::{http_parts::{HttpRequest, HttpResponse}, pact::V4Pact, synch_http::SynchronousHttp}, bodies::OptionalBody, matchingrules::{MatchingRule, RuleLogic}, path_exp::DocPath, pact::Pact, interaction::Interaction};
fn run<T>(f: impl std::future::Future<Output = T>) -> T { tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f) }
fn request(t: &str, b: &str) -> HttpRequest {
  HttpRequest { headers: Some(HashMap::from([("Content-Type".to_string(), vec![t.to_string()])])), body: OptionalBody::Present(b.to_string().into(), None, None), ..HttpRequest::default() }
}
fn response(t: &str, b: &str) -> HttpResponse {
  HttpResponse { headers: Some(HashMap::from([("Content-Type".to_string(), vec![t.to_string()])])), body: OptionalBody::Present(b.to_string().into(), None, None), ..HttpResponse::default() }
}
fn matched(e: &HttpRequest, a: &HttpRequest) -> Vec<Mismatch> {
  let p = V4Pact::default().boxed(); let i = SynchronousHttp::default().boxed();
  run(match_request(e.clone(), a.clone(), &p, &i)).unwrap().mismatches()
}
fn matched_response(e: &HttpResponse, a: &HttpResponse) -> Vec<Mismatch> {
  let p = V4Pact::default().boxed(); let i = SynchronousHttp::default().boxed();
  run(match_response(e.clone(), a.clone(), &p, &i))
}

fn main() {
  let t = "application/octet-stream";
  let m = |rules: &[MatchingRule]| { let mut e = request(t, "abcdefghijklmn");
    for r in rules { e.matching_rules.add_category("body").add_rule(DocPath::root(), r.clone(), RuleLogic::Or); }
    matched(&e, &request(t, "abcdefghijklmnop")).len() };
  assert_eq!(m(&[MatchingRule::Equality]), 1);
  assert_eq!(m(&[MatchingRule::Include("op".into()), MatchingRule::Equality]), 0);
  assert_eq!(m(&[MatchingRule::Equality, MatchingRule::Include("op".into())]), 0);
}
"""
