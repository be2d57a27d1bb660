crate = "matching"
prop = "P36"
needs = 'a response where an element that is expected more than once comes less often'
breaks = 'a missing repeated element is not reported when unexpected ones are allowed'
edits = [('rust/pact_matching/src/xml.rs', '              EitherOrBoth::Left(expected) => {', '              EitherOrBoth::Left(expected) => if context.config() == DiffConfig::NoUnexpectedKeys {')]
demo = r"""
use std::collections::HashMap;
use pact_matching::{match_request, match_response, Mismatch};
use pact_models::{v4::{http_parts::{HttpRequest, HttpResponse}, pact::V4Pact, synch_http::SynchronousHttp}, bodies::OptionalBody, matchingrules::{MatchingRule, RuleLogic}, path_exp::DocPath, pact::Pact, interaction::Interaction};
fn run<T>(f: impl std::future::Future<Output = T>) -> T { tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f) }
fn request(t: &str, b: &str) -> HttpRequest {
  HttpRequest { headers: Some(HashMap::from([("Content-Type".to_string(), vec![t.to_string()])])), body: OptionalBody::Present(b.to_string().into(), None, None), ..HttpRequest::default() }
}
fn response(t: &str, b: &str) -> HttpResponse {
  HttpResponse { headers: Some(HashMap::from([("Content-Type".to_string(), vec![t.to_string()])])), body: OptionalBody::Present(b.to_string().into(), None, None), ..HttpResponse::default() }
}
fn matched(e: &HttpRequest, a: &HttpRequest) -> Vec<Mismatch> {
  let p = V4Pact::default().boxed(); let i = SynchronousHttp::default().boxed();
  run(match_request(e.clone(), a.clone(), &p, &i)).unwrap().mismatches()
}
fn matched_response(e: &HttpResponse, a: &HttpResponse) -> Vec<Mismatch> {
  let p = V4Pact::default().boxed(); let i = SynchronousHttp::default().boxed();
  run(match_response(e.clone(), a.clone(), &p, &i))
}

fn main() {
  let m = |e, a| matched_response(&response("application/xml", e), &response("application/xml", a)).len();
  assert_eq!(m("<a><b>1</b><b>2</b></a>", "<a><b>1</b><b>2</b><c/></a>"), 0);
  assert_eq!(m("<a><b>1</b><b>2</b></a>", "<a><c/></a>"), 1);
  assert_eq!(m("<a><b>1</b><b>2</b></a>", "<a><b>1</b></a>"), 1);
}
"""
