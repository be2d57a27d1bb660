crate = "matching"
prop = "P39"
needs = 'a response with a rule for its content type and a body of another type that the rule accepts'
breaks = 'rules for the content type of a response are ignored when its body has to agree'
edits = [('rust/pact_matching/src/lib.rs', '  mismatches.extend_from_slice(match_body(&expected, &actual, &body_context, &header_context).await\n    .mismatches().as_slice());\n  if let Err(m) = match_status(', '  let no_header_rules = HeaderMatchingContext::new(&CoreMatchingContext::new(DiffConfig::NoUnexpectedKeys, &Default::default(), &plugin_data));\n  mismatches.extend_from_slice(match_body(&expected, &actual, &body_context, &no_header_rules).await\n    .mismatches().as_slice());\n  if let Err(m) = match_status(')]
demo = r"""
use std::collections::HashMap;
use pact_matching::{match_request, match_response, Mismatch};
use pact_models::{v4::{http_parts::{HttpRequest, HttpResponse}, pact::V4Pact, synch_http::SynchronousHttp}, bodies::OptionalBody, matchingrules::{MatchingRule, RuleLogic}, path_exp::DocPath, pact::Pact, interaction::Interaction};
fn run<T>(f: impl std::future::Future<Output = T>) -> T { tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f) }
fn request(t: &str, b: &str) -> HttpRequest {
  HttpRequest { headers: Some(HashMap::from([("Content-Type".to_string(), vec![t.to_string()])])), body: OptionalBody::Present(b.to_string().into(), None, None), ..HttpRequest::default() }
}
fn response(t: &str, b: &str) -> HttpResponse {
  HttpResponse { headers: Some(HashMap::from([("Content-Type".to_string(), vec![t.to_string()])])), body: OptionalBody::Present(b.to_string().into(), None, None), ..HttpResponse::default() }
}
fn matched(e: &HttpRequest, a: &HttpRequest) -> Vec<Mismatch> {
  let p = V4Pact::default().boxed(); let i = SynchronousHttp::default().boxed();
  run(match_request(e.clone(), a.clone(), &p, &i)).unwrap().mismatches()
}
fn matched_response(e: &HttpResponse, a: &HttpResponse) -> Vec<Mismatch> {
  let p = V4Pact::default().boxed(); let i = SynchronousHttp::default().boxed();
  run(match_response(e.clone(), a.clone(), &p, &i))
}

fn main() {
  let mut e = response("application/json", "{}");
  assert_eq!(matched_response(&e, &response("application/json", "{}")).len(), 0);
  e.matching_rules.add_category("header").add_rule(DocPath::root().join("Content-Type"), MatchingRule::Regex("application/(json|x-json)".into()), RuleLogic::And);
  assert_eq!(matched_response(&e, &response("application/x-json", "{}")).len(), 0);
}
"""
