crate = "matching"
prop = "P36"
needs = 'an attribute with a namespace next to one of the same local name'
breaks = 'attributes are compared by their local names only'
edits = [('rust/pact_matching/src/xml.rs', '    let actual_attributes: BTreeMap<String, String> = actual.attributes()\n        .iter().map(|attr| (name(attr.name()), s!(attr.value()))).collect();', '    let mut actual_attributes: BTreeMap<String, String> = actual.attributes()\n        .iter().map(|attr| (name(attr.name()), s!(attr.value()))).collect();\n    for attr in actual.attributes() {\n      if expected_attributes.contains_key(attr.name().local_part()) && !actual_attributes.contains_key(attr.name().local_part()) {\n        actual_attributes.remove(&name(attr.name()));\n        actual_attributes.insert(s!(attr.name().local_part()), s!(attr.value()));\n      }\n    }')]
demo = r"""
use std::collections::HashMap;
use pact_matching::{match_request, match_response, Mismatch};
use pact_models::{v4::{http_parts::{HttpRequest, HttpResponse}, pact::V4Pact, synch_http::SynchronousHttp}, bodies::OptionalBody, matchingrules::{MatchingRule, RuleLogic}, path_exp::DocPath, pact::Pact, interaction::Interaction};
fn run<T>(f: impl std::future::Future<Output = T>) -> T { tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f) }
fn request(t: &str, b: &str) -> HttpRequest {
  HttpRequest { headers: Some(HashMap::from([("Content-Type".to_string(), vec![t.to_string()])])), body: OptionalBody::Present(b.to_string().into(), None, None), ..HttpRequest::default() }
}
fn response(t: &str, b: &str) -> HttpResponse {
  HttpResponse { headers: Some(HashMap::from([("Content-Type".to_string(), vec![t.to_string()])])), body: OptionalBody::Present(b.to_string().into(), None, None), ..HttpResponse::default() }
}
fn matched(e: &HttpRequest, a: &HttpRequest) -> Vec<Mismatch> {
  let p = V4Pact::default().boxed(); let i = SynchronousHttp::default().boxed();
  run(match_request(e.clone(), a.clone(), &p, &i)).unwrap().mismatches()
}
fn matched_response(e: &HttpResponse, a: &HttpResponse) -> Vec<Mismatch> {
  let p = V4Pact::default().boxed(); let i = SynchronousHttp::default().boxed();
  run(match_response(e.clone(), a.clone(), &p, &i))
}

fn main() {
  let m = |e, a| matched(&request("application/xml", e), &request("application/xml", a)).len();
  assert_eq!(m("<a b='1'/>", "<a b='1'/>"), 0);
  assert_eq!(m("<a xmlns:n='urn:n' n:b='1'/>", "<a xmlns:m='urn:n' m:b='1'/>"), 0);
  assert_ne!(m("<a b='1'/>", "<a xmlns:n='urn:n' n:b='1'/>"), 0);
}
"""
