crate = "matching"
prop = "P41"
needs = "a query parameter without a value that has a generator"
breaks = "nothing is generated for a query parameter without a value"
edits = [('rust/pact_matching/src/lib.rs', "                generated[index] = Some(v);", "                generated[index] = val.as_ref().map(|_| v);")]
demo = r"""
use std::collections::HashMap;
use pact_matching::generate_request;
use pact_models::{v4::http_parts::HttpRequest, generators::*, path_exp::DocPath};
fn run<T>(f: impl std::future::Future<Output = T>) -> T { tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f) }
fn main() {
  let mut g = Generators::default();
  g.add_generator_with_subcategory(&GeneratorCategory::QUERY, DocPath::root().join("q"), Generator::RandomHexadecimal(6));
  let m = |v: Vec<Option<String>>| run(generate_request(&HttpRequest { generators: g.clone(), query: Some(HashMap::from([("q".to_string(), v)])), ..HttpRequest::default() }, &GeneratorTestMode::Provider, &Default::default())).query.unwrap()["q"].clone();
  let got = m(vec![Some("x".into()), None]);
  assert!(got[0].as_ref().is_some_and(|v| v.len() == 6));
  assert!(got[1].as_ref().is_some_and(|v| v.len() == 6));
}
"""
