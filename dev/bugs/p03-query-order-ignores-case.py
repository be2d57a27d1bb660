prop = "P03"
needs = "query parameters whose names differ only in case, written in a V1 or V2 pact, and a hash seed that lists them the other way round"
breaks = "the text of a V2 pact changes from one write to the next"
edits = [("rust/pact_models/src/query_strings.rs", "    .sorted_by(|a, b| Ord::cmp(&a.0, &b.0))\n    .flat_map", "    .sorted_by(|a, b| Ord::cmp(&a.0.to_lowercase(), &b.0.to_lowercase()))\n    .flat_map")]
demo = r'''
use pact_models::{pact::Pact, request::Request, sync_interaction::RequestResponseInteraction, sync_pact::RequestResponsePact, PactSpecification};
use maplit::hashmap;
fn main() {
  let text = || {
    let query = hashmap!{ "id".to_string() => vec![Some("9".to_string())], "ID".to_string() => vec![Some("3".to_string())] };
    let p = RequestResponsePact { interactions: vec![RequestResponseInteraction { request: Request { query: Some(query), ..Request::default() }, ..Default::default() }], specification_version: PactSpecification::V2, ..Default::default() };
    p.to_json(PactSpecification::V2).unwrap().to_string()
  };
  let first = text();
  for _ in 0..100 { assert_eq!(text(), first); }
}
'''
