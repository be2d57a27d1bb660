prop = "P02"
needs = "a V1 or V2 pact whose query has a repeated parameter with values that are not in alphabetical order"
breaks = "the values of a repeated query parameter change their order when the pact is written"
edits = [("rust/pact_models/src/query_strings.rs", "      kv.1.iter()\n        .map(|v| match v {", "      kv.1.iter()\n        .sorted()\n        .map(|v| match v {")]
demo = r'''
use pact_models::{pact::{load_pact_from_json, Pact}, request::Request, sync_interaction::RequestResponseInteraction, sync_pact::RequestResponsePact, PactSpecification};
use maplit::hashmap;
fn main() {
  let query = hashmap!{ "id".to_string() => vec![Some("9".to_string()), Some("3".to_string())] };
  let p = RequestResponsePact { interactions: vec![RequestResponseInteraction { request: Request { query: Some(query.clone()), ..Request::default() }, ..Default::default() }], specification_version: PactSpecification::V2, ..Default::default() };
  let back = load_pact_from_json("demo", &p.to_json(PactSpecification::V2).unwrap()).unwrap().as_request_response_pact().unwrap();
  assert_eq!(back.interactions[0].request.query, Some(query));
}
'''
