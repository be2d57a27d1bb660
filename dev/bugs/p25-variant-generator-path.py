prop = "P25"
needs = "a pact document with an array-contains rule one of whose variants has a generator with a malformed path"
breaks = "loading it panics instead of giving an error"
edits = [("rust/pact_models/src/matchingrules/mod.rs", """                      let path = DocPath::new(k)?;
                      g.parse_generator_from_map""", """                      let path = DocPath::new(k).expect("a path");
                      g.parse_generator_from_map""")]
demo = r'''
use pact_models::matchingrules::MatchingRule;
use serde_json::json;
fn main() {
  let json = json!({ "match": "arrayContains", "variants": [ { "index": 0, "rules": {}, "generators": { "$.a[": { "type": "RandomInt" } } } ] });
  let result = MatchingRule::from_json(&json);
  println!("{:?}", result);
}
'''
