prop = "P05"
needs = "a pact document that declares a specification version the library does not know (5 or later)"
breaks = "the document is loaded as a V4 pact instead of like V3, which loses or refuses its interactions"
edits = [("rust/pact_models/src/pact.rs", "            4 => PactSpecification::V4,\n            _ => {", "            v if v >= 4 => PactSpecification::V4,\n            _ => {")]
demo = r'''
use pact_models::pact::load_pact_from_json;
use serde_json::json;
fn main() {
  let p = load_pact_from_json("demo", &json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "interactions": [{"description": "d", "request": {"method": "GET", "path": "/"}, "response": {"status": 200}}], "metadata": {"pactSpecification": {"version": "5.0"}}})).unwrap();
  assert!(!p.is_v4() && p.interactions().len() == 1);
}
'''
