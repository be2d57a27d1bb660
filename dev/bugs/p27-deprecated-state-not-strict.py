prop = "P27"
needs = "a provider state with an unknown attribute, under the deprecated name of the attribute, checked in strict mode"
breaks = "it is a warning instead of an error"
edits = [("rust/pact_models/src/sync_interaction.rs", """state, strict, spec_version)
              }))""", """state,
                  strict && values.contains_key("providerStates"), spec_version)
              }))""")]
demo = r'''
use pact_models::sync_interaction::RequestResponseInteraction;
use pact_models::verify_json::{PactJsonVerifier, ResultLevel};
use pact_models::PactSpecification;
use serde_json::json;
fn main() {
  let json = json!({ "description": "d", "providerState": { "name": "s", "other": 1 }, "request": {}, "response": {} });
  let r = RequestResponseInteraction::verify_json("/interactions/0", &json, true, PactSpecification::V2);
  assert_eq!(r.len(), 1, "{:?}", r);
  assert!(matches!(r[0].level, ResultLevel::ERROR), "{:?}", r);
}
'''
