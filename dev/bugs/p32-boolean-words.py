crate = "matching"
prop = "P32"
needs = "a boolean rule on a JSON text that is true or false in other than lower case"
breaks = "the boolean matcher accepts texts that are not booleans"
edits = [("rust/pact_matching/src/json.rs", '''        Value::String(val) => if val == "true" || val == "false" {''', '''        Value::String(val) => if val.trim().parse::<bool>().is_ok() {''')]
demo = r'''
use pact_matching::matchers::Matches;
use pact_models::matchingrules::MatchingRule;
use serde_json::json;
fn main() {
  let ok = |s: &str| json!(true).matches_with(&json!(s), &MatchingRule::Boolean, false).is_ok();
  assert!(ok("true") && ok("false") && !ok("yes"));
  assert!(!ok(" true"));
}
'''
