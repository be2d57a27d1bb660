crate = "matching"
prop = "P31"
needs = "two whole numbers beyond 2^53 that differ by less than the precision of a float"
breaks = "numbers that differ are equal"
edits = [("rust/pact_matching/src/json.rs", "        if self == actual {\n          Ok(())", "        let same_number = self.is_number() && self.as_f64() == actual.as_f64() && self.is_f64() == actual.is_f64();\n        if self == actual || same_number {\n          Ok(())")]
demo = r'''
use pact_matching::{json::compare_json, CoreMatchingContext};
use pact_models::path_exp::DocPath;
use serde_json::json;
fn main() {
  let ok = |a: u64, b: u64| compare_json(&DocPath::root(), &json!({"id": a}), &json!({"id": b}), &CoreMatchingContext::default()).is_ok();
  assert!(ok(9007199254740993, 9007199254740993));
  assert!(!ok(9007199254740993, 9007199254740992));
}
'''
