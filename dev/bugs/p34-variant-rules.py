crate = "matching"
prop = "P34"
needs = "an arrayContains rule with two variants whose elements must be different ones"
breaks = "arrayContains stops at the first variant that was found"
edits = [("rust/pact_matching/src/matchingrules.rs", '''                  description: format!("Variant at index {} ({}) was not found in the actual list", index, expected_value)
                });
              };''', '''                  description: format!("Variant at index {} ({}) was not found in the actual list", index, expected_value)
                });
              } else if actual.len() == 1 {
                break;
              };''')]
demo = r'''
use std::collections::HashMap;
use pact_matching::{json::compare_json, CoreMatchingContext, DiffConfig};
use pact_models::{matchingrules::{MatchingRule, MatchingRuleCategory, RuleList}, path_exp::DocPath};
use serde_json::json;
fn main() {
  let c = MatchingRuleCategory { name: "body".into(), rules: [(DocPath::root(), RuleList::new(MatchingRule::ArrayContains(vec![])))].into() };
  let cx = CoreMatchingContext::new(DiffConfig::NoUnexpectedKeys, &c, &HashMap::new());
  let ok = |a| compare_json(&DocPath::root(), &json!([1, 2]), &a, &cx).is_ok();
  assert!(ok(json!([2, 1, 3])) && !ok(json!([1, 3])));
  assert!(!ok(json!([1])));
}
'''
