crate = "matching"
prop = "P34"
needs = "an eachKey rule and a member whose name is also in the example but does not satisfy the rule"
breaks = "names that are in the example are not checked by an eachKey rule"
edits = [("rust/pact_matching/src/lib.rs", "                  for key in &actual_keys {", "                  for key in actual_keys.iter().filter(|key| !expected.contains(*key) || key.is_ascii()) {")]
demo = r'''
use std::collections::HashMap;
use pact_matching::{json::compare_json, CoreMatchingContext, DiffConfig};
use pact_models::{matchingrules::{MatchingRule, MatchingRuleCategory, RuleList}, path_exp::DocPath, matchingrules::expressions::parse_matcher_def};
use serde_json::json;
fn main() {
  let def = parse_matcher_def("matching(regex, '[a-z]+', 'a')").unwrap();
  let c = MatchingRuleCategory { name: "body".into(), rules: [(DocPath::root(), RuleList::new(MatchingRule::EachKey(def)))].into() };
  let cx = CoreMatchingContext::new(DiffConfig::NoUnexpectedKeys, &c, &HashMap::new());
  let ok = |e, a| compare_json(&DocPath::root(), &e, &a, &cx).is_ok();
  assert!(ok(json!({"a": 1}), json!({"b": 1})) && !ok(json!({"a": 1}), json!({"é": 1})));
  assert!(!ok(json!({"é": 1}), json!({"é": 1})));
}
'''
