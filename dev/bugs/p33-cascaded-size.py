crate = "matching"
prop = "P33"
needs = "a maximum size on an outer list with an inner list that is longer than that"
breaks = "the maximum size of a list is also asked of the lists inside it"
edits = [("rust/pact_matching/src/matchingrules.rs", '''      MatchingRule::MaxType(max) => {
        if !cascaded && actual.len() > *max {
          Err(anyhow!("Expected {} (size {}) to have maximum size of {}", display(actual), actual.len(), max))''', '''      MatchingRule::MaxType(max) => {
        if actual.len() > *max {
          Err(anyhow!("Expected {} (size {}) to have maximum size of {}", display(actual), actual.len(), max))''')]
demo = r'''
use std::collections::HashMap;
use pact_matching::{json::compare_json, CoreMatchingContext, DiffConfig};
use pact_models::{matchingrules::{MatchingRule, MatchingRuleCategory, RuleList}, path_exp::DocPath};
use serde_json::json;
fn main() {
  let c = MatchingRuleCategory { name: "body".into(), rules: [(DocPath::new("$.a").unwrap(), RuleList::new(MatchingRule::MaxType(2)))].into() };
  let cx = CoreMatchingContext::new(DiffConfig::NoUnexpectedKeys, &c, &HashMap::new());
  let ok = |a| compare_json(&DocPath::root(), &json!({"a": [[1]]}), &a, &cx).is_ok();
  assert!(ok(json!({"a": [[1], [2]]})) && !ok(json!({"a": [[1], [2], [3]]})));
  assert!(ok(json!({"a": [[1, 2, 3]]})));
}
'''
