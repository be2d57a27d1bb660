crate = "matching"
prop = "P32"
needs = "several rules combined with OR where the first one fails and a later one, not directly after it, holds"
breaks = "a value that satisfies one of several alternatives is rejected"
edits = [("rust/pact_matching/src/matchers.rs", "        if results.iter().any(|result| result.is_ok()) {", "        if results.iter().take(2).any(|result| result.is_ok()) {")]
demo = r'''
use pact_matching::matchers::match_values;
use pact_models::{matchingrules::{MatchingRule, RuleList, RuleLogic}, path_exp::DocPath};
use serde_json::json;
fn main() {
  let l = RuleList { rules: vec![MatchingRule::Null, MatchingRule::Integer, MatchingRule::Boolean], rule_logic: RuleLogic::Or, cascaded: false };
  assert!(match_values(&DocPath::root(), &l, &json!(1), &json!(2)).is_ok());
  assert!(match_values(&DocPath::root(), &l, &json!(1), &json!(true)).is_ok());
}
'''
