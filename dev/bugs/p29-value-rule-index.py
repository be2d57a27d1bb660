crate = "matching"
prop = "P29"
needs = "a rule for the second value of a parameter and none for the parameter itself"
breaks = "the rule for one value of a parameter is used for another value"
edits = [("rust/pact_matching/src/query.rs", "        match compare_query_parameter_value(path, val, &actual[index], index, context) {", "        match compare_query_parameter_value(path, val, &actual[index], index.saturating_sub(1), context) {")]
demo = r'''
use std::collections::HashMap;
use pact_matching::{match_query, CoreMatchingContext, DiffConfig};
use pact_models::{matchingrules::{MatchingRule, MatchingRuleCategory, RuleList}, path_exp::DocPath};
fn main() {
  let q = |v: [&str; 2]| -> Option<HashMap<String, Vec<Option<String>>>> { Some([("a".to_string(), v.iter().map(|s| Some(s.to_string())).collect())].into()) };
  let c = MatchingRuleCategory { name: "query".into(), rules: [(DocPath::new("$.a[1]").unwrap(), RuleList::new(MatchingRule::Regex("\\d+".to_string())))].into() };
  let cx = CoreMatchingContext::new(DiffConfig::NoUnexpectedKeys, &c, &HashMap::new());
  let bad = |e, a| match_query(q(e), q(a), &cx).values().any(|m| !m.is_empty());
  assert!(!bad(["x", "1"], ["x", "22"]));
  assert!(bad(["x", "1"], ["33", "22"]));
}
'''
