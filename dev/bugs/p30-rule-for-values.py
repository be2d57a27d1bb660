crate = "matching"
prop = "P30"
needs = "a rule for the second value of a header in a pact whose header name has upper case letters"
breaks = "rules for single values of a header are not found"
edits = [("rust/pact_matching/src/headers.rs", "  let indexed_path = path.join(index.to_string());", "  let indexed_path = DocPath::root().join(if index == 0 { key.to_lowercase() } else { key.to_string() }).join(index.to_string());")]
demo = r'''
use std::collections::HashMap;
use pact_matching::{headers::match_headers, CoreMatchingContext, DiffConfig, HeaderMatchingContext};
use pact_models::{matchingrules::{MatchingRule, MatchingRuleCategory, RuleList}, path_exp::DocPath};
fn main() {
  let h = |n: &str, v: [&str; 2]| -> Option<HashMap<String, Vec<String>>> { Some([(n.to_string(), v.iter().map(|s| s.to_string()).collect())].into()) };
  let ok = |n: &str, e, a| {
    let c = MatchingRuleCategory { name: "header".into(), rules: [(DocPath::new(&format!("$['{}'][1]", n)).unwrap(), RuleList::new(MatchingRule::Integer))].into() };
    let cx = CoreMatchingContext::new(DiffConfig::NoUnexpectedKeys, &c, &HashMap::new());
    match_headers(h(n, e), h(n, a), &HeaderMatchingContext::new(&cx)).values().all(|m| m.is_empty())
  };
  assert!(ok("x-a", ["a", "1"], ["a", "2"]));
  assert!(ok("X-A", ["a", "1"], ["a", "2"]));
}
'''
