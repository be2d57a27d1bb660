prop = "P15"
needs = "a rule whose path ends in a wildcard, selected for an element below it"
breaks = "the rules are not marked as cascaded, although their path is a parent of the concrete path"
edits = [("rust/pact_models/src/matchingrules/mod.rs", "      .map(|(_, v, (_, t))| v.as_cascaded(t != path.len()))", "      .map(|(k, v, (_, t))| v.as_cascaded(t != path.len() && !k.is_wildcard()))")]
demo = r'''
use pact_models::matchingrules::{MatchingRule, MatchingRuleCategory, RuleLogic};
use pact_models::path_exp::DocPath;
fn main() {
  let mut c = MatchingRuleCategory::empty("body");
  c.add_rule(DocPath::new("$.a.*").unwrap(), MatchingRule::Type, RuleLogic::And);
  assert!(c.select_best_matcher(&["$", "a", "b", "c"]).cascaded);
  assert!(!c.select_best_matcher(&["$", "a", "b"]).cascaded);
}
'''
