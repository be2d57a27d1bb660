prop = "P16"
needs = "removing duplicates from a rule list combined with OR"
breaks = "the rule list is combined with AND afterwards"
edits = [("rust/pact_models/src/matchingrules/mod.rs", "      rules: self.rules.iter().unique().cloned().collect(),\n      rule_logic: self.rule_logic,\n      cascaded: self.cascaded", "      rules: self.rules.iter().unique().cloned().collect(),\n      cascaded: self.cascaded,\n      .. RuleList::default()")]
demo = r'''
use pact_models::matchingrules::{MatchingRule, RuleList, RuleLogic};
fn main() {
  let l = RuleList { rules: vec![MatchingRule::Type, MatchingRule::Null, MatchingRule::Type], rule_logic: RuleLogic::Or, cascaded: false };
  let d = l.remove_duplicates();
  assert_eq!(d.rules, vec![MatchingRule::Type, MatchingRule::Null]);
  assert_eq!(d.rule_logic, RuleLogic::Or);
}
'''
