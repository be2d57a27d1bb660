prop = "P23"
needs = "an array with variants in which an element matches a variant with a different index that is in the array"
breaks = "the generated element replaces the one at the index of the variant"
edits = [("rust/pact_models/src/generators/mod.rs", "              result[index] = handler.value.clone();", "              result[variant.min(index)] = handler.value.clone();")]
demo = r'''
use std::collections::HashMap;
use pact_models::generators::{GenerateValue, Generator, VariantMatcher};
use pact_models::matchingrules::MatchingRuleCategory;
use pact_models::path_exp::DocPath;
use serde_json::{json, Value};
#[derive(Debug, Clone)]
struct All;
impl VariantMatcher for All {
  fn find_matching_variant(&self, value: &Value, variants: &Vec<(usize, MatchingRuleCategory, HashMap<DocPath, Generator>)>) -> Option<(usize, HashMap<DocPath, Generator>)> {
    if value.is_object() { variants.first().map(|(i, _, g)| (*i, g.clone())) } else { None }
  }
  fn boxed(&self) -> Box<dyn VariantMatcher + Send + Sync> { Box::new(All) }
}
fn main() {
  let g = Generator::ArrayContains(vec![(0, MatchingRuleCategory::empty("body"), maplit::hashmap!{ DocPath::new("$.a").unwrap() => Generator::RandomInt(5, 5) })]);
  let v: Value = g.generate_value(&json!(["x", { "a": 1 }]), &HashMap::new(), &All.boxed()).unwrap();
  assert_eq!(v, json!(["x", { "a": 5 }]));
}
'''
