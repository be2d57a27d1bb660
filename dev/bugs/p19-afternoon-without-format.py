prop = "P19"
needs = "a Time generator without a format on a JSON body, for a time after noon"
breaks = "the hour is written as that of a clock of 12 hours"
edits = [("rust/pact_models/src/generators/mod.rs", "None => Ok(json!(time.time().format(\"%H:%M:%S\").to_string()))", "None => Ok(json!(time.time().format(\"%I:%M:%S\").to_string()))")]
demo = r'''
use std::collections::HashMap;
use pact_models::generators::{GenerateValue, Generator, NoopVariantMatcher, VariantMatcher};
use serde_json::{json, Value};
fn main() {
  let g = Generator::Time(None, Some("midnight + 15 hours".to_string()));
  let v: Value = g.generate_value(&json!("x"), &HashMap::new(), &NoopVariantMatcher.boxed()).unwrap();
  assert_eq!(v, json!("15:00:00"));
}
'''
