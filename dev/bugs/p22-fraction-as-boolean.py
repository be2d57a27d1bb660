prop = "P22"
needs = "a provider state value that is a fraction less than one, converted to a boolean"
breaks = "it becomes false"
edits = [("rust/pact_models/src/expression_parser.rs", "          Ok(Value::Bool(n > 0.0))", "          Ok(Value::Bool(n as i64 > 0))")]
demo = r'''
use std::collections::HashMap;
use pact_models::expression_parser::DataType;
use pact_models::generators::generate_value_from_context;
use serde_json::{json, Value};
fn main() {
  let context: HashMap<&str, Value> = maplit::hashmap!{ "ratio" => json!(0.5) };
  let v: Value = generate_value_from_context("${ratio}", &context, &Some(DataType::BOOLEAN)).unwrap().as_json().unwrap();
  assert_eq!(v, json!(true));
}
'''
