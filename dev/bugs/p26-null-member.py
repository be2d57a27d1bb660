prop = "P26"
needs = "a member that both documents have, which is null in the second and something else in the first, inside an object"
breaks = "the first value is kept instead of the later one"
edits = [("rust/pact_models/src/json_utils.rs", """          let value = if let Some(value) = m.get(k) {
            json_deep_merge(value, v)
          } else {""", """          let value = if let Some(value) = m.get(k) {
            if v.is_null() { value.clone() } else { json_deep_merge(value, v) }
          } else {""")]
demo = r'''
use pact_models::json_utils::json_deep_merge;
use serde_json::json;
fn main() {
  assert_eq!(json_deep_merge(&json!({"a": {"b": 1}}), &json!({"a": {"b": null}})), json!({"a": {"b": null}}));
}
'''
