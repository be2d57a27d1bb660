prop = "P04"
needs = "a V4 body whose encoding is spelled with capital letters (BASE64)"
breaks = "the bytes of the body are the base64 text instead of what it stands for"
edits = [("rust/pact_models/src/v4/http_parts.rs", "Value::String(ref s) => (true, s.to_lowercase()),", "Value::String(ref s) => (true, s.trim().to_string()),")]
demo = r'''
use pact_models::{bodies::OptionalBody, v4::http_parts::body_from_json};
use serde_json::json;
fn main() {
  let b: OptionalBody = body_from_json(&json!({"body": {"content": "AAEC", "contentType": "image/png", "encoded": "Base64"}}), "body", &None);
  assert_eq!(b.value().unwrap().to_vec(), vec![0u8, 1, 2]);
}
'''
