prop = "P11"
needs = "a header with several values, one of which is blank, in the JSON form"
breaks = "blank values of a header are dropped when it is split"
edits = [("rust/pact_models/src/headers.rs", "value.split(',').map(|v| v.trim().to_string()).collect()", "value.split(',').map(|v| v.trim()).filter(|v| !v.is_empty() || value.is_empty()).map(|v| v.to_string()).collect()")]
demo = r'''
use pact_models::headers::parse_header;
fn main() {
  assert_eq!(parse_header("X-A", "a,,b"), vec!["a", "", "b"]);
}
'''
