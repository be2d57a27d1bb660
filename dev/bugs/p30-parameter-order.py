crate = "matching"
prop = "P30"
needs = "an Accept or Content-Type header with the same parameter given in an extra, unexpected place before others in the actual value"
breaks = "parameters in another order and with others besides do not match"
edits = [("rust/pact_matching/src/headers.rs", "    let actual_parameter_map = parse_charset_parameters(actual_parameters.1);\n    for", "    let known = expected_parameters.1.len().max(2);\n    let actual_parameter_map = parse_charset_parameters(&actual_parameters.1[..known.min(actual_parameters.1.len())]);\n    for")]
demo = r'''
use std::collections::HashMap;
use pact_matching::{headers::match_headers, CoreMatchingContext, HeaderMatchingContext};
fn main() {
  let h = |v: &str| -> Option<HashMap<String, Vec<String>>> { Some([("Accept".to_string(), vec![v.to_string()])].into()) };
  let cx = HeaderMatchingContext::new(&CoreMatchingContext::default());
  let ok = |e, a| match_headers(h(e), h(a), &cx).values().all(|m| m.is_empty());
  assert!(ok("text/html;q=1;v=2", "text/html;v=2;q=1"));
  assert!(ok("text/html;q=1;v=2", "text/html;x=0;y=1;v=2;q=1"));
}
'''
