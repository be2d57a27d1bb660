prop = "P10"
needs = "a query string with a name or value that ends in a percent sign and one more character that is not a hexadecimal digit"
breaks = "the last character is lost"
edits = [("rust/pact_models/src/query_strings.rs", "        (Some(v1), None) => {", "        (Some(v1), None) if v1.is_ascii_hexdigit() => {")]
demo = r'''
use pact_models::query_strings::parse_query_string;
fn main() {
  let q = parse_query_string("a=50%x&b=1").unwrap();
  assert_eq!(q["a"], vec![Some("50%x".to_string())]);
}
'''
