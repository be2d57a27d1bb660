prop = "P21"
needs = "a pattern with a single letter for the year"
breaks = "only the last two digits of the year are generated"
edits = [("rust/pact_models/src/time_utils.rs", "DateTimePatternToken::Year(d) => buffer.push_str(if *d == 2 {", "DateTimePatternToken::Year(d) => buffer.push_str(if *d <= 2 {")]
demo = r'''
use pact_models::time_utils::{generate_string, parse_pattern, to_chrono_pattern};
fn main() {
  assert_eq!(to_chrono_pattern(&parse_pattern("y").unwrap()), "%Y");
  assert_eq!(generate_string("y").unwrap(), generate_string("yyyy").unwrap());
}
'''
