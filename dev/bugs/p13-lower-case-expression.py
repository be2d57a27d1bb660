prop = "P13"
needs = "converting a path with upper case names to lower case and using it as text or key afterwards"
breaks = "the lower case path keeps the upper case expression, so it is printed, compared and hashed with the old names"
edits = [("rust/pact_models/src/path_exp.rs", "      expr: self.expr.to_lowercase()\n", "      expr: self.expr.clone()\n")]
demo = r'''
use pact_models::path_exp::DocPath;
fn main() {
  let p = DocPath::new("$.Accept").unwrap().to_lower_case();
  assert_eq!(p.first_field(), Some("accept"));
  assert_eq!(p, DocPath::new("$.accept").unwrap());
}
'''
