prop = "P14"
needs = "an index wildcard in a path expression against a concrete path with an empty name at that position"
breaks = "an index wildcard matches a name that is not an index"
edits = [("rust/pact_models/src/path_exp.rs", """    PathToken::StarIndex => if path_fragment == "[*]" {
      1
    } else {
      match path_fragment.parse::<usize>() {
        Ok(_) => 1,
        _ => 0
      }
    },""", """    PathToken::StarIndex => if path_fragment == "[*]" || path_fragment.chars().all(|ch| ch.is_ascii_digit()) {
      1
    } else {
      0
    },""")]
demo = r'''
use pact_models::path_exp::DocPath;
fn main() {
  let p = DocPath::new("$.a[*]").unwrap();
  assert!(p.matches_path(&["$", "a", "0"]));
  assert!(!p.matches_path(&["$", "a", ""]));
}
'''
