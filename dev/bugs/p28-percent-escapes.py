crate = "matching"
prop = "P28"
needs = "no rule for the path; paths that differ only in the case of the hex digits of a percent escape"
breaks = "paths that differ match"
edits = [("rust/pact_matching/src/lib.rs", "    expected.matches_with(actual, &MatchingRule::Equality, false).map_err(|err| vec![err])\n      .map_err(|errors| errors", "    let normalised = |path: &str| path.split('%').enumerate().map(|(i, s)| if i > 0 && s.is_char_boundary(2.min(s.len())) { let n = 2.min(s.len()); s[..n].to_ascii_uppercase() + &s[n..] } else { s.to_string() }).collect::<Vec<_>>().join(\"%\");\n    normalised(expected).matches_with(normalised(actual).as_str(), &MatchingRule::Equality, false).map_err(|err| vec![err])\n      .map_err(|errors| errors")]
demo = r'''
use pact_matching::{match_path, CoreMatchingContext};
fn main() {
  assert!(match_path("/a/%2f", "/a/%2f", &CoreMatchingContext::default()).is_ok());
  assert!(match_path("/a/%2f", "/a/%2F", &CoreMatchingContext::default()).is_err());
}
'''
