crate = "matching"
prop = "P29"
needs = "an unexpected parameter none of whose values has text (?debug), next to expected parameters"
breaks = "an unexpected query parameter is not reported"
edits = [("rust/pact_matching/src/query.rs", "      Some(_) => (),\n      None => result", "      Some(_) => (),\n      None if value.iter().all(|v| v.is_none()) => (),\n      None => result")]
demo = r'''
use std::collections::HashMap;
use pact_matching::{match_query, CoreMatchingContext};
fn main() {
  let e: HashMap<String, Vec<Option<String>>> = [("a".to_string(), vec![Some("1".to_string())])].into();
  let mut a = e.clone();
  a.insert("debug".to_string(), vec![None]);
  let r = match_query(Some(e), Some(a), &CoreMatchingContext::default());
  assert!(r.get("debug").map(|m| !m.is_empty()).unwrap_or(false), "{:?}", r);
}
'''
