exec(open("/verif/dev/verifier_demo.py").read())
prop = "P45"
needs = "a filter on a provider state that is not the first of an interaction with several"
breaks = "only the first provider state is looked at"
edits = [(V + "lib.rs", "          interaction.provider_states().iter().any(|state| re.is_match(&state.name))", "          interaction.provider_states().first().map(|state| re.is_match(&state.name)).unwrap_or(false)")]
demo = PRE + r"""
fn main() {
  let log = host("h.test", |_, _| ok("{}"));
  let mut r = run("h.test", vec![v3(json!([{"description": "one", "providerStates": [{"name": "a"}, {"name": "b"}], "request": {"method": "GET", "path": "/a"}, "response": {"status": 200}}]))]);
  r.filter = FilterInfo::State("b".into());
  assert!(r.go().result);
  assert_eq!(log.lock().unwrap().len(), 1);
}
"""
