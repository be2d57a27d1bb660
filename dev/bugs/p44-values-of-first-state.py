exec(open("/verif/dev/verifier_demo.py").read())
prop = "P44"
needs = "two provider states whose handlers return a value of the same name"
breaks = "the value of the state set up first is used instead of the one set up last"
edits = [(V + "lib.rs", "          provider_states_results.insert(k, v);", "          provider_states_results.entry(k).or_insert(v);")]
demo = PRE + r"""
fn main() {
  let log = host("h.test", |_, _| ok("{}"));
  let _s = host("s.test", |n, _| ok(&json!({"id": n}).to_string()));
  let mut r = run("h.test", vec![v3(json!([{"description": "one", "providerStates": [{"name": "a"}, {"name": "b"}], "request": {"method": "GET", "path": "/a", "generators": {"path": {"type": "ProviderState", "expression": "/a/${id}"}}}, "response": {"status": 200}}]))]);
  r.states.state_change_url = Some("http://s.test/".into());
  assert!(r.go().result);
  assert_eq!(log.lock().unwrap()[0].url.path(), "/a/1");
}
"""
