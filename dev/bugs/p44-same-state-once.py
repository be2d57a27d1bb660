exec(open("/verif/dev/verifier_demo.py").read())
prop = "P44"
needs = "an interaction with the same provider state twice, with different parameters"
breaks = "the state is set up only for its first parameters"
edits = [(V + "lib.rs", """    for state in &interaction.provider_states() {
      info!("Running {} provider state change handler '{}' for""", """    for state in interaction.provider_states().iter().unique_by(|state| state.name.clone()) {
      info!("Running {} provider state change handler '{}' for""")]
demo = PRE + r"""
fn main() {
  let _h = host("h.test", |_, _| ok("{}"));
  let log = host("s.test", |_, _| ok("{}"));
  let mut r = run("h.test", vec![v3(json!([{"description": "one", "providerStates": [{"name": "user", "params": {"id": 1}}, {"name": "user", "params": {"id": 2}}], "request": {"method": "GET", "path": "/a"}, "response": {"status": 200}}]))]);
  r.states.state_change_url = Some("http://s.test/".into());
  assert!(r.go().result);
  assert_eq!(log.lock().unwrap().len(), 2);
}
"""
