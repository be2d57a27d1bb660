exec(open("/verif/dev/verifier_demo.py").read())
prop = "P48"
needs = "a synchronous message with provider states, verified by asking for it"
breaks = "only the names of the states are sent with the request for a synchronous message, not their parameters"
edits = [(V + "messages.rs", """      map.insert("providerStates".into(), Value::Array(message.provider_states().iter()
        .map(|ps| ps.to_json()).collect()));""", """      map.insert("providerStates".into(), Value::Array(message.provider_states().iter()
        .map(|ps| json!({ "name": ps.name })).collect()));""")]
demo = PRE + r"""
fn main() {
  let log = host("h.test", |_, _| ok("{\"a\":1}"));
  let r = run("h.test", vec![v4(json!([{"type": "Synchronous/Messages", "description": "one", "providerStates": [{"name": "s", "params": {"id": 1}}], "request": {"contents": {"content": "q", "contentType": "text/plain", "encoded": false}}, "response": [{"contents": {"content": {"a": 1}, "contentType": "application/json", "encoded": false}}]}]))]);
  r.go();
  let body: Value = serde_json::from_slice(log.lock().unwrap()[0].body.as_ref().unwrap()).unwrap();
  assert_eq!(body["providerStates"], json!([{"name": "s", "params": {"id": 1}}]));
}
"""
