exec(open("/verif/dev/verifier_demo.py").read())
prop = "P47"
needs = "publishing the result of an interaction with the same difference at several places of the body"
breaks = "only the first of the differences with the same description is published"
edits = [(V + "pact_broker.rs", """          if !mismatches.is_empty() {
            json["mismatches"] = json!(mismatches);""", """          if !mismatches.is_empty() {
            let mut mismatches = mismatches;
            mismatches.dedup_by(|a, b| a["attribute"] == b["attribute"] && a["description"] == b["description"]);
            json["mismatches"] = json!(mismatches);""")]
demo = PRE + r"""
fn main() {
  let _h = host("h.test", |_, _| ok(r#"{"a": 1, "b": 1, "c": 1}"#));
  let log = host("b.test", |_, s| match s.url.path() {
    "/1" => hal(&json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "interactions": [{"type": "Synchronous/HTTP", "_id": "i1", "description": "one", "request": {"method": "GET", "path": "/a"}, "response": {"status": 200, "body": {"content": {"a": 2, "b": 2, "c": 2}, "contentType": "application/json", "encoded": false}}}], "metadata": {"pactSpecification": {"version": "4.0"}},
       "_links": {"pb:publish-verification-results": {"href": "http://b.test/results"}}})),
    _ => hal(&json!({}))
  });
  let mut r = run("h.test", vec![PactSource::URL("http://b.test/1".into(), None)]);
  r.publish = Some(PublishOptions { provider_version: Some("1".into()), ..PublishOptions::default() });
  let o = r.go();
  assert!(!o.result);
  let sent = log.lock().unwrap().last().unwrap().clone();
  let body: Value = serde_json::from_slice(sent.body.as_ref().unwrap()).unwrap();
  let places = body["testResults"][0]["mismatches"].as_array().unwrap().iter().map(|m| m["identifier"].as_str().unwrap().to_string()).collect::<Vec<_>>();
  for p in ["$.a", "$.b", "$.c"] { assert!(places.contains(&p.to_string()), "{} in {:?}", p, places); }
}
"""
