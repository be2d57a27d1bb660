exec(open("/verif/dev/verifier_demo.py").read())
prop = "P47"
needs = "publishing the results of a pact in which only pending interactions failed"
breaks = "the result is published as successful although interactions failed"
edits = [(V + "lib.rs", "  let result = if results.iter().all(|r| r.result.is_ok()) {", "  let result = if results.iter().all(|r| r.pending || r.result.is_ok()) {")]
demo = PRE + r"""
fn main() {
  let _h = host("h.test", |_, _| ok("{}"));
  let log = host("b.test", |_, s| match s.url.path() {
    "/1" => hal(&json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "interactions": [{"type": "Synchronous/HTTP", "_id": "i1", "description": "one", "pending": true, "request": {"method": "GET", "path": "/a"}, "response": {"status": 404}}], "metadata": {"pactSpecification": {"version": "4.0"}},
       "_links": {"pb:publish-verification-results": {"href": "http://b.test/results"}}})),
    _ => hal(&json!({}))
  });
  let mut r = run("h.test", vec![PactSource::URL("http://b.test/1".into(), None)]);
  r.publish = Some(PublishOptions { provider_version: Some("1".into()), ..PublishOptions::default() });
  let o = r.go();
  assert_eq!((o.errors.len(), o.pending_errors.len(), o.result), (0, 1, true));
  let sent = log.lock().unwrap().last().unwrap().clone();
  assert_eq!(sent.url.path(), "/results");
  let body: Value = serde_json::from_slice(sent.body.as_ref().unwrap()).unwrap();
  assert_eq!(body["success"], json!(false));
}
"""
