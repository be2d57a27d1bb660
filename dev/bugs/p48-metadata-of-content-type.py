exec(open("/verif/dev/verifier_demo.py").read())
prop = "P48"
needs = "a provider that gives contentType in the metadata header differently from the Content-Type of its response"
breaks = "the metadata the provider gives does not replace the content type of the response"
edits = [(V + "messages.rs", "        default.insert(k, v);", "        default.entry(k).or_insert(v);")]
demo = PRE + r"""
fn main() {
  let _h = host("h.test", |_, _| Reply::Response(200, vec![("Content-Type".into(), b"application/json".to_vec()), ("Pact-Message-Metadata".into(), b"eyJjb250ZW50VHlwZSI6ICJhcHBsaWNhdGlvbi92bmQuYStqc29uIn0=".to_vec())], "{\"a\":1}".into()));
  let r = run("h.test", vec![v4(json!([{"type": "Asynchronous/Messages", "description": "one", "metadata": {"contentType": "application/vnd.a+json"}, "contents": {"content": {"a": 1}, "contentType": "application/json", "encoded": false}}]))]);
  let o = r.go();
  assert!(o.result, "{:?}", o.errors);
}
"""
