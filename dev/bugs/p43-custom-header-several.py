exec(open("/verif/dev/verifier_demo.py").read())
prop = "P43"
needs = "a request header with several values of the name of a custom header's name in another case"
breaks = "a header of the pact is sent together with the custom header of that name when the cases of the two names differ and it has several values"
edits = [(V + "provider_client.rs", """      if !custom_headers.keys().any(|name| name.eq_ignore_ascii_case(k)) {""", """      if !custom_headers.contains_key(k) && (vals.len() > 1 || !custom_headers.keys().any(|name| name.eq_ignore_ascii_case(k))) {""")]
demo = PRE + r"""
fn main() {
  let log = host("h.test", |_, _| ok("{}"));
  let mut r = run("h.test", vec![v3(json!([{"description": "one", "request": {"method": "GET", "path": "/a", "headers": {"X-Token": ["a", "b"]}}, "response": {"status": 200}}]))]);
  r.options.custom_headers.insert("x-token".into(), "secret".into());
  assert!(r.go().result);
  let sent = log.lock().unwrap()[0].headers.get_all("x-token").iter().map(|v| v.to_str().unwrap().to_string()).collect::<Vec<_>>();
  assert_eq!(sent, vec!["secret"]);
}
"""
