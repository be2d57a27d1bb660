exec(open("/verif/dev/verifier_demo.py").read())
prop = "P46"
needs = "a broker with a context path whose links lead to a path that begins like the context path without being below it"
breaks = "the context path is put in front of links that are absolute already"
edits = [(V + "pact_broker.rs", "      if path.starts_with(context_path) {\n", "      if path.starts_with(context_path) && path[context_path.len()..].starts_with('/') {\n"),
  (V + "pact_broker.rs", """        base_url.set_path(path);
        base_url
      } else {""", """        base_url.set_path(format!("{}{}", context_path.trim_end_matches('/'), path).as_str());
        base_url
      } else {""")]
breaks = "absolute links that do not lead below the broker's context path get that path put in front"
needs = "a broker at an address with a context path, and a link to a place outside it"
demo = PRE + r"""
fn main() {
  let log = host("b.test", |_, s| match s.url.path() {
    "/broker" | "/broker/" => hal(&json!({"_links": {"pb:latest-provider-pacts": {"href": "http://b.test/broker/latest/{provider}", "templated": true}}})),
    "/broker/latest/p" => hal(&json!({"_links": {"pacts": [{"href": "http://b.test/elsewhere/1"}]}})),
    "/elsewhere/1" => hal(&json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "interactions": [], "_links": {}})),
    _ => Reply::Response(404, vec![], Default::default())
  });
  let r = run("h.test", vec![PactSource::BrokerUrl("p".into(), "http://b.test/broker".into(), None, vec![])]).go();
  assert_eq!(log.lock().unwrap().last().unwrap().url.path(), "/elsewhere/1");
  assert!(r.result);
}
"""
