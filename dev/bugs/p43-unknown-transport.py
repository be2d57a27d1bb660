exec(open("/verif/dev/verifier_demo.py").read())
prop = "P43"
needs = "a V4 interaction that names a transport the provider does not have, and a provider with an http transport"
breaks = "the request goes to the http transport of the provider instead of the provider's own address"
edits = [(V + "lib.rs", """  let transport = if let Some(transport) = &interaction.transport {
    provider.transports
      .iter()
      .find(|t| &t.transport == transport)
      .cloned()
  } else {""", """  let named = interaction.transport.as_ref()
    .and_then(|name| provider.transports.iter().find(|t| &t.transport == name));
  let transport = if let Some(transport) = named {
    Some(transport.clone())
  } else {""")]
demo = PRE + r"""
#[allow(deprecated)]
fn main() {
  let log = host("h.test", |_, _| ok("{}"));
  let mut r = run("h.test", vec![v4(json!([{"type": "Synchronous/HTTP", "description": "one", "transport": "other", "request": {"method": "GET", "path": "/a"}, "response": {"status": 200}}]))]);
  r.provider.port = Some(1234);
  r.provider.transports = vec![ProviderTransport { transport: "http".into(), port: Some(99), path: None, scheme: None }];
  assert!(r.go().result);
  assert_eq!(log.lock().unwrap()[0].url.to_string(), "http://h.test:1234/a");
}
"""
