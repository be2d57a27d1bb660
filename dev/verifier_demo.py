# shared text of the demos of planted bugs in the verifier
crate = "verifier"
V = "rust/pact_verifier/src/"
PRE = r'''
use pact_verifier::*;
use pact_verifier::callback_executors::*;
use pact_verifier::verification_result::VerificationExecutionResult;
use reqwest::{Reply, Sent};
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};
fn host(name: &str, f: impl Fn(usize, &Sent) -> Reply + Send + Sync + 'static) -> Arc<Mutex<Vec<Sent>>> {
  let log: Arc<Mutex<Vec<Sent>>> = Default::default();
  let l = log.clone();
  reqwest::serve(name, Arc::new(move |s: &Sent| { let n = { let mut g = l.lock().unwrap(); g.push(s.clone()); g.len() - 1 }; f(n, s) }));
  log
}
fn ok(body: &str) -> Reply { Reply::Response(200, vec![("Content-Type".into(), b"application/json".to_vec())], body.to_string().into()) }
fn hal(v: &Value) -> Reply { Reply::Response(200, vec![("Content-Type".into(), b"application/hal+json".to_vec())], v.to_string().into()) }
fn v3(interactions: Value) -> PactSource { PactSource::String(json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "interactions": interactions, "metadata": {"pactSpecification": {"version": "3.0.0"}}}).to_string()) }
fn v4(interactions: Value) -> PactSource { PactSource::String(json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "interactions": interactions, "metadata": {"pactSpecification": {"version": "4.0"}}}).to_string()) }
#[allow(dead_code)]
struct Run { provider: ProviderInfo, sources: Vec<PactSource>, filter: FilterInfo, consumers: Vec<String>, publish: Option<PublishOptions>, states: HttpRequestProviderStateExecutor, options: VerificationOptions<NullRequestFilterExecutor> }
fn run(host: &str, sources: Vec<PactSource>) -> Run {
  Run { provider: ProviderInfo { name: "p".into(), host: host.into(), ..ProviderInfo::default() }, sources, filter: FilterInfo::None, consumers: vec![], publish: None, states: HttpRequestProviderStateExecutor::default(), options: VerificationOptions { coloured_output: false, ..VerificationOptions::default() } }
}
impl Run {
  fn go(self) -> VerificationExecutionResult {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    let states = Arc::new(self.states.clone());
    rt.block_on(verify_provider_async(self.provider, self.sources, self.filter, self.consumers, &self.options, self.publish.as_ref(), &states, None)).unwrap()
  }
}
'''
