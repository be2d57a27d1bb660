crate = "matching"
prop = "P40"
needs = 'a metadata value of null that the actual message does not have'
breaks = 'expected metadata values that are null need not be there'
edits = [('rust/pact_matching/src/lib.rs', '  if !expected_metadata.is_empty() || context.config() == DiffConfig::NoUnexpectedKeys {\n    for (key, value) in expected_metadata {', '  if !expected_metadata.is_empty() || context.config() == DiffConfig::NoUnexpectedKeys {\n    for (key, value) in expected_metadata.iter().filter(|(k, v)| !v.is_null() || actual_metadata.contains_key(*k)) {')]
demo = r"""
use pact_matching::{match_sync_message, match_message, generators::apply_generators_to_sync_message};
use pact_models::{v4::{sync_message::SynchronousMessage, message_parts::MessageContents, async_message::AsynchronousMessage, pact::V4Pact}, bodies::OptionalBody, pact::Pact, generators::*, v4::interaction::V4Interaction, interaction::Interaction};
use serde_json::json;
fn run<T>(f: impl std::future::Future<Output = T>) -> T { tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f) }
fn contents(s: &str) -> MessageContents { MessageContents { contents: OptionalBody::Present(s.to_string().into(), Some("text/plain".into()), None), ..MessageContents::default() } }

fn main() {
  let m = |e: &[(&str, serde_json::Value)], a: &[(&str, serde_json::Value)]| {
    let f = |v: &[(&str, serde_json::Value)]| { let mut c = contents("r"); c.metadata = v.iter().map(|(k, v)| (k.to_string(), v.clone())).collect(); AsynchronousMessage { contents: c, ..AsynchronousMessage::default() }.boxed() };
    let p = V4Pact::default().boxed(); run(match_message(&f(e), &f(a), &p)).len() };
  assert_eq!(m(&[("a", json!(1))], &[("a", json!(1)), ("b", json!(null))]), 0);
  assert_eq!(m(&[("a", json!(1))], &[]), 1);
  assert_eq!(m(&[("a", json!(null))], &[]), 1);
}
"""
