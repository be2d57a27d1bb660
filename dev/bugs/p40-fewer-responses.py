crate = "matching"
prop = "P40"
needs = 'a synchronous message with several responses of which the actual message has only some'
breaks = 'missing responses are not reported when there is at least one'
edits = [('rust/pact_matching/src/lib.rs', '  if expected_responses.len() != actual_responses.len() {', '  if expected_responses.len() != actual_responses.len() && (actual_responses.len() != 1 || expected_responses.len() < 2) {')]
demo = r"""
use pact_matching::{match_sync_message, match_message, generators::apply_generators_to_sync_message};
use pact_models::{v4::{sync_message::SynchronousMessage, message_parts::MessageContents, async_message::AsynchronousMessage, pact::V4Pact}, bodies::OptionalBody, pact::Pact, generators::*, v4::interaction::V4Interaction};
use serde_json::json;
fn run<T>(f: impl std::future::Future<Output = T>) -> T { tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f) }
fn contents(s: &str) -> MessageContents { MessageContents { contents: OptionalBody::Present(s.to_string().into(), Some("text/plain".into()), None), ..MessageContents::default() } }

fn main() {
  let m = |e: &[&str], a: &[&str]| { let f = |r: &[&str]| SynchronousMessage { request: contents("r"), response: r.iter().map(|s| contents(s)).collect(), ..SynchronousMessage::default() };
    let p = V4Pact::default().boxed(); run(match_sync_message(f(e), f(a), &p)).len() };
  assert_eq!(m(&["a", "b"], &["a", "b"]), 0);
  assert_eq!(m(&["a", "b"], &[]), 1);
  assert_eq!(m(&["a", "b"], &["a"]), 1);
}
"""
