prop = "P09"
needs = "two synchronous message interactions that differ only in a response after the first one"
breaks = "different interactions get the same key, so that one replaces the other"
edits = [("rust/pact_models/src/v4/sync_message.rs", "    self.response.hash(state);", "    self.response.first().hash(state);")]
demo = r'''
use pact_models::{bodies::OptionalBody, v4::{interaction::V4Interaction, message_parts::MessageContents, sync_message::SynchronousMessage}};
fn main() {
  let c = |s: &str| MessageContents { contents: OptionalBody::from(s), ..Default::default() };
  let m = |s: &str| SynchronousMessage { description: "d".into(), response: vec![c("a"), c(s)], ..Default::default() };
  assert_ne!(m("b").unique_key(), m("c").unique_key());
}
'''
