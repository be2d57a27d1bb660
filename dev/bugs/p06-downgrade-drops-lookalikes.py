prop = "P06"
needs = "a V4 pact with two messages of the same description under different provider states that is converted to a message pact"
breaks = "the second message is dropped from the converted pact"
edits = [("rust/pact_models/src/v4/pact.rs", "      .map(|i| i.as_message())\n      .flatten()\n      .collect();", "      .map(|i| i.as_message())\n      .flatten()\n      .unique_by(|m| m.description.clone())\n      .collect();")]
demo = r'''
use pact_models::{pact::Pact, provider_states::ProviderState, v4::{async_message::AsynchronousMessage, pact::V4Pact, interaction::V4Interaction}};
fn main() {
  let m = |s: &str| AsynchronousMessage { description: "d".into(), provider_states: vec![ProviderState::default(s)], ..Default::default() }.boxed_v4();
  let p = V4Pact { interactions: vec![m("a"), m("b")], ..Default::default() };
  assert_eq!(p.as_message_pact().unwrap().messages.len(), 2);
}
'''
