crate = "matching"
prop = "P41"
needs = 'a synchronous message with generators in its second response'
breaks = "metadata of a later response is generated from the request's metadata"
edits = [('rust/pact_matching/src/generators/mod.rs', '          let value = response.metadata.get(k).cloned().unwrap_or_default();\n          if let Ok(v) = generator.generate_value(&value, context, &vm_boxed) {\n            response.metadata.insert(k.to_string(), v);', '          let value = response.metadata.get(k).cloned().unwrap_or_default();\n          if !response.contents.is_present() { return }\n          if let Ok(v) = generator.generate_value(&value, context, &vm_boxed) {\n            response.metadata.insert(k.to_string(), v);')]
demo = r"""
use pact_matching::{match_sync_message, match_message, generators::apply_generators_to_sync_message};
use pact_models::{v4::{sync_message::SynchronousMessage, message_parts::MessageContents, async_message::AsynchronousMessage, pact::V4Pact}, bodies::OptionalBody, pact::Pact, generators::*, v4::interaction::V4Interaction};
use serde_json::json;
fn run<T>(f: impl std::future::Future<Output = T>) -> T { tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f) }
fn contents(s: &str) -> MessageContents { MessageContents { contents: OptionalBody::Present(s.to_string().into(), Some("text/plain".into()), None), ..MessageContents::default() } }

fn main() {
  let mut r = contents("x"); r.metadata.insert("k".into(), json!("old"));
  let mut g = Generators::default();
  g.add_generator_with_subcategory(&GeneratorCategory::METADATA, pact_models::path_exp::DocPath::root().join("k"), Generator::RandomHexadecimal(6));
  r.generators = g;
  let mut s = r.clone(); s.contents = OptionalBody::Missing;
  let m = SynchronousMessage { request: contents("r"), response: vec![r, s], ..SynchronousMessage::default() };
  let (_, out) = run(apply_generators_to_sync_message(&m, &GeneratorTestMode::Provider, &Default::default(), &vec![], &Default::default()));
  assert_ne!(out[0].metadata["k"], json!("old"));
  assert_ne!(out[1].metadata["k"], json!("old"));
}
"""
