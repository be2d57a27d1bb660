prop = "P07"
needs = "merging two V4 pacts that both hold configuration of the same plugin and version under the same key"
breaks = "the configuration of one pact is lost"
edits = [("rust/pact_models/src/v4/pact.rs", "      .find(|data| data.name == other_data.name && data.version == other_data.version) {\n      data.merge(&other_data.configuration);", "      .find(|data| data.name == other_data.name && data.version == other_data.version) {\n      data.configuration.extend(other_data.configuration.clone());")]
demo = r'''
use pact_models::{pact::{Pact, ReadWritePact}, plugins::PluginData, v4::pact::V4Pact};
use maplit::hashmap;
use serde_json::json;
fn main() {
  let p = |k: &str| V4Pact { plugin_data: vec![PluginData { name: "p".into(), version: "1".into(), configuration: hashmap!{ "files".to_string() => json!({ k: 1 }) } }], ..Default::default() };
  let m = p("a").merge(&p("b")).unwrap();
  assert_eq!(m.plugin_data()[0].configuration["files"], json!({"a": 1, "b": 1}));
}
'''
