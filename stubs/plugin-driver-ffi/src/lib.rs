//! Stand-in for the plugin driver: there are no plugins.
use std::collections::HashMap;
use pact_models::{bodies::OptionalBody, content_types::ContentType, generators::Generators, matchingrules::MatchingRuleCategory, plugins::PluginData};
use serde_json::Value;
pub mod plugin_models {
  #[derive(Debug, Clone, Default, PartialEq, Eq, Hash)] pub enum PluginDependencyType { OSPackage, #[default] Plugin, Library }
  #[derive(Debug, Clone, Default, PartialEq, Eq, Hash)] pub struct PluginDependency { pub name: String, pub version: Option<String>, pub dependency_type: PluginDependencyType }
  #[derive(Debug, Clone, Default)] pub struct Manifest { pub name: String, pub version: String }
  #[derive(Debug, Clone, Default)] pub struct PactPlugin { pub manifest: Manifest }
  impl PactPlugin { pub fn update_access(&mut self) {} }
}
pub mod plugin_manager {
  use super::plugin_models::*;
  pub fn lookup_plugin(_: &PluginDependency) -> Option<PactPlugin> { None }
  pub async fn load_plugin(d: &PluginDependency) -> anyhow::Result<PactPlugin> { Err(anyhow::anyhow!("no plugin {}", d.name)) }
  pub fn drop_plugin_access(_: &PluginDependency) {}
}
pub mod content {
  use super::*;
  #[derive(Debug, Clone, Default, PartialEq)] pub struct PluginConfiguration { pub interaction_configuration: HashMap<String, Value>, pub pact_configuration: HashMap<String, Value> }
  impl PluginConfiguration { pub fn is_empty(&self) -> bool { self.interaction_configuration.is_empty() && self.pact_configuration.is_empty() } }
  #[derive(Debug, Clone, Default, PartialEq)]
  pub struct InteractionContents {
    pub part_name: String, pub body: OptionalBody, pub rules: Option<MatchingRuleCategory>, pub generators: Option<Generators>, pub metadata: Option<HashMap<String, Value>>, pub metadata_rules: Option<MatchingRuleCategory>,
    pub plugin_config: PluginConfiguration, pub interaction_markup: String, pub interaction_markup_type: String
  }
}
pub mod catalogue_manager {
  use super::*;
  #[derive(Debug, Clone)] pub struct ContentMatcher;
  impl ContentMatcher {
    pub fn is_core(&self) -> bool { true }
    pub fn plugin_name(&self) -> String { String::new() }
    pub fn plugin_version(&self) -> String { String::new() }
    pub async fn configure_interation(&self, _: &ContentType, _: HashMap<String, Value>) -> anyhow::Result<(Vec<content::InteractionContents>, Option<content::PluginConfiguration>)> { Err(anyhow::anyhow!("no plugin")) }
  }
  pub fn find_content_matcher(_: &ContentType) -> Option<ContentMatcher> { None }
}
