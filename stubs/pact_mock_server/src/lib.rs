//! Stand-in for pact_mock_server: it starts nothing, but keeps the pacts it is given.
use std::{net::SocketAddr, panic::RefUnwindSafe, sync::Mutex};
use either::Either;
use pact_models::pact::Pact;
pub type BoxedPact = Box<dyn Pact + Send + Sync + RefUnwindSafe>;
tokio::task_local! { pub static LOG_ID: String; }
pub static MANAGER: Mutex<Option<server_manager::ServerManager>> = Mutex::new(None);
#[derive(Debug, Clone, PartialEq)] pub enum MockServerError { InvalidPactJson, MockServerFailedToStart }
impl std::fmt::Display for MockServerError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self) } }
impl std::error::Error for MockServerError {}
#[derive(Debug, Clone, PartialEq)] pub enum WritePactFileErr { IOError, NoMockServer }
pub mod mock_server {
  use pact_models::PactSpecification;
  #[derive(Debug, Clone, Default)]
  pub struct MockServerConfig { pub cors_preflight: bool, pub pact_specification: PactSpecification, pub transport_config: std::collections::HashMap<String, serde_json::Value> }
  impl MockServerConfig { pub fn from_json(_: &serde_json::Value) -> Self { Self::default() } }
  #[derive(Debug, Clone, Default)] pub struct MockServerMetrics { pub requests: usize }
}
pub mod server_manager {
  use std::ffi::CString;
  #[derive(Debug, Default)] pub struct ServerManager { pub kept: Vec<(u16, CString)> }
  impl ServerManager { pub fn new() -> Self { Self::default() } pub fn store_mock_server_resource(&mut self, p: u16, s: CString) -> bool { self.kept.push((p, s)); true } pub fn find_mock_server_by_port_mut<R>(&mut self, _: u16, _: &dyn Fn(&mut super::MockServer) -> R) -> Option<R> { None } }
}
pub mod tls {
  #[derive(Default)] pub struct TlsConfigBuilder;
  impl TlsConfigBuilder { pub fn new() -> Self { Self } pub fn key(self, _: &[u8]) -> Self { self } pub fn cert(self, _: &[u8]) -> Self { self } pub fn build<T>(self) -> anyhow::Result<T> { Err(anyhow::anyhow!("stand-in")) } }
}
pub struct MockServer { pub id: String, pub pact: BoxedPact }
pub struct PluginMockServer { pub pact: pact_models::v4::pact::V4Pact }
fn none<T>() -> anyhow::Result<T> { Err(anyhow::anyhow!("the stand-in starts no mock server")) }
pub fn create_mock_server(_: &str, _: SocketAddr) -> anyhow::Result<i32> { none() }
pub fn create_tls_mock_server<C>(_: &str, _: SocketAddr, _: &C) -> anyhow::Result<i32> { none() }
pub fn start_tls_mock_server_with_config<C>(_: String, _: BoxedPact, _: SocketAddr, _: &C, _: mock_server::MockServerConfig) -> anyhow::Result<i32> { none() }
pub fn start_mock_server_with_config(_: String, _: BoxedPact, _: SocketAddr, _: mock_server::MockServerConfig) -> anyhow::Result<i32> { none() }
pub fn start_mock_server_for_transport(_: String, _: BoxedPact, _: SocketAddr, _: &str, _: mock_server::MockServerConfig) -> anyhow::Result<i32> { none() }
pub fn mock_server_matched(_: i32) -> bool { false }
pub fn mock_server_mismatches(_: i32) -> Option<String> { None }
pub fn find_mock_server_by_port<R>(_: u16, _: &dyn Fn(&server_manager::ServerManager, &String, Either<&MockServer, &PluginMockServer>) -> R) -> Option<R> { None }
pub fn shutdown_mock_server_by_id(_: &str) -> bool { false }
pub fn write_pact_file(_: i32, _: Option<String>, _: bool) -> Result<(), WritePactFileErr> { Err(WritePactFileErr::NoMockServer) }
pub fn configure_core_catalogue() {}
