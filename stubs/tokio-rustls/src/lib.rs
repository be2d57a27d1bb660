//! Stand-in for tokio-rustls: names only.
pub mod rustls { #[derive(Debug, Clone)] pub struct ServerConfig; }
