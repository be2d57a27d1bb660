//! Offline stand-in for the parts of reqwest the repository uses: plain HTTP/1.1 over TcpStream.
use std::fmt;
use std::io::{Read, Write};
use std::net::TcpStream;
use std::time::Duration;
use base64::Engine;

#[derive(Debug)]
pub struct Error(pub String);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
impl std::error::Error for Error {}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct StatusCode(pub u16);
impl StatusCode {
  pub fn is_success(&self) -> bool { (200..300).contains(&self.0) }
  pub fn as_u16(&self) -> u16 { self.0 }
}
impl fmt::Display for StatusCode { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }

#[derive(Debug, Clone)]
pub struct RawRequest { pub method: &'static str, pub url: String, pub headers: Vec<(String, String)>, pub body: Vec<u8> }

fn perform(req: &RawRequest) -> Result<(StatusCode, Vec<u8>), Error> {
  let e = |s: String| Error(s);
  let rest = req.url.strip_prefix("http://").ok_or_else(|| e(format!("unsupported URL {}", req.url)))?;
  let (host, path) = match rest.find('/') { Some(i) => (&rest[..i], &rest[i..]), None => (rest, "/") };
  let addr = if host.contains(':') { host.to_string() } else { format!("{}:80", host) };
  let mut s = TcpStream::connect(&addr).map_err(|x| e(x.to_string()))?;
  s.set_read_timeout(Some(Duration::from_secs(20))).ok();
  let mut head = format!("{} {} HTTP/1.1\r\nHost: {}\r\nAccept: */*\r\nConnection: close\r\nContent-Length: {}\r\n", req.method, path, host, req.body.len());
  for (k, v) in &req.headers { head.push_str(&format!("{}: {}\r\n", k, v)); }
  head.push_str("\r\n");
  s.write_all(head.as_bytes()).map_err(|x| e(x.to_string()))?;
  s.write_all(&req.body).map_err(|x| e(x.to_string()))?;
  let mut buf = vec![];
  s.read_to_end(&mut buf).map_err(|x| e(x.to_string()))?;
  let pos = buf.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(|| e("no response head".into()))?;
  let head = String::from_utf8_lossy(&buf[..pos]).to_string();
  let status = head.split_whitespace().nth(1).and_then(|s| s.parse().ok()).ok_or_else(|| e("bad status".into()))?;
  Ok((StatusCode(status), buf[pos + 4..].to_vec()))
}

#[derive(Debug, Clone)]
pub struct Builder(RawRequest);
fn new_builder(method: &'static str, url: &str) -> Builder {
  Builder(RawRequest { method, url: url.to_string(), headers: vec![], body: vec![] })
}

macro_rules! builder_methods { () => {
  pub fn basic_auth<U: fmt::Display, P: fmt::Display>(mut self, u: U, p: Option<P>) -> Self {
    let raw = match p { Some(p) => format!("{}:{}", u, p), None => format!("{}:", u) };
    self.0.0.headers.push(("Authorization".into(), format!("Basic {}", base64::engine::general_purpose::STANDARD.encode(raw))));
    self
  }
  pub fn bearer_auth<T: fmt::Display>(mut self, t: T) -> Self {
    self.0.0.headers.push(("Authorization".into(), format!("Bearer {}", t)));
    self
  }
  pub fn form<T: serde::Serialize + ?Sized>(self, _: &T) -> Self { self }
  pub fn timeout(self, _: Duration) -> Self { self }
} }

pub mod blocking {
  use super::*;
  #[derive(Debug, Clone, Default)] pub struct Client;
  pub struct RequestBuilder(Builder);
  pub struct Response { status: StatusCode, body: Vec<u8> }
  impl Client {
    pub fn new() -> Self { Client }
    pub fn get<S: AsRef<str>>(&self, url: S) -> RequestBuilder { RequestBuilder(new_builder("GET", url.as_ref())) }
  }
  impl RequestBuilder {
    builder_methods!();
    pub fn send(self) -> Result<Response, Error> { perform(&self.0.0).map(|(status, body)| Response { status, body }) }
  }
  impl Response {
    pub fn status(&self) -> StatusCode { self.status }
    pub fn json<T: serde::de::DeserializeOwned>(self) -> Result<T, Error> {
      serde_json::from_slice(&self.body).map_err(|e| Error(e.to_string()))
    }
    pub fn text(self) -> Result<String, Error> { Ok(String::from_utf8_lossy(&self.body).to_string()) }
  }
}

#[derive(Debug, Clone, Default)] pub struct Client;
pub struct RequestBuilder(Builder);
pub struct Response { status: StatusCode, body: Vec<u8> }
impl Client {
  pub fn new() -> Self { Client }
  pub fn get<S: AsRef<str>>(&self, url: S) -> RequestBuilder { RequestBuilder(new_builder("GET", url.as_ref())) }
  pub fn post<S: AsRef<str>>(&self, url: S) -> RequestBuilder { RequestBuilder(new_builder("POST", url.as_ref())) }
}
impl RequestBuilder {
  builder_methods!();
  pub async fn send(self) -> Result<Response, Error> { perform(&self.0.0).map(|(status, body)| Response { status, body }) }
}
impl Response {
  pub fn status(&self) -> StatusCode { self.status }
  pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T, Error> {
    serde_json::from_slice(&self.body).map_err(|e| Error(e.to_string()))
  }
}
