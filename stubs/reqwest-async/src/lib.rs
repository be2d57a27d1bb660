//! Offline stand-in for the parts of reqwest the repository uses. Requests are built the way reqwest builds
//! them (URLs by the url crate, queries by serde_urlencoded, default headers filled in last) and are given to
//! the handler registered for the authority of their URL (`serve`), which answers or fails.
use std::collections::HashMap;
use std::fmt;
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Duration;
use base64::Engine;
use bytes::Bytes;
pub use http::{header, HeaderMap, Method, StatusCode};
use http::header::{HeaderName, HeaderValue};
pub use url::Url;

/// A request as it leaves the client.
#[derive(Debug, Clone)]
pub struct Sent { pub method: Method, pub url: Url, pub headers: HeaderMap, pub body: Option<Bytes> }

/// What a handler does with a request.
pub enum Reply {
  /// Answers
  Response(u16, Vec<(String, Vec<u8>)>, Bytes),
  /// The connection fails before there is an answer
  Refuse,
  /// There is a status and headers, but the connection breaks while the body is read
  Cut(u16, Vec<(String, Vec<u8>)>)
}

pub type Handler = Arc<dyn Fn(&Sent) -> Reply + Send + Sync>;

fn handlers() -> &'static Mutex<HashMap<String, Handler>> {
  static H: OnceLock<Mutex<HashMap<String, Handler>>> = OnceLock::new();
  H.get_or_init(Default::default)
}
/// Registers the handler for `host`
pub fn serve(host: &str, h: Handler) { handlers().lock().unwrap().insert(host.to_string(), h); }
/// Removes the handler for `host`
pub fn stop(host: &str) { handlers().lock().unwrap().remove(host); }

#[derive(Debug)]
enum Kind { Builder, Request, Body, Decode }
#[derive(Debug)]
pub struct Error { kind: Kind, what: String, url: Option<Url> }
impl Error {
  fn new(kind: Kind, what: impl ToString, url: Option<Url>) -> Error { Error { kind, what: what.to_string(), url } }
  pub fn is_status(&self) -> bool { false }
  pub fn status(&self) -> Option<StatusCode> { None }
  pub fn is_builder(&self) -> bool { matches!(self.kind, Kind::Builder) }
}
impl fmt::Display for Error {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    let _ = &self.what;
    match self.kind {
      Kind::Builder => f.write_str("builder error")?,
      Kind::Request => f.write_str("error sending request")?,
      Kind::Body => f.write_str("request or response body error")?,
      Kind::Decode => f.write_str("error decoding response body")?
    };
    if let Some(url) = &self.url { write!(f, " for url ({})", url)?; }
    Ok(())
  }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

pub trait IntoUrl { fn into_url(self) -> Result<Url>; }
fn parse(s: &str) -> Result<Url> {
  let url = Url::parse(s).map_err(|e| Error::new(Kind::Builder, e, None))?;
  if url.has_host() { Ok(url) } else { Err(Error::new(Kind::Builder, "URL scheme is not allowed", Some(url))) }
}
impl IntoUrl for &str { fn into_url(self) -> Result<Url> { parse(self) } }
impl IntoUrl for &String { fn into_url(self) -> Result<Url> { parse(self) } }
impl IntoUrl for String { fn into_url(self) -> Result<Url> { parse(&self) } }
impl IntoUrl for Url { fn into_url(self) -> Result<Url> { parse(self.as_str()) } }

#[derive(Debug, Clone)]
pub struct Body(Bytes);
impl From<Bytes> for Body { fn from(b: Bytes) -> Self { Body(b) } }
impl From<String> for Body { fn from(b: String) -> Self { Body(b.into()) } }
impl From<&'static str> for Body { fn from(b: &'static str) -> Self { Body(b.into()) } }
impl From<Vec<u8>> for Body { fn from(b: Vec<u8>) -> Self { Body(b.into()) } }
impl Body { pub fn as_bytes(&self) -> Option<&[u8]> { Some(&self.0) } }

#[derive(Debug, Clone)]
pub struct Request { method: Method, url: Url, headers: HeaderMap, body: Option<Body> }
impl Request {
  pub fn method(&self) -> &Method { &self.method }
  pub fn url(&self) -> &Url { &self.url }
  pub fn headers(&self) -> &HeaderMap { &self.headers }
  pub fn body(&self) -> Option<&Body> { self.body.as_ref() }
}

fn perform(defaults: &HeaderMap, mut req: Request) -> Result<Response> {
  for (k, v) in defaults {
    if !req.headers.contains_key(k) { req.headers.insert(k.clone(), v.clone()); }
  }
  let sent = Sent { method: req.method, url: req.url.clone(), headers: req.headers, body: req.body.map(|b| b.0) };
  if !matches!(sent.url.scheme(), "http" | "https") { return Err(Error::new(Kind::Builder, "scheme", Some(req.url))); }
  let h = sent.url.host_str().and_then(|h| handlers().lock().unwrap().get(h).cloned());
  let Some(h) = h else { return Err(Error::new(Kind::Request, "no such host", Some(req.url))) };
  let (status, list, body) = match h(&sent) {
    Reply::Refuse => return Err(Error::new(Kind::Request, "refused", Some(req.url))),
    Reply::Response(s, h, b) => (s, h, Some(b)),
    Reply::Cut(s, h) => (s, h, None)
  };
  let mut headers = HeaderMap::new();
  for (k, v) in list {
    headers.append(HeaderName::try_from(k.as_str()).expect("header name"), HeaderValue::from_bytes(&v).expect("header value"));
  }
  Ok(Response { status: StatusCode::from_u16(status).expect("status"), headers, body, url: req.url })
}

#[derive(Debug, Clone)]
pub struct Client { defaults: HeaderMap }
impl Default for Client { fn default() -> Self { ClientBuilder::new().build().unwrap() } }
#[derive(Debug)]
pub struct ClientBuilder { defaults: HeaderMap }
impl Default for ClientBuilder { fn default() -> Self { ClientBuilder::new() } }
impl ClientBuilder {
  pub fn new() -> Self {
    let mut defaults = HeaderMap::new();
    defaults.insert(header::ACCEPT, HeaderValue::from_static("*/*"));
    ClientBuilder { defaults }
  }
  pub fn danger_accept_invalid_certs(self, _: bool) -> Self { self }
  pub fn timeout(self, _: Duration) -> Self { self }
  pub fn tcp_keepalive(self, _: impl Into<Option<Duration>>) -> Self { self }
  pub fn user_agent(mut self, v: impl AsRef<str>) -> Self {
    self.defaults.insert(header::USER_AGENT, HeaderValue::from_str(v.as_ref()).unwrap());
    self
  }
  pub fn default_headers(mut self, headers: HeaderMap) -> Self {
    for (k, v) in headers.iter() { self.defaults.insert(k.clone(), v.clone()); }
    self
  }
  pub fn build(self) -> Result<Client> { Ok(Client { defaults: self.defaults }) }
}
impl Client {
  pub fn new() -> Self { Client::default() }
  pub fn builder() -> ClientBuilder { ClientBuilder::new() }
  pub fn request<U: IntoUrl>(&self, method: Method, url: U) -> RequestBuilder {
    let request = url.into_url().map(|url| Request { method, url, headers: HeaderMap::new(), body: None });
    RequestBuilder { client: self.clone(), request }
  }
  pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::GET, url) }
  pub fn post<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::POST, url) }
  pub fn put<U: IntoUrl>(&self, url: U) -> RequestBuilder { self.request(Method::PUT, url) }
}

#[derive(Debug)]
pub struct RequestBuilder { client: Client, request: Result<Request> }

macro_rules! builder_methods { () => {
  fn set(mut self, f: impl FnOnce(&mut Request) -> Result<()>) -> Self {
    if let Ok(r) = &mut self.request { if let Err(e) = f(r) { self.request = Err(e); } }
    self
  }
  pub fn header<K, V>(self, key: K, value: V) -> Self
  where HeaderName: TryFrom<K>, HeaderValue: TryFrom<V> {
    self.set(|r| {
      let k = HeaderName::try_from(key).map_err(|_| Error::new(Kind::Builder, "header name", None))?;
      let v = HeaderValue::try_from(value).map_err(|_| Error::new(Kind::Builder, "header value", None))?;
      r.headers.append(k, v);
      Ok(())
    })
  }
  pub fn headers(self, headers: HeaderMap) -> Self {
    self.set(|r| {
      for k in headers.keys() { r.headers.remove(k); }
      for (k, v) in headers.iter() { r.headers.append(k.clone(), v.clone()); }
      Ok(())
    })
  }
  pub fn query<T: serde::Serialize + ?Sized>(self, query: &T) -> Self {
    self.set(|r| {
      {
        let mut pairs = r.url.query_pairs_mut();
        let s = serde_urlencoded::Serializer::new(&mut pairs);
        query.serialize(s).map_err(|e| Error::new(Kind::Builder, e, None))?;
      }
      if let Some("") = r.url.query() { r.url.set_query(None); }
      Ok(())
    })
  }
  pub fn basic_auth<U: fmt::Display, P: fmt::Display>(self, u: U, p: Option<P>) -> Self {
    let raw = match p { Some(p) => format!("{}:{}", u, p), None => format!("{}:", u) };
    self.header(header::AUTHORIZATION, format!("Basic {}", base64::engine::general_purpose::STANDARD.encode(raw)))
  }
  pub fn bearer_auth<T: fmt::Display>(self, t: T) -> Self { self.header(header::AUTHORIZATION, format!("Bearer {}", t)) }
  pub fn body<T: Into<Body>>(self, body: T) -> Self { self.set(|r| { r.body = Some(body.into()); Ok(()) }) }
  pub fn form<T: serde::Serialize + ?Sized>(self, form: &T) -> Self {
    self.set(|r| {
      let body = serde_urlencoded::to_string(form).map_err(|e| Error::new(Kind::Builder, e, None))?;
      r.headers.entry(header::CONTENT_TYPE).or_insert(HeaderValue::from_static("application/x-www-form-urlencoded"));
      r.body = Some(body.into());
      Ok(())
    })
  }
  pub fn json<T: serde::Serialize + ?Sized>(self, json: &T) -> Self {
    self.set(|r| {
      let body = serde_json::to_vec(json).map_err(|e| Error::new(Kind::Builder, e, None))?;
      r.headers.entry(header::CONTENT_TYPE).or_insert(HeaderValue::from_static("application/json"));
      r.body = Some(body.into());
      Ok(())
    })
  }
  pub fn timeout(self, _: Duration) -> Self { self }
  pub fn build(self) -> Result<Request> { self.request }
} }

impl RequestBuilder {
  builder_methods!();
  pub fn try_clone(&self) -> Option<RequestBuilder> {
    self.request.as_ref().ok().map(|r| RequestBuilder { client: self.client.clone(), request: Ok(r.clone()) })
  }
  pub async fn send(self) -> Result<Response> { perform(&self.client.defaults, self.request?) }
}

#[derive(Debug)]
pub struct Response { status: StatusCode, headers: HeaderMap, body: Option<Bytes>, url: Url }
impl Response {
  pub fn status(&self) -> StatusCode { self.status }
  pub fn headers(&self) -> &HeaderMap { &self.headers }
  pub fn url(&self) -> &Url { &self.url }
  fn take(self) -> Result<Bytes> { self.body.ok_or_else(|| Error::new(Kind::Body, "cut", Some(self.url))) }
  pub async fn bytes(self) -> Result<Bytes> { self.take() }
  pub async fn text(self) -> Result<String> { self.take().map(|b| String::from_utf8_lossy(&b).to_string()) }
  pub async fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> {
    let url = self.url.clone();
    serde_json::from_slice(&self.take()?).map_err(|e| Error::new(Kind::Decode, e, Some(url)))
  }
}

pub mod blocking {
  use super::*;
  #[derive(Debug, Clone, Default)] pub struct Client(super::Client);
  impl Client {
    pub fn new() -> Self { Client::default() }
    pub fn get<U: IntoUrl>(&self, url: U) -> RequestBuilder {
      RequestBuilder { client: self.0.clone(), request: self.0.get(url).request }
    }
  }
  pub struct RequestBuilder { client: super::Client, request: Result<Request> }
  impl RequestBuilder {
    builder_methods!();
    pub fn send(self) -> Result<Response> { perform(&self.client.defaults, self.request?).map(Response) }
  }
  #[derive(Debug)] pub struct Response(super::Response);
  impl Response {
    pub fn status(&self) -> StatusCode { self.0.status }
    pub fn headers(&self) -> &HeaderMap { &self.0.headers }
    pub fn json<T: serde::de::DeserializeOwned>(self) -> Result<T> {
      let url = self.0.url.clone();
      serde_json::from_slice(&self.0.take()?).map_err(|e| Error::new(Kind::Decode, e, Some(url)))
    }
    pub fn text(self) -> Result<String> { self.0.take().map(|b| String::from_utf8_lossy(&b).to_string()) }
    pub fn bytes(self) -> Result<Bytes> { self.0.take() }
  }
}
