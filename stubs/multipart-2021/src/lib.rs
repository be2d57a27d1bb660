//! Stand-in for the part of multipart that writes forms.
pub mod mock {
  #[derive(Default, Debug)] pub struct ClientRequest;
  #[derive(Debug, Clone)] pub struct HttpBuffer { pub buf: Vec<u8>, pub boundary: String }
}
pub mod client {
  use std::{io, path::Path};
  use super::mock::{ClientRequest, HttpBuffer};
  pub struct Multipart { buf: Vec<u8>, boundary: String }
  impl Multipart {
    pub fn from_request(_: ClientRequest) -> io::Result<Multipart> { Ok(Multipart { buf: vec![], boundary: "stand-in-boundary".into() }) }
    pub fn write_file<P: AsRef<Path>>(&mut self, name: &str, path: P) -> io::Result<&mut Self> {
      let path = path.as_ref();
      let content = std::fs::read(path)?;
      let file = path.file_name().map(|n| n.to_string_lossy().to_string()).unwrap_or_default();
      self.buf.extend_from_slice(format!("--{}\r\nContent-Disposition: form-data; name=\"{}\"; filename=\"{}\"\r\nContent-Type: application/octet-stream\r\n\r\n", self.boundary, name, file).as_bytes());
      self.buf.extend_from_slice(&content);
      self.buf.extend_from_slice(b"\r\n");
      Ok(self)
    }
    pub fn send(self) -> io::Result<HttpBuffer> {
      let mut buf = self.buf;
      if !buf.is_empty() { buf.extend_from_slice(format!("--{}--\r\n", self.boundary).as_bytes()); }
      Ok(HttpBuffer { buf, boundary: self.boundary })
    }
  }
}
