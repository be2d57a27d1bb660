//! Magic numbers of a few common binary formats.
#[derive(Debug, Clone, Copy)]
pub struct Type(&'static str);
impl Type { pub fn mime_type(&self) -> &'static str { self.0 } }
pub fn get(buf: &[u8]) -> Option<Type> {
  const T: &[(&[u8], &str)] = &[
    (b"\x89PNG\r\n\x1a\n", "image/png"), (b"\xff\xd8\xff", "image/jpeg"), (b"GIF87a", "image/gif"), (b"GIF89a", "image/gif"),
    (b"%PDF", "application/pdf"), (b"PK\x03\x04", "application/zip"), (b"\x1f\x8b\x08", "application/gzip"),
    (b"<?xml", "text/xml"), (b"<!DOCTYPE html", "text/html"), (b"BM", "image/bmp"),
  ];
  T.iter().find(|(m, _)| buf.starts_with(m)).map(|(_, t)| Type(t))
}
