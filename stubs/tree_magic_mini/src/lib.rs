//! Text or binary only.
pub fn from_u8(bytes: &[u8]) -> &'static str {
  match std::str::from_utf8(bytes) {
    Ok(s) if !s.chars().any(|c| c.is_control() && !c.is_whitespace()) => "text/plain",
    _ => "application/octet-stream"
  }
}
