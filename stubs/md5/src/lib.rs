//! Only used for the anonymous client id of the usage metrics, which are switched off here.
use std::fmt;
pub struct Digest(pub [u8; 16]);
impl fmt::LowerHex for Digest {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { for b in self.0 { write!(f, "{:02x}", b)?; } Ok(()) }
}
pub fn compute<T: AsRef<[u8]>>(data: T) -> Digest {
  let mut h: u128 = 0xcbf29ce484222325;
  for b in data.as_ref() { h = (h ^ *b as u128).wrapping_mul(0x0000000001000000000000000000013B); }
  Digest(h.to_be_bytes())
}
