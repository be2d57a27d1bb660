//! Stand-in for zeroize.
pub trait Zeroize { fn zeroize(&mut self); }
impl<'a> Zeroize for core::slice::IterMut<'a, u8> { fn zeroize(&mut self) { for b in self { *b = 0; } } }
impl Zeroize for [u8] { fn zeroize(&mut self) { self.fill(0) } }
