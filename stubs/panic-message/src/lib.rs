//! Stand-in for panic-message.
use std::any::Any;
pub fn get_panic_message(p: &Box<dyn Any + Send>) -> Option<&str> {
  p.downcast_ref::<String>().map(|s| s.as_str()).or_else(|| p.downcast_ref::<&'static str>().copied())
}
pub fn panic_message(p: &Box<dyn Any + Send>) -> &str { get_panic_message(p).unwrap_or("Box<dyn Any>") }
