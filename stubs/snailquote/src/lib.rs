//! Shell-like quoting and its inverse.
use std::borrow::Cow;
use std::fmt;

#[derive(Debug, Clone, PartialEq)]
pub struct UnescapeError(String);
impl fmt::Display for UnescapeError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
impl std::error::Error for UnescapeError {}

pub fn escape(input: &str) -> Cow<'_, str> {
  if input.is_empty() { return input.into(); }
  let mut special = false;
  let mut double = false;
  for c in input.chars() {
    match c {
      ' ' => special = true,
      '\'' => { special = true; double = true }
      '\\' => { special = true; double = true }
      '"' | '$' | '`' | '!' | '&' | '|' | ';' | '<' | '>' | '(' | ')' | '*' | '?' | '[' | ']' | '{' | '}' | '#' | '~' => special = true,
      c if c.is_control() || c == '\u{7f}' => { special = true; double = true }
      c if c.is_whitespace() => { special = true; double = true }
      _ => ()
    }
  }
  if !special { return input.into(); }
  if !double { return format!("'{}'", input).into(); }
  let mut out = String::from("\"");
  for c in input.chars() {
    match c {
      '"' | '\\' => { out.push('\\'); out.push(c) }
      '\n' => out.push_str("\\n"),
      '\t' => out.push_str("\\t"),
      '\r' => out.push_str("\\r"),
      '\0' => out.push_str("\\u{0}"),
      c if c.is_control() || (c.is_whitespace() && c != ' ') => out.push_str(&format!("\\u{{{:x}}}", c as u32)),
      c => out.push(c)
    }
  }
  out.push('"');
  out.into()
}

pub fn unescape(s: &str) -> Result<String, UnescapeError> {
  let mut out = String::with_capacity(s.len());
  let mut it = s.chars();
  let (mut single, mut double) = (false, false);
  while let Some(c) = it.next() {
    if single {
      if c == '\'' { single = false } else { out.push(c) }
    } else if c == '\'' && !double { single = true }
    else if c == '"' { double = !double }
    else if c == '\\' {
      if !double { out.push('\\'); continue; }
      match it.next() {
        None => return Err(UnescapeError("unterminated escape".into())),
        Some('n') => out.push('\n'), Some('t') => out.push('\t'), Some('r') => out.push('\r'), Some('0') => out.push('\0'),
        Some('a') => out.push('\x07'), Some('b') => out.push('\x08'), Some('v') => out.push('\x0b'), Some('f') => out.push('\x0c'), Some('e') => out.push('\x1b'),
        Some('u') => {
          if it.next() != Some('{') { return Err(UnescapeError("expected {".into())); }
          let hex: String = it.by_ref().take_while(|c| *c != '}').collect();
          let v = u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32).ok_or_else(|| UnescapeError("bad code point".into()))?;
          out.push(v)
        }
        Some(c) => out.push(c)
      }
    } else { out.push(c) }
  }
  if single || double { return Err(UnescapeError("unterminated quote".into())); }
  Ok(out)
}
