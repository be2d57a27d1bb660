//! Offline stand-in for the parts of the onig crate used by the repository.
use std::fmt;

#[derive(Debug)]
pub struct Regex { inner: fancy_regex::Regex, whole: std::sync::OnceLock<Option<fancy_regex::Regex>> }

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.0) } }
impl std::error::Error for Error {}

pub struct Captures<'t> { inner: fancy_regex::Captures<'t> }
impl<'t> Captures<'t> {
  pub fn at(&self, i: usize) -> Option<&'t str> { self.inner.get(i).map(|m| m.as_str()) }
  pub fn pos(&self, i: usize) -> Option<(usize, usize)> { self.inner.get(i).map(|m| (m.start(), m.end())) }
  pub fn len(&self) -> usize { self.inner.len() }
  pub fn is_empty(&self) -> bool { self.len() == 0 }
}

pub trait Replacer { fn reg_replace(&mut self, caps: &Captures) -> String; }
impl<F> Replacer for F where F: FnMut(&Captures) -> String {
  fn reg_replace(&mut self, caps: &Captures) -> String { self(caps) }
}
impl Replacer for &str { fn reg_replace(&mut self, _: &Captures) -> String { self.to_string() } }

impl Regex {
  pub fn new(pattern: &str) -> Result<Self, Error> {
    fancy_regex::Regex::new(pattern).map(|inner| Regex { inner, whole: Default::default() }).map_err(|e| Error(e.to_string()))
  }
  pub fn find(&self, text: &str) -> Option<(usize, usize)> {
    self.inner.find(text).ok().flatten().map(|m| (m.start(), m.end()))
  }
  pub fn is_match(&self, text: &str) -> bool {
    // onig's is_match requires the whole input to be matched
    let whole = self.whole.get_or_init(|| fancy_regex::Regex::new(&format!("\\A(?:{})\\z", self.inner.as_str())).ok());
    match whole { Some(re) => re.is_match(text).unwrap_or(false), None => false }
  }
  pub fn captures<'t>(&self, text: &'t str) -> Option<Captures<'t>> {
    self.inner.captures(text).ok().flatten().map(|inner| Captures { inner })
  }
  fn replacen<R: Replacer>(&self, text: &str, limit: usize, mut rep: R) -> String {
    let mut out = String::new();
    let mut last = 0;
    for (i, c) in self.inner.captures_iter(text).enumerate() {
      if limit > 0 && i >= limit { break; }
      let c = match c { Ok(c) => Captures { inner: c }, Err(_) => break };
      let (s, e) = c.pos(0).unwrap();
      out.push_str(&text[last..s]);
      out.push_str(&rep.reg_replace(&c));
      last = e;
    }
    out.push_str(&text[last..]);
    out
  }
  pub fn captures_len(&self) -> usize { self.inner.captures_len() - 1 }
  pub fn replace<R: Replacer>(&self, text: &str, rep: R) -> String { self.replacen(text, 1, rep) }
  pub fn replace_all<R: Replacer>(&self, text: &str, rep: R) -> String { self.replacen(text, 0, rep) }
}

pub trait EncodedChars {
  fn len(&self) -> usize;
  fn is_empty(&self) -> bool { self.len() == 0 }
}
impl EncodedChars for &str { fn len(&self) -> usize { str::len(self) } }
