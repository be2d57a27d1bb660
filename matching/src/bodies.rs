//! Matching of bodies: presence and content type, XML, forms, texts and binary contents.
use proptest::prelude::*;
use pvfw::{ensure, ensure_eq, Case, H, R};
use serde_json::Value;
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::task::{Context, Poll, Waker};
use bytes::Bytes;
use pact_matching::{match_body, BodyMatchResult, CoreMatchingContext, DiffConfig, HeaderMatchingContext, Mismatch};
use pact_models::bodies::OptionalBody;
use pact_models::content_types::ContentType;
use pact_models::matchingrules::{MatchingRule, MatchingRuleCategory, RuleList, RuleLogic};
use pact_models::v4::http_parts::HttpRequest;
use crate::g::B;
use crate::http::*;
use crate::jm::*;

pub fn wait<F: Future>(f: F) -> F::Output {
  let mut f = std::pin::pin!(f);
  let mut cx = Context::from_waker(Waker::noop());
  for _ in 0..1000 { if let Poll::Ready(v) = f.as_mut().poll(&mut cx) { return v; } }
  panic!("the future does not finish")
}

// ---------------------------------------------------------------- content types
/// A content type: how it is written, its two names, suffix and attributes.
#[derive(Clone, Debug, PartialEq)]
pub struct Ct { pub main: String, pub sub: String, pub suffix: Option<String>, pub attrs: BTreeMap<String, String> }
impl Ct {
  pub fn text(&self) -> String {
    format!("{}/{}{}{}", self.main, self.sub, self.suffix.as_ref().map(|s| format!("+{}", s)).unwrap_or_default(), self.attrs.iter().map(|(k, v)| format!(";{}={}", k, v)).collect::<String>())
  }
  fn new(main: &str, sub: &str, suffix: Option<&str>) -> Ct { Ct { main: main.into(), sub: sub.into(), suffix: suffix.map(|s| s.into()), attrs: BTreeMap::new() } }
  fn is(&self, main: &str, sub: &str) -> bool { self.main == main && self.sub == sub }
  fn xml_itself(&self) -> bool { (self.main == "application" || self.main == "text") && self.sub == "xml" && self.suffix.is_none() }
  /// Attributes are only compared when the first type has some; the two names of XML are the same.
  pub fn accepts(&self, o: &Ct) -> bool {
    let names = (self.main == o.main && self.sub == o.sub && self.suffix == o.suffix) || (self.xml_itself() && o.xml_itself());
    names && (self.attrs.is_empty() || self.attrs == o.attrs)
  }
  fn base(&self) -> Ct { Ct { main: self.main.clone(), sub: self.suffix.clone().unwrap_or(self.sub.clone()), suffix: None, attrs: BTreeMap::new() } }
  pub fn how(&self) -> How {
    if self.main == "application" && (self.sub.starts_with("json") || self.suffix.as_deref() == Some("json") || self.sub == "graphql") { How::Json }
    else if (self.main == "application" || self.main == "text") && (self.sub == "xml" || self.suffix.as_deref() == Some("xml")) { How::Xml }
    else if self.is("application", "x-www-form-urlencoded") { How::Form }
    else if self.main == "text" || self.main == "multipart" { How::Text }
    else { How::Binary }
  }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum How { Json, Xml, Form, Text, Binary }

pub fn ct() -> B<Ct> {
  let names = prop::sample::select(vec![("application", "json", None), ("application", "vnd.a", Some("json")), ("application", "hal", Some("json")), ("application", "hal", Some("xml")), ("application", "hal", None), ("application", "xml", None), ("text", "xml", None), ("application", "atom", Some("xml")),
    ("text", "plain", None), ("text", "csv", None), ("application", "x-www-form-urlencoded", None), ("application", "octet-stream", None), ("image", "png", None), ("image", "svg", Some("xml")), ("application", "graphql", None), ("application", "pdf", None), ("application", "javascript", None)]);
  (names, prop::collection::btree_map(prop::sample::select(vec!["charset", "v", "profile"]), prop::sample::select(vec!["utf-8", "1", "us-ascii"]), 0..3), prop::bool::weighted(0.7))
    .prop_map(|((m, s, x), a, bare)| Ct { attrs: if bare { BTreeMap::new() } else { a.into_iter().map(|(k, v)| (k.to_string(), v.to_string())).collect() }, ..Ct::new(m, s, x) }).boxed()
}

// ---------------------------------------------------------------- contents with known meaning
/// Contents and what they mean to each way of reading them.
fn samples() -> Vec<Bytes> {
  let mut v: Vec<Bytes> = ["{\"a\":1}", "{ \"a\" : 1 }", "{\"a\":2}", "[1]", "[ 1]", "<a/>", "<a></a>", "<a b='1'/>", "<a b=\"1\" ></a>", "<b/>", "a=b", "a=%62", "a=c", "a=b&c", "c&a=b", "plain", "plain ", "Plain", "x", ""].iter().map(|s| Bytes::from(s.to_string())).collect();
  v.push(Bytes::from(vec![0xffu8, 0xfe, 0]));
  v.push(Bytes::from(vec![0xffu8, 0xfe, 1]));
  v
}
fn meaning(how: How, b: &Bytes) -> Option<String> {
  match how {
    How::Text | How::Binary => Some(format!("{:?}", b)),
    How::Json => serde_json::from_slice::<Value>(b).ok().map(|v| v.to_string()),
    How::Xml => match std::str::from_utf8(b).ok()? { "<a/>" | "<a></a>" => Some("a".into()), "<b/>" => Some("b".into()), "<a b='1'/>" | "<a b=\"1\" ></a>" => Some("ab".into()), _ => None },
    How::Form => { let mut p = form_decode(b); p.sort(); Some(format!("{:?}", p)) }
  }
}
fn form_decode(b: &[u8]) -> Vec<(String, String)> {
  let un = |s: &[u8]| {
    let mut out = vec![]; let mut i = 0;
    while i < s.len() {
      let hex = |c: u8| (c as char).to_digit(16).map(|d| d as u8);
      match s[i] { b'+' => out.push(b' '), b'%' if i + 2 < s.len() + 0 && hex(s[i + 1]).is_some() && hex(s[i + 2]).is_some() => { out.push(hex(s[i + 1]).unwrap() * 16 + hex(s[i + 2]).unwrap()); i += 2; } c => out.push(c) }
      i += 1;
    }
    String::from_utf8_lossy(&out).to_string()
  };
  b.split(|c| *c == b'&').filter(|p| !p.is_empty()).map(|p| match p.iter().position(|c| *c == b'=') { Some(i) => (un(&p[..i]), un(&p[i + 1..])), None => (un(p), String::new()) }).collect()
}
/// The type that is found by looking at the contents.
fn looks_like(b: &Bytes) -> Ct {
  match std::str::from_utf8(b) {
    Ok(s) if s.starts_with('{') || s.starts_with('[') => Ct::new("application", "json", None),
    Ok(s) if s.starts_with('<') => Ct::new("application", "xml", None),
    _ => Ct::new("text", "plain", None)
  }
}

#[derive(Clone, Debug)]
pub enum Bd { Missing, Empty, Null, Here(Bytes) }
#[derive(Clone, Debug)]
pub struct Part { pub body: Bd, pub header: Option<Ct>, pub own: Option<Ct>, pub name: u8 }
impl Part {
  pub fn build(&self) -> HttpRequest {
    HttpRequest {
      headers: self.header.as_ref().map(|h| HashMap::from([(["Content-Type", "content-type", "CONTENT-TYPE"][self.name as usize % 3].to_string(), vec![h.text()])])),
      body: match &self.body { Bd::Missing => OptionalBody::Missing, Bd::Empty => OptionalBody::Empty, Bd::Null => OptionalBody::Null, Bd::Here(b) => OptionalBody::Present(b.clone(), self.own.as_ref().map(|c| ContentType::parse(c.text().as_str()).unwrap()), None) },
      ..HttpRequest::default()
    }
  }
  fn ct(&self) -> Option<Ct> {
    match (&self.body, &self.own) { (Bd::Here(_), Some(c)) => Some(c.clone()), (Bd::Here(b), None) => Some(self.header.clone().unwrap_or_else(|| looks_like(b))), _ => self.header.clone() }
  }
}

pub fn config(strict: bool) -> DiffConfig { if strict { DiffConfig::NoUnexpectedKeys } else { DiffConfig::AllowUnexpectedKeys } }

pub fn p35(h: &mut H) {
  let bd = || prop_oneof![1 => Just(Bd::Missing), 1 => Just(Bd::Empty), 1 => Just(Bd::Null), 9 => prop::sample::select(samples()).prop_map(Bd::Here)];
  h.check("presence and type", 60000, "both bodies are there and a content type is declared",
    || ((bd(), bd(), prop::bool::weighted(0.3)), (prop::option::weighted(0.7, ct()), prop::option::weighted(0.7, ct()), prop::bool::weighted(0.4)), (prop::option::weighted(0.15, ct()), prop::option::weighted(0.15, ct())), prop::option::weighted(0.25, rl()), (any::<bool>(), any::<u8>(), any::<u8>())),
    |((eb, ab, same), (eh, ah, same_type), (eo, ao), hr, (strict, n1, n2)), c| {
      let e = Part { body: eb.clone(), header: eh.clone(), own: eo.clone(), name: *n1 };
      let a = Part { body: if *same { eb.clone() } else { ab.clone() }, header: if *same_type { eh.clone() } else { ah.clone() }, own: ao.clone(), name: *n2 };
      let here = |p: &Part| matches!(p.body, Bd::Here(_));
      c.nontrivial(here(&e) && here(&a) && (e.header.is_some() || a.header.is_some()));
      let rules: Rules = hr.iter().map(|l| (vec![Tok::F("Content-Type".into())], l.clone())).collect();
      let hc = HeaderMatchingContext::new(&ctx(&rules, "header", true));
      let got = wait(match_body(&e.build(), &a.build(), &ctx(&vec![], "body", *strict), &hc));
      let (et, at) = (e.ct(), a.ct());
      let text = |t: &Option<Ct>| t.as_ref().map(|t| t.text()).unwrap_or("*/*".into());
      let comparable = match (&et, &at) {
        (None, _) | (_, None) => true,
        (Some(et), Some(at)) => et.accepts(at) || et.accepts(&at.base()) || hr.as_ref().map(|l| text_list_ok(l, &et.text(), &at.text())).unwrap_or(false)
      };
      let ctx = format!("{:?} with {:?}: {:?}", e, a, got);
      ensure_eq!(got.all_matched(), got.mismatches().is_empty(), "all_matched and the mismatches disagree: {}", ctx);
      if !comparable {
        c.label("types differ");
        if !here(&e) { ensure!(got == BodyMatchResult::Ok, "no body is expected: {}", ctx); return Ok(()); }
        let BodyMatchResult::BodyTypeMismatch { expected_type, actual_type, message, expected, actual } = &got else { return Err(format!("the types differ: {}", ctx)) };
        ensure_eq!((expected_type, actual_type), (&text(&et), &text(&at)), "types in {}", ctx);
        ensure!(!message.is_empty(), "no message");
        let val = |p: &Part| match &p.body { Bd::Here(b) => Some(b.clone()), _ => None };
        ensure_eq!((expected, actual), (&val(&e), &val(&a)), "bodies in {}", ctx);
        ensure!(matches!(got.mismatches().as_slice(), [Mismatch::BodyTypeMismatch { expected, actual, .. }] if expected == expected_type && actual == actual_type), "{:?}", got.mismatches());
        return Ok(());
      }
      let want = match (&e.body, &a.body) {
        (Bd::Missing, _) => true,
        (Bd::Empty | Bd::Null, x) => !matches!(x, Bd::Here(_)),
        (Bd::Here(_), Bd::Missing | Bd::Empty) => false,
        (Bd::Here(b), Bd::Null) => { if b.is_empty() { c.label("an empty body and null (not judged)"); return Ok(()); } false }
        (Bd::Here(x), Bd::Here(y)) => {
          let how = et.as_ref().map(|t| t.how()).unwrap_or(How::Binary);
          c.label(format!("{:?} {}", how, if x == y { "same" } else { "other" }));
          match (meaning(how, x), meaning(how, y)) { (Some(x), Some(y)) => x == y || (!strict && x == "a" && y == "ab"), _ => false }
        }
      };
      c.label(if want { "match" } else { "mismatch" });
      ensure_eq!(got.all_matched(), want, "{}", ctx);
      if let (false, BodyMatchResult::BodyTypeMismatch { .. }) = (want, &got) { return Err(format!("the types are comparable: {}", ctx)); }
      for m in got.mismatches() { ensure!(matches!(&m, Mismatch::BodyMismatch { mismatch, .. } if !mismatch.is_empty()), "{:?}", m); }
      Ok(())
    });
}

// ---------------------------------------------------------------- XML
pub struct Lcg(pub u64);
impl Lcg { pub fn n(&mut self, n: u64) -> u64 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (self.0 >> 33) % n } }
#[derive(Clone, Debug, PartialEq)]
pub enum Node { El(X), Text(String) }
#[derive(Clone, Debug, PartialEq)]
pub struct X { pub name: (u8, String), pub attrs: BTreeMap<(u8, String), String>, pub kids: Vec<Node> }
const NS: [&str; 3] = ["", "urn:x", "http://y.z/"];
fn qn(n: &(u8, String)) -> String { if n.0 == 0 { n.1.clone() } else { format!("{}:{}", NS[n.0 as usize], n.1) } }

fn xname() -> B<(u8, String)> { (prop_oneof![12 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)], prop_oneof![8 => "[a-c]", 1 => Just("e-f".to_string()), 1 => Just("A".to_string())]).boxed() }
fn xtext() -> B<String> { prop_oneof![3 => texts(), 2 => prop::sample::select(vec!["a & b", "a &b", "<", "x > y", "\"q\" 'r'", "a  b", "]]>", "&amp;", "1", "2"]).prop_map(|s| s.to_string())].boxed() }
pub fn xml() -> B<X> {
  let attrs = || prop_oneof![2 => Just(BTreeMap::new()), 1 => prop::collection::btree_map((prop_oneof![10 => Just(0u8), 1 => Just(1u8)], prop::sample::select(vec!["id", "n", "b"])).prop_map(|(n, s)| (n, s.to_string())), xtext(), 1..3)];
  let leaf = (xname(), attrs(), prop::option::weighted(0.6, xtext())).prop_map(|(name, attrs, t)| X { name, attrs, kids: t.map(Node::Text).into_iter().collect() });
  leaf.prop_recursive(3, 16, 4, move |inner| (xname(), attrs(), prop::collection::vec(prop_oneof![6 => inner.prop_map(Node::El), 1 => xtext().prop_map(Node::Text)], 1..4)).prop_map(|(name, attrs, kids)| X { name, attrs, kids })).boxed()
}
impl X {
  /// Neighbouring texts are one text, and the ends of a text do not count.
  fn runs(&self) -> Vec<Node> {
    let mut out: Vec<Node> = vec![];
    for k in &self.kids { match (k, out.last_mut()) { (Node::Text(t), Some(Node::Text(o))) => o.push_str(t), _ => out.push(k.clone()) } }
    out.into_iter().map(|n| match n { Node::Text(t) => Node::Text(t.trim().to_string()), o => o }).filter(|n| *n != Node::Text(String::new())).collect()
  }
  fn text(&self) -> String { self.runs().iter().map(|n| match n { Node::Text(t) => t.as_str(), _ => "" }).collect() }
  fn els(&self) -> Vec<&X> { self.kids.iter().filter_map(|n| match n { Node::El(x) => Some(x), _ => None }).collect() }

  fn write(&self, out: &mut String, r: &mut Lcg, root: bool) {
    fn esc(t: &str, q: Option<char>, r: &mut Lcg) -> String {
      if q.is_none() && r.n(6) == 0 && !t.contains("]]>") && !t.is_empty() { return format!("<![CDATA[{}]]>", t); }
      t.chars().map(|c| match c {
        '<' => "&lt;".to_string(), '&' => (if r.n(2) == 0 { "&amp;" } else { "&#38;" }).to_string(), '>' => "&gt;".to_string(),
        '\n' | '\t' | '\r' => format!("&#{};", c as u32),
        c if Some(c) == q => format!("&#{};", c as u32),
        '"' if r.n(2) == 0 => "&quot;".to_string(), '\'' if r.n(2) == 0 => "&apos;".to_string(),
        c if c != ' ' && r.n(12) == 0 => format!("&#x{:x};", c as u32),
        c => c.to_string()
      }).collect()
    }
    fn ws(out: &mut String, r: &mut Lcg, comment: bool) { match r.n(6) { 0 => out.push('\n'), 1 => out.push_str("  "), 2 if comment => out.push_str("<!-- c -->"), 3 if comment => out.push_str("<?pi x?>"), _ => () } }
    let prefix = |n: &(u8, String), alt: bool| match n.0 { 0 => n.1.clone(), i => format!("{}{}:{}", if alt { "q" } else { "p" }, i, n.1) };
    let alt = r.n(2) == 0;
    out.push('<'); out.push_str(&prefix(&self.name, alt));
    let mut attrs: Vec<String> = self.attrs.iter().map(|(k, v)| { let q = if r.n(2) == 0 { '"' } else { '\'' }; format!("{}={}{}{}", prefix(k, false), q, esc(v, Some(q), r), q) }).collect();
    if root { for i in 1..3 { attrs.push(format!("xmlns:p{}=\"{}\"", i, NS[i])); attrs.push(format!("xmlns:q{}='{}'", i, NS[i])); } }
    if r.n(2) == 0 { attrs.reverse(); }
    for a in attrs { out.push_str([" ", "  ", "\n"][r.n(3) as usize]); out.push_str(&a); }
    if self.kids.is_empty() && r.n(2) == 0 { out.push_str("/>"); return; }
    out.push('>');
    // comments split texts, so they are only put beside elements
    let mut last_text = false;
    for k in &self.kids {
      match k {
        Node::Text(t) => { if !last_text { ws(out, r, false); } out.push_str(&esc(t, None, r)); last_text = true; }
        Node::El(x) => { ws(out, r, !last_text); x.write(out, r, false); last_text = false; }
      }
    }
    out.push_str(&format!("</{}{}>", prefix(&self.name, alt), ["", " "][r.n(2) as usize]));
  }
  pub fn source(&self, seed: u64) -> String {
    let mut s = String::new();
    if seed & 1 == 1 { s.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>"); if seed & 2 == 2 { s.push('\n'); } if seed & 4 == 4 { s.push_str("<!-- first -->"); } }
    self.write(&mut s, &mut Lcg(seed), true);
    if seed & 8 == 8 { s.push('\n'); }
    s
  }

  fn count(&self) -> usize { 1 + self.els().iter().map(|x| x.count()).sum::<usize>() }
  fn nth(&mut self, i: &mut usize) -> Option<&mut X> {
    if *i == 0 { return Some(self); }
    *i -= 1;
    self.kids.iter_mut().find_map(|k| match k { Node::El(x) => x.nth(i), _ => None })
  }
  fn edit(&mut self, w: u16, e: &XEd) {
    let len = self.count();
    let x = self.nth(&mut (w as usize % len)).unwrap();
    let n = w as usize / len;
    match e {
      XEd::Rename(name) => x.name = name.clone(),
      XEd::Text(t) => { let at = x.kids.iter().position(|k| matches!(k, Node::Text(_))); match at { Some(i) => x.kids[i] = Node::Text(t.clone()), None => x.kids.push(Node::Text(t.clone())) } }
      XEd::Near(d) => { if let Some(Node::Text(t)) = x.kids.iter_mut().find(|k| matches!(k, Node::Text(_))) { *t = near_text(t, *d); } else if let Some(v) = x.attrs.values_mut().next() { *v = near_text(v, *d); } }
      XEd::Attr(k, v) => { x.attrs.insert((0, k.clone()), v.clone()); }
      XEd::NoAttr => { if let Some(k) = x.attrs.keys().nth(n % x.attrs.len().max(1)).cloned() { x.attrs.remove(&k); } }
      XEd::Drop => { if !x.kids.is_empty() { let i = n % x.kids.len(); x.kids.remove(i); } }
      XEd::Dup => { if !x.kids.is_empty() { let i = n % x.kids.len(); let k = x.kids[i].clone(); if matches!(k, Node::El(_)) { x.kids.insert(i, k); } } }
      XEd::Add(c) => x.kids.push(Node::El(c.clone())),
      XEd::Turn => x.kids.reverse(),
    }
  }
}
#[derive(Clone, Debug)]
pub enum XEd { Rename((u8, String)), Text(String), Near(u8), Attr(String, String), NoAttr, Drop, Dup, Add(X), Turn }
pub fn xeds(max: usize) -> B<Vec<(u16, XEd)>> {
  let e = prop_oneof![1 => xname().prop_map(XEd::Rename), 3 => xtext().prop_map(XEd::Text), 2 => any::<u8>().prop_map(XEd::Near), 2 => (prop::sample::select(vec!["id", "n", "b", "z"]), xtext()).prop_map(|(k, v)| XEd::Attr(k.to_string(), v)), 1 => Just(XEd::NoAttr), 1 => Just(XEd::Drop), 2 => Just(XEd::Dup),
    1 => (xname(), prop::option::of(xtext())).prop_map(|(name, t)| XEd::Add(X { name, attrs: BTreeMap::new(), kids: t.map(Node::Text).into_iter().collect() })), 1 => Just(XEd::Turn)];
  prop::collection::vec((any::<u16>(), e), 0..max).boxed()
}
fn xplaces(x: &X) -> Vec<(Vec<Tok>, bool)> {
  fn go(x: &X, p: &[Tok], out: &mut Vec<(Vec<Tok>, bool)>) {
    let mut p = p.to_vec(); p.push(Tok::F(qn(&x.name)));
    out.push((p.clone(), true));
    for k in x.attrs.keys() { let mut q = p.clone(); q.push(Tok::F(format!("@{}", qn(k)))); out.push((q, false)); }
    let mut q = p.clone(); q.push(Tok::F("#text".into())); out.push((q, false));
    for e in x.els() { go(e, &p, out); }
  }
  let mut out = vec![(vec![], true)]; go(x, &[], &mut out); out
}

struct Xm<'a> { m: M<'a> }
impl<'a> Xm<'a> {
  fn el_ok(r: &Ru, e: &X, a: &X, casc: bool) -> bool {
    let n = a.runs().len();
    match r {
      Ru::Regex(re) => re.matches(&a.name.1), Ru::Type | Ru::Eq => e.name == a.name,
      Ru::Min(m) => casc || n >= *m, Ru::Max(m) => casc || n <= *m, Ru::MinMax(m, x) => casc || (n >= *m && n <= *x),
      Ru::NotEmpty => n > 0, _ => false
    }
  }
  fn typed(&self, p: &[Tok]) -> bool {
    self.m.rules.iter().any(|(r, l)| M::weight(r, p).is_some() && l.rules.iter().any(|r| matches!(r, Ru::Type | Ru::Min(_) | Ru::Max(_) | Ru::MinMax(..))))
  }
  fn value(&self, p: &[Tok], e: &str, a: &str, out: &mut Out) {
    match self.m.best(p, out) {
      None => if e != a { out.pair(p, e, a); },
      Some((l, casc)) => {
        let bad = l.rules.iter().filter(|r| !text_ok(r, e, a, casc)).count();
        if bad > 0 && (!l.or || bad == l.rules.len()) { for _ in 0..bad { out.pair(p, e, a); } }
      }
    }
  }
  fn cmp(&self, p: &[Tok], e: &X, a: &X, out: &mut Out) {
    let bad = match self.m.best(p, out) {
      None => (e.name != a.name) as usize,
      Some((l, casc)) => { let bad = l.rules.iter().filter(|r| !Xm::el_ok(r, e, a, casc)).count(); if l.or && bad < l.rules.len() { 0 } else { bad } }
    };
    if bad > 0 { for _ in 0..bad { out.pair(p, &qn(&e.name), &qn(&a.name)); } return; }
    let sub = |s: String| { let mut q = p.to_vec(); q.push(Tok::F(s)); q };
    let strict = self.m.strict;
    if e.attrs.is_empty() && !a.attrs.is_empty() && strict { out.at(p); } else {
      if if strict { e.attrs.len() != a.attrs.len() } else { e.attrs.len() > a.attrs.len() } { out.at(p); }
      for (k, v) in &e.attrs {
        let q = sub(format!("@{}", qn(k)));
        match a.attrs.get(k) { Some(x) => self.value(&q, v, x, out), None => out.at(&q) }
      }
    }
    let (ee, ae) = (e.els(), a.els());
    if ee.is_empty() && !ae.is_empty() && strict { out.at(p); } else {
      let group = |v: &[&'_ X], n: &(u8, String)| -> Vec<X> { v.iter().filter(|x| x.name == *n).map(|x| (*x).clone()).collect() };
      let mut names: Vec<(u8, String)> = ee.iter().chain(&ae).map(|x| x.name.clone()).collect(); names.sort(); names.dedup();
      for n in names {
        let q = sub(qn(&n));
        let (eg, ag) = (group(&ee, &n), group(&ae, &n));
        if ag.is_empty() { out.at(p); }
        else if eg.is_empty() { if strict || self.typed(&q) { out.at(p); } }
        else if self.typed(&q) { for x in &ag { self.cmp(&q, &eg[0], x, out); } }
        else {
          for (x, y) in eg.iter().zip(&ag) { self.cmp(&q, x, y, out); }
          if eg.len() > ag.len() || (strict && ag.len() > eg.len()) { out.at(&q); }
        }
      }
    }
    self.value(&sub("#text".into()), &e.text(), &a.text(), out);
  }
}

fn typed_part(b: impl Into<Bytes>, ct: &str, own: bool) -> HttpRequest {
  HttpRequest { headers: if own { None } else { Some(HashMap::from([("Content-Type".to_string(), vec![ct.to_string()])])) }, body: OptionalBody::Present(b.into(), if own { Some(ContentType::parse(ct).unwrap()) } else { None }, None), ..HttpRequest::default() }
}
fn outcome(r: BodyMatchResult) -> Result<Found, String> {
  match &r { BodyMatchResult::BodyTypeMismatch { .. } => return Err(format!("{:?}", r)), BodyMatchResult::BodyMismatches(m) => for (k, v) in m { for x in v { let Mismatch::BodyMismatch { path, .. } = x else { return Err(format!("{:?}", x)) }; ensure_eq!(k, path, "the mismatches are grouped by path"); } }, _ => () }
  found(&r.mismatches())
}
fn no_header() -> HeaderMatchingContext { HeaderMatchingContext::new(&ctx(&vec![], "header", true)) }

fn xjudge(rules: &Rules, e: &X, a: &X, strict: bool, seed: u64, ct: &str, c: &mut Case) -> R {
  let m = Xm { m: M { rules, strict } };
  let mut want = Out::default();
  m.cmp(&[Tok::F(qn(&e.name))], e, a, &mut want);
  c.label(if want.ok() { "match" } else { "mismatch" });
  if want.ambiguous { c.label("ambiguous rules (not judged)"); return Ok(()); }
  c.nontrivial(if rules.is_empty() { xplaces(e).len() > 3 } else { want.used > 0 });
  let (es, as_) = (e.source(seed), a.source(seed.rotate_left(29)));
  let got = outcome(wait(match_body(&typed_part(es.clone(), ct, true), &typed_part(as_.clone(), ct, seed & 64 == 64), &ctx(rules, "body", strict), &no_header())))?;
  agree(&want, &got).map_err(|m| format!("{}\n  expected {}\n  actual {}", m, es, as_))
}

pub fn p36(h: &mut H) {
  let cts = || prop::sample::select(vec!["application/xml", "text/xml", "application/atom+xml", "application/xml;charset=utf-8"]);
  h.check("structure", 40000, "the expected document has more than one element or an attribute", || (xml(), xeds(4), any::<bool>(), any::<u64>(), cts()), |(e, eds, strict, seed, ct), c| {
    let mut a = e.clone(); for (w, x) in eds { a.edit(*w, x); }
    xjudge(&vec![], e, &a, *strict, *seed, ct, c)
  });
  h.check("rules", 60000, "a rule applied somewhere", || (xml(), xeds(4), prop::collection::vec((any::<u16>(), any::<u8>(), prop::collection::vec(scalar_rule(), 1..3), prop::collection::vec(prop_oneof![3 => size_rule(), 1 => re().prop_map(Ru::Regex)], 1..3), prop::bool::weighted(0.3)), 1..4), any::<bool>(), any::<u64>()), |(e, eds, rs, strict, seed), c| {
    let mut a = e.clone(); for (w, x) in eds { a.edit(*w, x); }
    let places = xplaces(e);
    let mut rules: Rules = vec![];
    for (w, wild, sc, el, or) in rs {
      let (mut p, is_el) = places[*w as usize % places.len()].clone();
      for (i, t) in p.iter_mut().enumerate() { if wild >> (i % 4) & 1 == 1 && wild & 0x30 == 0 { *t = Tok::Star; } }
      let l = Rl { rules: if is_el ^ (wild % 11 == 3) { el.clone() } else { sc.clone() }, or: *or };
      if !rules.iter().any(|(q, _)| *q == p) { rules.push((p, l)); }
    }
    xjudge(&rules, e, &a, *strict, *seed, "application/xml", c)
  });
  h.check("layout", 15000, "the document has more than one element or an attribute", || (xml(), any::<u64>(), any::<u64>(), prop::option::of(size_rule())), |(e, s1, s2, r), c| {
    c.nontrivial(xplaces(e).len() > 3);
    let rules: Rules = r.iter().map(|r| (vec![Tok::F(qn(&e.name))], Rl { rules: vec![r.clone()], or: false })).collect();
    let run = |x: String, y: String| outcome(wait(match_body(&typed_part(x, "text/xml", true), &typed_part(y, "text/xml", false), &ctx(&rules, "body", true), &no_header())));
    let (x, y) = (e.source(*s1), e.source(*s2));
    let got = run(x.clone(), y.clone())?;
    if rules.is_empty() { ensure!(got.is_empty(), "a document does not match itself written differently: {:?}\n  {}\n  {}", got, x, y); }
    ensure_eq!(got, run(y.clone(), x.clone())?, "the way it is written changes the result\n  {}\n  {}", x, y);
    Ok(())
  });
  h.check("malformed", 8000, "exactly one side is malformed", || (xml(), xml(), any::<u16>(), 0u8..4, any::<u64>()), |(e, a, cut, side, seed), c| {
    let damage = |x: &X, on: bool| { let s = x.source(*seed & !15); if !on { return s; } let n = *cut as usize % s.chars().count(); let end = s.trim_end().chars().count(); s.chars().take(n.min(end - 1)).collect() };
    let (es, as_) = (damage(e, side & 1 == 1), damage(a, side & 2 == 2));
    let (eb, ab) = (side & 1 == 1, side & 2 == 2);
    c.nontrivial(eb != ab);
    if !eb && !ab { return Ok(()); }
    let got = outcome(wait(match_body(&typed_part(es.clone(), "text/xml", true), &typed_part(as_.clone(), "text/xml", false), &ctx(&vec![], "body", true), &no_header())))?;
    ensure_eq!(got.keys().collect::<Vec<_>>(), vec!["$"], "places");
    ensure_eq!(got["$"].len(), eb as usize + ab as usize, "one mismatch for each malformed side");
    ensure!(got["$"].iter().all(|(x, y)| *x == es && *y == as_), "the bodies are not in the mismatch: {:?}", got);
    Ok(())
  });
}

// ---------------------------------------------------------------- forms
fn form_encode(q: &[(String, String)], s: u64) -> String {
  let mut r = Lcg(s);
  let enc = |t: &str, r: &mut Lcg| -> String { t.bytes().map(|b| if b.is_ascii_alphanumeric() && r.n(8) > 0 || b"-_.*".contains(&b) && r.n(2) == 0 { (b as char).to_string() } else if b == b' ' && r.n(2) == 0 { "+".to_string() } else if r.n(2) == 0 { format!("%{:02X}", b) } else { format!("%{:02x}", b) }).collect() };
  q.iter().map(|(k, v)| { let k = enc(k, &mut r); if v.is_empty() && r.n(2) == 0 { k } else { format!("{}={}", k, enc(v, &mut r)) } }).collect::<Vec<_>>().join("&")
}
/// The pairs of a form: those of one name stay in order, the names are mixed.
fn pairs(q: &Q, s: u64) -> Vec<(String, String)> {
  let mut r = Lcg(s);
  let mut left: Vec<(String, std::collections::VecDeque<String>)> = q.iter().map(|(k, v)| (k.clone(), v.iter().map(|x| x.clone().unwrap_or_default()).collect())).collect();
  let mut out = vec![];
  while !left.is_empty() {
    let i = r.n(left.len() as u64) as usize;
    match left[i].1.pop_front() { Some(v) => out.push((left[i].0.clone(), v)), None => { left.remove(i); } }
  }
  out
}

pub fn p37(h: &mut H) {
  let fmap = || prop::collection::btree_map(prop_oneof![6 => "[a-c]", 1 => Just("a b".to_string()), 1 => Just("q-1".to_string()), 1 => Just("x[]".to_string()), 1 => Just("é".to_string()), 1 => Just("a=&".to_string())], prop_oneof![3 => prop::collection::vec(qval(), 1..2), 2 => prop::collection::vec(qval(), 1..4)], 0..4);
  let judge = |rules: &Rules, e: &Q, a: &Q, seed: u64, strict: bool, attrs: bool, c: &mut Case| -> R {
    let clean = |q: &Q| -> Q { q.iter().filter(|(_, v)| !v.is_empty()).map(|(k, v)| (k.clone(), v.clone())).collect() };
    let (e, a) = (clean(e), clean(a));
    let mut amb = false;
    let (bad, _) = query_model(rules, &e, &a, &mut amb);
    c.label(if bad.is_empty() { "match" } else { "mismatch" });
    if amb { c.label("ambiguous rules (not judged)"); return Ok(()); }
    let (ep, ap) = (pairs(&e, seed), pairs(&a, seed.rotate_left(13)));
    let (es, as_) = (form_encode(&ep, seed), form_encode(&ap, seed.rotate_left(31)));
    let ct = if attrs { "application/x-www-form-urlencoded;charset=utf-8" } else { "application/x-www-form-urlencoded" };
    let r = wait(match_body(&typed_part(es.clone(), ct, seed & 1 == 1), &typed_part(as_.clone(), ct, false), &ctx(rules, "body", strict), &no_header()));
    let got = outcome(r)?;
    ensure_eq!(got.keys().cloned().collect::<Vec<_>>(), { let mut w: Vec<String> = bad.iter().map(|k| doc_path(&[Tok::F(k.clone())]).to_string()).collect(); w.sort(); w }, "parameters that do not match ({} with {}): {:?}", es, as_, got);
    Ok(())
  };
  h.check("no rules", 40000, "the expected form has parameters", || (fmap(), qeds(), any::<u64>(), any::<bool>(), any::<bool>()), move |(e, eds, seed, strict, attrs), c| {
    c.nontrivial(!e.is_empty());
    judge(&vec![], e, &qapply(e, eds), *seed, *strict, *attrs, c)
  });
  h.check("rules", 60000, "a rule is for an expected parameter", || (fmap(), qeds(), prop::collection::vec((any::<u8>(), 0u8..9, 0usize..3, rl()), 1..3), any::<u64>(), any::<bool>()), move |(e, eds, rs, seed, strict), c| {
    let mut rules: Rules = vec![];
    for (w, shape, i, l) in rs {
      let Some(k) = e.keys().nth(*w as usize % e.len().max(1)) else { continue };
      let mut p = vec![Tok::F(k.clone())];
      match shape { 0 => p.push(Tok::I(*i)), 1 => p.push(Tok::StarI), 2 => p.push(Tok::Star), 3 => p = vec![Tok::Star], _ => () }
      if !rules.iter().any(|(q, _)| *q == p) { rules.push((p, l.clone())); }
    }
    c.nontrivial(!rules.is_empty());
    judge(&rules, e, &qapply(e, eds), *seed, *strict, false, c)
  });
}

// ---------------------------------------------------------------- texts and binary contents
/// Contents whose type can be told from their first bytes, and the names by which it is known.
fn known() -> Vec<(Vec<u8>, Vec<&'static str>)> {
  vec![(b"\x89PNG\r\n\x1a\n\0\x01".to_vec(), vec!["image/png"]), (b"\xff\xd8\xff\xe0".to_vec(), vec!["image/jpeg"]), (b"GIF89a..".to_vec(), vec!["image/gif"]), (b"%PDF-1.4".to_vec(), vec!["application/pdf"]), (b"PK\x03\x04..".to_vec(), vec!["application/zip"]), (b"\x1f\x8b\x08\0".to_vec(), vec!["application/gzip"]),
    (b"{\"a\": 1}".to_vec(), vec!["text/plain", "application/json"]), (b"[1]".to_vec(), vec!["text/plain", "application/json"]), (b"just words".to_vec(), vec!["text/plain"]), (b"<a/>".to_vec(), vec!["text/plain", "application/xml"]), (b"\xfe\x01\x02".to_vec(), vec!["application/octet-stream"])]
}
#[derive(Clone, Debug)]
enum Br { Text(Ru), Type(&'static str) }

pub fn p38(h: &mut H) {
  let bytes = || prop_oneof![3 => texts().prop_map(|s| s.into_bytes()), 2 => prop::collection::vec(any::<u8>(), 0..20), 2 => prop::sample::select(known()).prop_map(|k| k.0), 1 => "[a-z ]{8,40}".prop_map(|s| s.into_bytes()), 1 => ("[a-z ]{1,9}", 200usize..5000).prop_map(|(s, n)| s.bytes().cycle().take(n).collect())].prop_map(Bytes::from);
  let near = |b: &Bytes, n: u32| -> Bytes { let mut v = b.to_vec(); match n % 8 { 0 => v.push(b' '), 1 => v.push(b'\n'), 2 => { v.pop(); } 3 => if !v.is_empty() { let i = n as usize / 8 % v.len(); v[i] ^= 0x20; }, 4 => v.insert(0, b' '), 5 => v.reverse(), 6 => if let Some(x) = v.last_mut() { *x = x.wrapping_add(1); }, _ => () } v.into() };
  let binary = || prop::sample::select(vec!["application/octet-stream", "image/png", "application/pdf", "audio/mp3", "application/zip", "application/vnd.x"]);
  let textual = || prop::sample::select(vec!["text/plain", "text/csv", "text/html;charset=utf-8"]);
  let rule = || prop_oneof![5 => prop_oneof![4 => scalar_rule(), 1 => (0usize..3).prop_map(Ru::Min), 1 => (0usize..3).prop_map(Ru::Max)].prop_map(Br::Text), 2 => prop::sample::select(vec!["image/png", "image/jpeg", "image/gif", "application/pdf", "application/zip", "application/gzip", "text/plain", "application/json", "application/xml", "application/octet-stream"]).prop_map(Br::Type)];
  h.check("no rules", 30000, "both bodies have contents", || (prop_oneof![binary(), textual()], bytes(), bytes(), prop::option::weighted(0.7, any::<u32>()), any::<bool>(), prop::option::weighted(0.2, rl())), move |(ct, e, o, n, strict, elsewhere), c| {
    let a = match n { Some(n) => near(e, *n), None => o.clone() };
    c.nontrivial(!e.is_empty() && !a.is_empty());
    let rules: Rules = elsewhere.iter().map(|l| (vec![Tok::F("a".into())], l.clone())).collect();
    let r = wait(match_body(&typed_part(e.clone(), ct, true), &typed_part(a.clone(), ct, false), &ctx(&rules, "body", *strict), &no_header()));
    ensure_eq!(r.all_matched(), *e == a, "{} {:?} with {:?}: {:?}", ct, e, a, r);
    if *e != a { let ms = r.mismatches(); ensure!(matches!(ms.as_slice(), [Mismatch::BodyMismatch { path, expected: Some(x), actual: Some(y), mismatch }] if path == "$" && x == e && *y == a && !mismatch.is_empty()), "{:?}", ms); }
    Ok(())
  });
  h.check("rules", 80000, "the bodies differ", || (prop_oneof![3 => binary().prop_map(|t| (t, true)), 2 => textual().prop_map(|t| (t, false))], bytes(), bytes(), prop::option::weighted(0.4, any::<u32>()), prop_oneof![3 => prop::collection::vec(rule(), 1..2), 1 => prop::collection::vec(rule(), 2..4)], any::<bool>(), any::<bool>()), move |((ct, bin), e, o, n, rs, or, strict), c| {
    let a = match n { Some(n) => near(e, *n), None => o.clone() };
    c.nontrivial(*e != a);
    let list = RuleList { rules: rs.iter().map(|r| match r { Br::Text(r) => r.build(), Br::Type(t) => MatchingRule::ContentType(t.to_string()) }).collect(), rule_logic: if *or { RuleLogic::Or } else { RuleLogic::And }, cascaded: false };
    let cat = MatchingRuleCategory { name: "body".into(), rules: [(doc_path(&[]), list)].into_iter().collect() };
    let cx = CoreMatchingContext::new(config(*strict), &cat, &HashMap::new());
    let r = wait(match_body(&typed_part(e.clone(), ct, true), &typed_part(a.clone(), ct, false), &cx, &no_header()));
    let typed = rs.iter().any(|r| matches!(r, Br::Type(_)));
    let (et, at) = (std::str::from_utf8(e).ok(), std::str::from_utf8(&a).ok());
    let mut unsure = false;
    let oks: Vec<bool> = rs.iter().map(|r| match r {
      Br::Type(t) => match known().iter().find(|k| a == k.0) { Some(k) => k.1.contains(t), None => { unsure = true; false } },
      Br::Text(r) if *bin || typed => match r {
        Ru::Type | Ru::Min(_) | Ru::Max(_) | Ru::MinMax(..) => true, Ru::Eq => *e == a, Ru::Regex(x) => at.map(|t| x.matches(t)).unwrap_or(false), Ru::Include(s) => at.map(|t| t.contains(s.as_str())).unwrap_or(false), Ru::NotEmpty => !a.is_empty(), _ => false
      },
      Br::Text(r) => text_ok(r, et.unwrap_or(""), at.unwrap_or(""), false)
    }).collect();
    if unsure { c.label("contents of a type that is not known (not judged)"); return Ok(()); }
    let decoded = *bin || typed || (et.is_some() && at.is_some());
    let rules_ok = if *or { oks.iter().any(|x| *x) } else { oks.iter().all(|x| *x) };
    let want = decoded && rules_ok;
    c.label(format!("{}{}", if *bin { "binary " } else { "text " }, if want { "match" } else { "mismatch" }));
    ensure_eq!(r.all_matched(), want, "{} {:?} with {:?} by {:?}: {:?}", ct, e, a, rs, r);
    if !want {
      let failed = if rules_ok { 0 } else { oks.iter().filter(|x| !**x).count() };
      let undecoded = if *bin || typed { 0 } else { et.is_none() as usize + at.is_none() as usize };
      ensure_eq!(r.mismatches().len(), failed + undecoded, "one mismatch for each rule that fails: {:?}", r);
      for m in r.mismatches() { ensure!(matches!(&m, Mismatch::BodyMismatch { path, expected: Some(x), actual: Some(y), mismatch } if path == "$" && x == e && *y == a && !mismatch.is_empty()), "{:?}", m); }
    }
    Ok(())
  });
}
