//! Pacts built through handles.
use std::collections::BTreeMap;

#[allow(deprecated)]
use pact_ffi::mock_server::handles::*;
use pact_models::PactSpecification;
use proptest::prelude::*;
use pvfw::{ensure, ensure_eq, Case, H, R};
use serde_json::{json, Map, Value};

use crate::common::*;
use crate::g;

#[derive(Debug, Clone)]
pub enum Text { Json(Value), Xml(String), Plain(String), Empty }
impl Text {
  pub fn text(&self) -> String {
    match self { Text::Json(v) => v.to_string(), Text::Xml(s) => format!("<?xml version=\"1.0\"?><a>{}</a>", s), Text::Plain(s) => s.clone(), Text::Empty => String::new() }
  }
}
pub const TYPES: [&str; 8] = ["application/json", "application/xml", "text/plain", "application/vnd.api+json", "image/png", "text/csv", "application/octet-stream", "application/problem+xml"];

#[derive(Debug, Clone)]
pub enum Act {
  Receiving(String), Given(String), Param(String, String, String), Params(String, Value, bool), TestName(String), Key(Option<String>), Pending(bool),
  Comment(String, Option<Value>), CommentText(String), TextComment(String),
  Request(Option<String>, Option<String>), Query(String, usize, Option<String>, bool), Header(bool, String, usize, String, bool), SetHeader(bool, String, String),
  Status(u16), StatusText(u16), Body(bool, Option<usize>, Text), Binary(bool, usize, Vec<u8>), File(bool, usize, Vec<u8>),
  Metadata(bool, String, Option<Value>), Rules(bool, Vec<(u8, String, u8, bool)>, bool), Gens(bool, Vec<(u8, String, u8)>, bool),
  MsgReceiving(String), MsgGiven(String), MsgParam(String, String, String), MsgContents(Text), MsgMetadata(String, String), MsgMetadata2(String, Value),
}
#[derive(Debug, Clone)]
pub enum Op {
  Pact(bool, Option<String>, Option<String>), New(u8, u8, Option<String>), On(u8, Act), Meta(u8, bool, String, String, String), Spec(u8, u8), Free(u8),
}

#[derive(Clone, Default)]
struct Part { headers: BTreeMap<String, Vec<String>>, meta: BTreeMap<String, Value>, body: Option<Value>, ct: Option<String>, rules: BTreeMap<String, (String, Vec<Value>)>, gens: BTreeMap<String, Value> }
struct Mi { kind: u8, desc: String, key: Option<String>, pending: bool, comments: BTreeMap<String, Value>, states: Vec<(String, BTreeMap<String, Value>)>, method: String, path: String, query: Option<BTreeMap<String, Vec<Option<String>>>>, status: u16, parts: Vec<Part> }
impl Mi {
  fn new(kind: u8, desc: &str) -> Mi {
    Mi { kind, desc: desc.to_string(), key: None, pending: false, comments: BTreeMap::new(), states: vec![], method: "GET".into(), path: "/".into(), query: None, status: 200, parts: vec![Part::default(); if kind == 0 { 2 } else { 1 }] }
  }
  fn dump(&self) -> Value {
    let part = |p: &Part| {
      let body = p.body.clone().unwrap_or(json!("missing"));
      let rules: Map<String, Value> = p.rules.iter().map(|(k, (l, r))| (k.clone(), json!([l, r]))).collect();
      if self.kind == 0 { json!({ "headers": p.headers, "body": body, "rules": rules, "generators": p.gens }) }
      else { json!({ "metadata": p.meta, "body": body, "rules": rules, "generators": p.gens }) }
    };
    let mut v = json!({ "description": self.desc, "key": self.key, "pending": self.pending, "comments": self.comments, "states": self.states, "request": part(&self.parts[0]), "type": KINDS[self.kind as usize] });
    let o = v.as_object_mut().unwrap();
    if self.kind == 0 { o.insert("method".into(), json!(self.method)); o.insert("path".into(), json!(self.path)); o.insert("query".into(), json!(self.query)); o.insert("status".into(), json!(self.status)); }
    if self.kind != 1 { o.insert("response".into(), json!(self.parts[1..].iter().map(part).collect::<Vec<_>>())); }
    v
  }
  fn targets(&mut self, response: bool) -> Vec<&mut Part> {
    match (self.kind, response) { (1, _) | (_, false) => vec![&mut self.parts[0]], _ => self.parts[1..].iter_mut().collect() }
  }
}
struct Mp { handle: PactHandle, message: bool, live: bool, consumer: String, provider: String, spec: PactSpecification, meta: BTreeMap<String, BTreeMap<String, String>>, items: Vec<Mi> }

fn lookup<'a>(h: &'a mut BTreeMap<String, Vec<String>>, name: &str) -> Option<&'a mut Vec<String>> {
  h.iter_mut().find(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v)
}
fn set_at<T: Default>(v: &mut Vec<T>, index: usize, value: T) {
  while v.len() <= index { v.push(T::default()); }
  v[index] = value;
}
/// What a text is taken for when nothing says what it is
fn detected(t: &Text) -> &'static str {
  match t { Text::Json(_) => "application/json", Text::Xml(_) => "application/xml", _ => "text/plain" }
}
fn text_body(t: &Text, ct: &str) -> Value {
  match t {
    Text::Empty => json!("empty"),
    Text::Json(v) if ct.contains("json") => json!([{ "json": v }, ct, null]),
    _ => json!([t.text(), ct, null])
  }
}
fn byte_body(b: &[u8], ct: Option<&str>) -> Value {
  if b.is_empty() { return json!("empty") }
  match std::str::from_utf8(b) {
    Ok(s) => match serde_json::from_str::<Value>(s) { Ok(v) if ct.map(|c| c.contains("json")).unwrap_or(false) => json!([{ "json": v }, ct, null]), _ => json!([s, ct, null]) },
    Err(_) => json!([b, ct, null])
  }
}
const KINDS: [&str; 3] = ["http", "async", "sync"];
const CATS: [&str; 3] = ["body", "header", "metadata"];
pub fn rule(n: u8) -> Value {
  match n % 6 { 0 => json!({ "match": "type" }), 1 => json!({ "match": "regex", "regex": "\\w+" }), 2 => json!({ "match": "integer" }), 3 => json!({ "match": "type", "min": 2 }), 4 => json!({ "match": "equality" }), _ => json!({ "match": "date", "format": "yyyy-MM-dd" }) }
}
pub fn gen_json(n: u8) -> Value {
  match n % 4 { 0 => json!({ "type": "RandomInt", "min": 1, "max": 9 }), 1 => json!({ "type": "Uuid" }), 2 => json!({ "type": "RandomString", "size": 5 }), _ => json!({ "type": "Regex", "regex": "\\d{3}" }) }
}
fn path_text(cat: &str, name: &str) -> String { if cat == "body" { format!("$.{}", name) } else { name.to_string() } }
fn value_of(text: &str) -> Value { serde_json::from_str(text).unwrap_or(json!(text)) }

/// Performs the act through the library and on the model; gives what was answered and what was to be answered
#[allow(deprecated)]
fn act(i: InteractionHandle, m: Option<&mut Mi>, a: &Act, spec: PactSpecification) -> (String, String) {
  let part = |r: bool| if r { InteractionPart::Response } else { InteractionPart::Request };
  let live = m.is_some();
  let mut none = Mi::new(0, "");
  let m = m.unwrap_or(&mut none);
  let http = m.kind == 0;
  let yes = |b: bool| b.to_string();
  let v = |b: bool| String::from(if b { "-" } else { "-" });
  match a {
    Act::Receiving(d) => { m.desc = d.clone(); (yes(pactffi_upon_receiving(i, c(d).p())), yes(live)) }
    Act::Given(d) => { m.states.push((d.clone(), BTreeMap::new())); (yes(pactffi_given(i, c(d).p())), yes(live)) }
    Act::Param(d, n, t) | Act::MsgParam(d, n, t) => {
      let by_message = matches!(a, Act::MsgParam(..));
      if !by_message || m.kind == 1 {
        match m.states.iter_mut().find(|s| s.0 == *d) {
          Some(s) => { s.1.insert(n.clone(), value_of(t)); }
          None => m.states.push((d.clone(), BTreeMap::from([(n.clone(), value_of(t))])))
        }
      }
      if by_message { pactffi_message_given_with_param(as_message(i), c(d).p(), c(n).p(), c(t).p()); (v(true), v(true)) }
      else { (yes(pactffi_given_with_param(i, c(d).p(), c(n).p(), c(t).p())), yes(live)) }
    }
    Act::Params(d, p, bad) => {
      if *bad { return (pactffi_given_with_params(i, c(d).p(), c(&format!("{{{}", p)).p()).to_string(), "2".into()) }
      let params = match p { Value::Object(o) => o.iter().map(|(k, v)| (k.clone(), v.clone())).collect(), _ => BTreeMap::from([("value".to_string(), p.clone())]) };
      m.states.push((d.clone(), params));
      (pactffi_given_with_params(i, c(d).p(), c(&p.to_string()).p()).to_string(), if live { "0" } else { "1" }.into())
    }
    Act::TestName(t) => { m.comments.insert("testname".into(), json!(t)); (pactffi_interaction_test_name(i, c(t).p()).to_string(), if live { "0" } else { "2" }.into()) }
    Act::Key(k) => { m.key = k.clone(); (yes(pactffi_set_key(i, cn(k).p())), yes(live)) }
    Act::Pending(p) => { m.pending = *p; (yes(pactffi_set_pending(i, *p)), yes(live)) }
    Act::Comment(k, x) => {
      match x { Some(x) => { m.comments.insert(k.clone(), x.clone()); } None => { m.comments.remove(k); } }
      (yes(pactffi_set_comment(i, c(k).p(), cn(&x.as_ref().map(|x| x.to_string())).p())), yes(live))
    }
    Act::CommentText(t) => { m.comments.insert("note".into(), value_of(t)); (yes(pactffi_set_comment(i, c("note").p(), c(t).p())), yes(live)) }
    Act::TextComment(t) => {
      let e = m.comments.entry("text".into()).or_insert(json!([]));
      match e { Value::Array(a) => a.push(json!(t)), other => *other = json!([t]) }
      (yes(pactffi_add_text_comment(i, c(t).p())), yes(live))
    }
    Act::Request(me, p) => {
      if http { m.method = me.clone().unwrap_or("GET".into()); m.path = p.clone().unwrap_or("/".into()); }
      (yes(pactffi_with_request(i, cn(me).p(), cn(p).p())), yes(live && http))
    }
    Act::Query(n, x, t, old) => {
      let t = if *old { Some(t.clone().unwrap_or_default()) } else { t.clone() };
      if http { set_at(m.query.get_or_insert_default().entry(n.clone()).or_default(), *x, t.clone()); }
      (yes(if *old { pactffi_with_query_parameter(i, c(n).p(), *x, cn(&t).p()) } else { pactffi_with_query_parameter_v2(i, c(n).p(), *x, cn(&t).p()) }), yes(live && http))
    }
    Act::Header(r, n, x, t, old) => {
      // the deprecated function does not look for the name in another case, so it is given the name as it is
      let n = if *old && http { m.targets(*r).remove(0).headers.keys().find(|k| k.eq_ignore_ascii_case(n)).unwrap_or(n).clone() } else { n.clone() };
      let n = &n;
      if http {
        let h = &mut m.targets(*r).remove(0).headers;
        let values: Vec<String> = if *old { vec![t.clone()] } else if n.eq_ignore_ascii_case("set-cookie") { vec![t.trim().to_string()] } else { t.split(',').map(|s| s.trim().to_string()).collect() };
        if *old {
          set_at(h.entry(n.clone()).or_default(), *x, t.clone());
        } else {
          match lookup(h, n) {
            Some(existing) => if *x > 0 { set_at(existing, *x, t.clone()) } else if values.len() == 1 { set_at(existing, 0, t.clone()) } else { *existing = values },
            None => if *x > 0 { let mut e = vec![]; set_at(&mut e, *x, t.clone()); h.insert(n.clone(), e); } else { h.insert(n.clone(), values); }
          }
        }
      }
      (yes(if *old { pactffi_with_header(i, part(*r), c(n).p(), *x, c(t).p()) } else { pactffi_with_header_v2(i, part(*r), c(n).p(), *x, c(t).p()) }), yes(live && http))
    }
    Act::SetHeader(r, n, t) => {
      if http {
        let h = &mut m.targets(*r).remove(0).headers;
        match lookup(h, n) { Some(e) => *e = vec![t.clone()], None => { h.insert(n.clone(), vec![t.clone()]); } }
      }
      (yes(pactffi_set_header(i, part(*r), c(n).p(), c(t).p())), yes(live && http))
    }
    Act::Status(s) => { if http { m.status = *s; } (yes(pactffi_response_status(i, *s)), yes(live && http)) }
    Act::StatusText(s) => { if http { m.status = *s; } (yes(pactffi_response_status_v2(i, c(&s.to_string()).p())), yes(live && http)) }
    Act::Body(r, ct, t) => {
      if m.kind == 2 && *r { m.parts.push(Part::default()); }
      let kind = m.kind;
      let p = m.targets(*r).pop().unwrap();
      let said = if kind == 0 { lookup(&mut p.headers, "Content-Type").and_then(|v| v.first().cloned()) } else { p.meta.get("contentType").and_then(|v| v.as_str().map(String::from)) };
      // a body that is there already may be of another type than the header says: then the type is given
      let bad = ct.map(|c| c >= TYPES.len()).unwrap_or(false);
      let given = ct.map(|c| TYPES.get(c).unwrap_or(&"text/plain").to_string()).or(if p.ct.is_some() && p.ct != said { Some("text/plain".to_string()) } else { None })
        // an object is taken for JSON by the name of its first member
        .or(match t { Text::Json(Value::Object(o)) if said.is_none() && o.keys().next().map(|k| !k.starts_with(|c: char| c.is_ascii_alphanumeric())).unwrap_or(false) => Some("application/json".into()), _ => None });
      let ty = given.clone().or(said.clone()).unwrap_or(detected(t).to_string());
      // JSON as the contents of XML is a description of them, which is another property
      let (given, ty) = if ty.contains("xml") && matches!(t, Text::Json(_)) { (Some("application/json".to_string()), "application/json".to_string()) } else { (given, ty) };
      p.body = Some(text_body(t, &ty));
      p.ct = if matches!(t, Text::Empty) { None } else { Some(ty.clone()) };
      if !matches!(t, Text::Empty) && said.is_none() {
        if kind == 0 { p.headers.insert("Content-Type".into(), vec![ty.clone()]); } else { p.meta.insert("contentType".into(), json!(ty)); }
      }
      // what is no content type counts as text
      let given = if bad && given.as_deref() == Some("text/plain") { Some(["", "text", "a/b/c", "json;"][ct.unwrap() % 4].to_string()) } else { given };
      (yes(pactffi_with_body(i, part(*r), cn(&given).p(), c(&t.text()).p())), yes(live))
    }
    Act::Binary(r, ct, b) | Act::File(r, ct, b) => {
      let file = matches!(a, Act::File(..));
      if m.kind == 2 && *r { m.parts.push(Part::default()); }
      let kind = m.kind;
      let p = m.targets(*r).pop().unwrap();
      let ct = TYPES[*ct];
      p.body = Some(byte_body(b, if file { None } else { Some(ct) }));
      p.ct = if file || b.is_empty() { None } else { Some(ct.to_string()) };
      if kind == 0 { if lookup(&mut p.headers, "Content-Type").is_none() { p.headers.insert("Content-Type".into(), vec![ct.to_string()]); } }
      else { p.meta.insert("contentType".into(), json!(ct)); }
      if file && spec >= PactSpecification::V3 { p.rules.entry("body $".into()).or_insert(("And".into(), vec![])).1.push(json!({ "match": "contentType", "value": ct })); }
      (yes(if file { pactffi_with_binary_file(i, part(*r), c(ct).p(), b.as_ptr(), b.len()) } else { pactffi_with_binary_body(i, part(*r), c(ct).p(), b.as_ptr(), b.len()) }), yes(live))
    }
    Act::Metadata(r, k, x) => {
      if !http { for p in m.targets(*r) { match x { Some(x) => { p.meta.insert(k.clone(), x.clone()); } None => { p.meta.remove(k); } } } }
      (yes(pactffi_with_metadata(i, c(k).p(), cn(&x.as_ref().map(|x| x.to_string())).p(), part(*r))), yes(live && !http))
    }
    Act::Rules(r, rules, wrapped) => {
      let mut doc: BTreeMap<&str, BTreeMap<String, (bool, Vec<Value>)>> = BTreeMap::new();
      for (cat, name, n, or) in rules { let cat = CATS[*cat as usize % 3]; let e = doc.entry(cat).or_default().entry(path_text(cat, name)).or_insert((*or, vec![])); e.1.push(rule(*n)); }
      for p in m.targets(*r) {
        for (cat, paths) in &doc { for (path, (or, rs)) in paths {
          p.rules.entry(format!("{} {}", cat, path)).or_insert((if *or { "Or" } else { "And" }.into(), vec![])).1.extend(rs.iter().cloned());
        } }
      }
      let text = json!(doc.iter().map(|(c, ps)| (c.to_string(), json!(ps.iter().map(|(p, (or, rs))| (p.clone(), json!({ "combine": if *or { "OR" } else { "AND" }, "matchers": rs }))).collect::<Map<_, _>>()))).collect::<Map<_, _>>());
      let text = if *wrapped { json!({ "matchingRules": text }) } else { text };
      (yes(pactffi_with_matching_rules(i, part(*r), c(&text.to_string()).p())), yes(live))
    }
    Act::Gens(r, gens, wrapped) => {
      let mut doc: BTreeMap<&str, BTreeMap<String, Value>> = BTreeMap::new();
      for (cat, name, n) in gens { let cat = CATS[*cat as usize % 3]; doc.entry(cat).or_default().insert(path_text(cat, name), gen_json(*n)); }
      for p in m.targets(*r) { for (cat, paths) in &doc { for (path, g) in paths { p.gens.insert(format!("{} {}", cat, path), g.clone()); } } }
      let text = if *wrapped { json!({ "generators": doc }) } else { json!(doc) };
      (yes(pactffi_with_generators(i, part(*r), c(&text.to_string()).p())), yes(live))
    }
    Act::MsgReceiving(d) => { if m.kind == 1 { m.desc = d.clone(); } pactffi_message_expects_to_receive(as_message(i), c(d).p()); (v(true), v(true)) }
    Act::MsgGiven(d) => { if m.kind == 1 { m.states.push((d.clone(), BTreeMap::new())); } pactffi_message_given(as_message(i), c(d).p()); (v(true), v(true)) }
    Act::MsgContents(t) => {
      let ty = detected(t);
      let body = match t { Text::Xml(_) => None, t => Some(t) };
      if let Some(t) = body {
        if m.kind == 1 { m.parts[0].body = Some(if matches!(t, Text::Empty) { json!(["", ty, null]) } else { text_body(t, ty) }); m.parts[0].ct = Some(ty.into()); }
        let s = t.text();
        pactffi_message_with_contents(as_message(i), c(ty).p(), c(&s).p() as *const u8, s.len());
      }
      (v(true), v(true))
    }
    Act::MsgMetadata(k, t) => { if m.kind == 1 { m.parts[0].meta.insert(k.clone(), json!(t)); } pactffi_message_with_metadata(as_message(i), c(k).p(), c(t).p()); (v(true), v(true)) }
    Act::MsgMetadata2(k, x) => { if m.kind == 1 { m.parts[0].meta.insert(k.clone(), x.clone()); } pactffi_message_with_metadata_v2(as_message(i), c(k).p(), c(&x.to_string()).p()); (v(true), v(true)) }
  }
}

fn word() -> BoxedStrategy<String> { prop_oneof![3 => prop::sample::select(vec!["a", "b", "one", "Two", "x y"]).prop_map(String::from), 1 => g::text().prop_map(|s| s.replace('\0', ""))].boxed() }
fn name() -> BoxedStrategy<String> { prop::sample::select(vec!["a", "b", "Id", "X-Foo", "x-foo", "contentType", "Content-Type", "content-type", "q_1", "Set-Cookie"]).prop_map(String::from).boxed() }
/// A name that is a path of its own
fn plain() -> BoxedStrategy<String> { prop::sample::select(vec!["a", "b", "Id", "foo", "q_1"]).prop_map(String::from).boxed() }
fn meta_name() -> BoxedStrategy<String> { prop_oneof![3 => plain(), 1 => Just("contentType".to_string())].boxed() }
/// Text that is not a JSON object
fn value_text() -> BoxedStrategy<String> {
  prop_oneof![4 => word(), 1 => any::<u16>().prop_map(|n| n.to_string()), 1 => prop::sample::select(vec!["true", "null", "[1, 2]", "\"q\"", "", "a, b", "a,b,c", "application/json", "1.50"]).prop_map(String::from)]
    .prop_filter("no object", |s| !serde_json::from_str::<Value>(s).map(|v| v.is_object()).unwrap_or(false)).boxed()
}
fn no_pact(v: &Value) -> bool { !v.to_string().contains("pact:") && !v.to_string().contains("\\u0000") }
pub fn json() -> BoxedStrategy<Value> { g::json_value().prop_filter("plain", no_pact).boxed() }
fn text() -> BoxedStrategy<Text> {
  prop_oneof![
    4 => json().prop_map(|v| Text::Json(if v.is_object() || v.is_array() { v } else { json!({ "v": v }) })),
    2 => "[a-z ]{0,8}".prop_map(Text::Xml), 3 => "[a-zA-Z][a-zA-Z0-9 é]{0,39}".prop_filter("no JSON word", |s| !["true", "false", "null"].iter().any(|w| s.starts_with(w))).prop_map(Text::Plain), 1 => Just(Text::Empty)].boxed()
}
fn bytes() -> BoxedStrategy<Vec<u8>> { prop_oneof![prop::collection::vec(any::<u8>(), 0..12), Just(b"{\"a\": 1}".to_vec()), Just(b"text".to_vec())].boxed() }
/// Parties name the file, so they stay file names
fn party() -> BoxedStrategy<String> { prop::sample::select(vec!["a", "B c", "é", "some_one"]).prop_map(String::from).boxed() }
/// A content type is one
fn typed(name: &str, v: Value) -> Value {
  if name != "contentType" || v.as_str().map(|s| TYPES.contains(&s)).unwrap_or(false) { v } else { json!(TYPES[v.to_string().len() % TYPES.len()]) }
}
fn typed_header(name: &str, index: usize, v: String) -> (usize, String) {
  if name.eq_ignore_ascii_case("content-type") { (0, TYPES[v.len() % TYPES.len()].to_string()) } else { (index, v) }
}
fn act_() -> BoxedStrategy<Act> {
  let meta = || prop_oneof![4 => json(), 1 => prop::sample::select(TYPES.to_vec()).prop_map(|t| json!(t))];
  prop_oneof![
    1 => word().prop_map(Act::Receiving), 2 => word().prop_map(Act::Given), 3 => (word(), word(), value_text()).prop_map(|(a, b, t)| Act::Param(a, b, t)),
    2 => (word(), json(), prop::bool::weighted(0.1)).prop_map(|(a, b, t)| Act::Params(a, b, t)), 1 => word().prop_map(Act::TestName), 1 => prop::option::of(word()).prop_map(Act::Key), 1 => any::<bool>().prop_map(Act::Pending),
    2 => (prop::sample::select(vec!["note", "text", "testname"]), prop::option::of(json())).prop_map(|(k, v)| Act::Comment(k.into(), v)), 1 => value_text().prop_map(Act::CommentText), 2 => word().prop_map(Act::TextComment),
    2 => (prop::option::of(prop::sample::select(vec!["GET", "POST", "delete"]).prop_map(String::from)), prop::option::of("/[a-z/]{0,6}")).prop_map(|(a, b)| Act::Request(a, b)),
    4 => (name(), 0usize..4, prop::option::weighted(0.85, value_text()), prop::bool::weighted(0.25)).prop_map(|(a, b, t, o)| Act::Query(a, b, t, o)),
    5 => (any::<bool>(), name(), 0usize..4, value_text(), prop::bool::weighted(0.25)).prop_map(|(r, a, b, t, o)| { let (b, t) = typed_header(&a, b, t); Act::Header(r, a, b, t, o) }),
    2 => (any::<bool>(), name(), value_text()).prop_map(|(r, a, t)| { let t = typed_header(&a, 0, t).1; Act::SetHeader(r, a, t) }),
    1 => (100u16..600).prop_map(Act::Status), 1 => (100u16..600).prop_map(Act::StatusText),
    6 => (any::<bool>(), prop::option::of(0..TYPES.len() + 4), text()).prop_map(|(r, x, t)| Act::Body(r, x, t)),
    2 => (any::<bool>(), 0..TYPES.len(), bytes()).prop_map(|(r, x, t)| Act::Binary(r, x, t)), 1 => (any::<bool>(), 0..TYPES.len(), bytes()).prop_map(|(r, x, t)| Act::File(r, x, t)),
    4 => (any::<bool>(), meta_name(), prop::option::weighted(0.85, meta())).prop_map(|(r, k, x)| { let x = x.map(|x| typed(&k, x)); Act::Metadata(r, k, x) }),
    3 => (any::<bool>(), prop::collection::vec((0u8..3, plain(), any::<u8>(), any::<bool>()), 1..4), any::<bool>()).prop_map(|(r, x, w)| Act::Rules(r, x, w)),
    3 => (any::<bool>(), prop::collection::vec((0u8..3, plain(), any::<u8>()), 1..4), any::<bool>()).prop_map(|(r, x, w)| Act::Gens(r, x, w)),
    1 => word().prop_map(Act::MsgReceiving), 1 => word().prop_map(Act::MsgGiven), 1 => (word(), word(), value_text()).prop_map(|(a, b, t)| Act::MsgParam(a, b, t)),
    2 => text().prop_map(Act::MsgContents), 1 => (plain(), value_text()).prop_map(|(a, b)| Act::MsgMetadata(a, b)), 1 => (meta_name(), meta()).prop_map(|(a, b)| { let b = typed(&a, b); Act::MsgMetadata2(a, b) })
  ].boxed()
}
fn op() -> BoxedStrategy<Op> {
  prop_oneof![
    1 => (any::<bool>(), prop::option::weighted(0.8, party()), prop::option::weighted(0.8, party())).prop_map(|(m, a, b)| Op::Pact(m, a, b)),
    6 => (any::<u8>(), any::<u8>(), prop::option::weighted(0.95, word())).prop_map(|(p, k, d)| Op::New(p, k, d)),
    24 => (any::<u8>(), act_()).prop_map(|(i, a)| Op::On(i, a)),
    3 => (any::<u8>(), any::<bool>(), prop::sample::select(vec!["ns", "client", "pactRust", "pactSpecification", ""]), plain(), word()).prop_map(|(p, m, a, b, x)| Op::Meta(p, m, a.into(), b, x)),
    1 => (any::<u8>(), 0u8..5).prop_map(|(p, v)| Op::Spec(p, v)), 1 => any::<u8>().prop_map(Op::Free)
  ].boxed()
}
const SPECS: [PactSpecification; 5] = [PactSpecification::V1, PactSpecification::V1_1, PactSpecification::V2, PactSpecification::V3, PactSpecification::V4];

/// What a file can not tell apart
fn settle(mut v: Value) -> Value {
  fn part(p: &mut Value) {
    if p["body"] == "empty" || p["body"] == "null" { p["body"] = json!("missing") }
    // the content type comes from the headers or the metadata when the body has none of its own
    if let Some(b) = p["body"].as_array_mut() { b.truncate(1); if let Some(j) = b[0].get("json").cloned() { b[0] = j } if let Some(Ok(j)) = b[0].as_str().map(serde_json::from_str::<Value>) { b[0] = j } }
    if p["body"] == json!([""]) || p["body"] == json!([[]]) { p["body"] = json!("missing") }
  }
  if let Some(o) = v["comments"].as_object_mut() { o.retain(|_, x| !(x.is_null() || *x == json!([]) || *x == json!({}) || *x == json!(""))) }
  part(&mut v["request"]);
  if let Some(m) = v["method"].as_str().map(|m| m.to_uppercase()) { v["method"] = json!(m) }
  if let Some(a) = v["response"].as_array_mut() { a.iter_mut().for_each(part) }
  v
}
#[allow(deprecated)]
fn run(ops: &[Op], case: &mut Case) -> R {
  // handles are random numbers, so that a handle given back may be handed out again: while one is used, no other case runs
  static ALONE: std::sync::RwLock<()> = std::sync::RwLock::new(());
  let frees = ops.iter().any(|o| matches!(o, Op::Free(_)));
  let _alone = if frees { Err(ALONE.write().unwrap_or_else(|e| e.into_inner())) } else { Ok(ALONE.read().unwrap_or_else(|e| e.into_inner())) };
  let mut pacts: Vec<Mp> = vec![];
  // handle, pact, interaction
  let mut items: Vec<(InteractionHandle, usize, Option<usize>)> = vec![];
  let start = |m: bool, a: &Option<String>, b: &Option<String>| Mp { handle: if m { as_pact(pactffi_new_message_pact(cn(a).p(), cn(b).p())) } else { pactffi_new_pact(cn(a).p(), cn(b).p()) }, message: m, live: true,
    consumer: a.clone().unwrap_or("Consumer".into()), provider: b.clone().unwrap_or("Provider".into()), spec: PactSpecification::V3, meta: BTreeMap::new(), items: vec![] };
  pacts.push(start(false, &Some("c".into()), &Some("p".into())));
  let mut acts = 0;
  for (n, op) in ops.iter().enumerate() {
    match op {
      Op::Pact(m, a, b) => {
        let p = start(*m, a, b);
        let same = |q: &Mp| unsafe { std::mem::transmute::<PactHandle, u16>(q.handle) == std::mem::transmute::<PactHandle, u16>(p.handle) };
        ensure!(!pacts.iter().any(|q| q.live && same(q)), "a handle in use is handed out again");
        if pacts.iter().any(same) { pactffi_free_pact_handle(p.handle); break }
        pacts.push(p)
      }
      Op::New(p, kind, d) => {
        let at = *p as usize % pacts.len();
        let p = &mut pacts[at];
        // the older functions never replace an interaction
        let (kind, old) = if p.message || kind % 16 == 1 { (1, true) } else { (kind % 3, false) };
        let h = if p.message { as_interaction(pactffi_new_message(unsafe { std::mem::transmute::<PactHandle, MessagePactHandle>(p.handle) }, cn(d).p())) }
          else if old { as_interaction(pactffi_new_async_message(p.handle, cn(d).p())) }
          else { match kind { 0 => pactffi_new_interaction(p.handle, cn(d).p()), 1 => pactffi_new_message_interaction(p.handle, cn(d).p()), _ => pactffi_new_sync_message_interaction(p.handle, cn(d).p()) } };
        match d {
          Some(d) if p.live => {
            let at_item = if old { None } else { p.items.iter().position(|i| i.desc == *d) };
            case.label_if(at_item.is_some(), "replaces an interaction");
            let at_item = match at_item { Some(i) => { p.items[i] = Mi::new(kind, d); i } None => { p.items.push(Mi::new(kind, d)); p.items.len() - 1 } };
            items.push((h, at, Some(at_item)));
          }
          _ => { case.label("a handle of nothing"); items.push((h, at, None)) }
        }
      }
      Op::On(i, a) => {
        if items.is_empty() { continue }
        let (h, p, i) = items[*i as usize % items.len()];
        let p = &mut pacts[p];
        let spec = p.spec;
        let m = match i { Some(i) if p.live => Some(&mut p.items[i]), _ => None };
        acts += m.is_some() as u32;
        case.label_if(m.is_none(), "a call on nothing");
        let (got, want) = act(h, m, a, spec);
        ensure_eq!(got, want, "call {} answers: {:?}", n, a);
      }
      Op::Meta(p, by_message, ns, k, x) => {
        let at = *p as usize % pacts.len();
        let p = &mut pacts[at];
        let reserved = ["pactRust", "pactSpecification"].contains(&ns.as_str());
        if *by_message && p.message {
          if reserved { continue }
          pactffi_with_message_pact_metadata(unsafe { std::mem::transmute::<PactHandle, MessagePactHandle>(p.handle) }, c(ns).p(), c(k).p(), c(x).p());
        } else {
          let want = p.live && !ns.is_empty() && !reserved;
          ensure_eq!(pactffi_with_pact_metadata(p.handle, c(ns).p(), c(k).p(), c(x).p()), want, "call {} answers: {:?}", n, op);
        }
        if p.live && !ns.is_empty() && !reserved { p.meta.entry(ns.clone()).or_default().insert(k.clone(), x.clone()); }
      }
      Op::Spec(p, v) => {
        let at = *p as usize % pacts.len();
        let p = &mut pacts[at];
        ensure_eq!(pactffi_with_specification(p.handle, SPECS[*v as usize]), p.live, "call {} answers: {:?}", n, op);
        p.spec = SPECS[*v as usize];
      }
      Op::Free(p) => {
        let at = *p as usize % pacts.len();
        let p = &mut pacts[at];
        let want = if p.live { 0 } else { 1 };
        let got = if p.message { pactffi_free_message_pact_handle(unsafe { std::mem::transmute::<PactHandle, MessagePactHandle>(p.handle) }) } else { pactffi_free_pact_handle(p.handle) };
        ensure_eq!(got, want, "call {} answers: {:?}", n, op);
        p.live = false;
      }
    }
  }
  case.nontrivial(acts >= 3);
  let result = (|| {
    for (n, p) in pacts.iter().enumerate() {
      ensure_eq!(pactffi_handle_get_pact_spec_version(p.handle), if p.live { p.spec } else { PactSpecification::Unknown }, "specification version of pact {}", n);
      let pact = pact_of(p.handle);
      ensure_eq!(pact.is_some(), p.live, "pact {} is there", n);
      let Some(pact) = pact else { continue };
      ensure_eq!((&pact.consumer.name, &pact.provider.name), (&p.consumer, &p.provider), "parties of pact {}", n);
      let mut meta = pact.metadata.clone();
      let own = meta.remove("pactRust");
      ensure!(own.as_ref().and_then(|o| o.get("ffi")).map(|v| v.is_string()).unwrap_or(false), "pact {} says who made it: {:?}", n, own);
      ensure_eq!(json!(meta), json!(p.meta), "metadata of pact {}", n);
      let want: Vec<Value> = p.items.iter().map(|i| i.dump()).collect();
      let got = dump(&pact);
      ensure_eq!(got.len(), want.len(), "interactions of pact {}", n);
      for (a, b) in got.iter().zip(&want) {
        let (ao, bo) = (a.as_object().unwrap(), b.as_object().unwrap());
        for k in bo.keys().chain(ao.keys()) { ensure_eq!(ao.get(k).unwrap_or(&Value::Null), bo.get(k).unwrap_or(&Value::Null), "{} of interaction '{}' of pact {}", k, b["description"], n); }
      }
      if n == 0 && p.spec == PactSpecification::V4 || p.message && p.spec >= PactSpecification::V3 {
        // and the file says the same
        let dir = Scratch::new();
        let text = dir.0.to_str().unwrap();
        let code = if p.message { pactffi_write_message_pact_file(unsafe { std::mem::transmute::<PactHandle, MessagePactHandle>(p.handle) }, c(text).p(), true) } else { pactffi_pact_handle_write_file(p.handle, c(text).p(), true) };
        ensure_eq!(code, 0, "writing pact {}", n);
        let file = dir.0.join(format!("{}-{}.json", p.consumer, p.provider));
        ensure!(file.is_file(), "pact {} is written to {:?}", n, file);
        if p.spec != PactSpecification::V4 { continue }
        let back = pact_models::pact::read_pact(&file).map_err(|e| format!("pact {} can not be read back: {}", n, e))?.as_v4_pact().map_err(|e| e.to_string())?;
        case.label("written and read back");
        let norm = |v: Vec<Value>| { let mut v: Vec<String> = v.into_iter().map(settle).map(|v| v.to_string()).collect(); v.sort(); v };
        let (a, b) = (norm(dump(&back)), norm(got));
        for (a, b) in a.iter().zip(&b) { ensure_eq!(a, b, "interaction in the file of pact {}", n); }
        ensure_eq!(a.len(), b.len(), "interactions in the file of pact {}", n);
      }
    }
    Ok(())
  })();
  for p in &pacts { if p.live { pactffi_free_pact_handle(p.handle); } }
  result
}

pub fn p49(h: &mut H) {
  h.check("handles", 30000, "at least three calls on interactions that exist", || (prop::bool::weighted(0.15), prop::collection::vec(op(), 3..40)).prop_map(|(frees, mut ops)| { if !frees { ops.retain(|o| !matches!(o, Op::Free(_))) } ops }), |ops, case| run(ops, case));
  h.assume("values are plain here: strings, JSON without pact: members");
}
