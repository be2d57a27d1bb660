//! What the checks of the C interface share: strings, scratch directories, and a plain view of a pact.
use std::collections::BTreeMap;
use std::ffi::{CStr, CString};
use std::os::raw::c_char;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU32, Ordering};

use pact_ffi::mock_server::handles::*;
use pact_models::bodies::OptionalBody;
use pact_models::generators::Generators;
use pact_models::matchingrules::MatchingRules;
use pact_models::pact::Pact;
use pact_models::provider_states::ProviderState;
use pact_models::v4::message_parts::MessageContents;
use pact_models::v4::pact::V4Pact;
use serde_json::{json, Map, Value};

unsafe extern "C" {
  fn pactffi_string_delete(s: *mut c_char);
  pub fn pactffi_get_error_message(buffer: *mut c_char, length: i32) -> i32;
}

/// A string handed over as a C string; `None` is a null pointer
pub struct C(Option<CString>);
impl C {
  pub fn p(&self) -> *const c_char { self.0.as_ref().map(|s| s.as_ptr()).unwrap_or(std::ptr::null()) }
}
pub fn c(s: &str) -> C { C(Some(CString::new(s).expect("no NUL"))) }
pub fn cn(s: &Option<String>) -> C { C(s.as_ref().map(|s| CString::new(s.as_str()).expect("no NUL"))) }
pub fn null() -> C { C(None) }

/// Takes over a string returned by the library
pub fn take(p: *const c_char) -> Option<String> {
  if p.is_null() { return None }
  let s = unsafe { CStr::from_ptr(p) }.to_str().expect("UTF-8 comes back").to_string();
  unsafe { pactffi_string_delete(p as *mut c_char) };
  Some(s)
}

/// A directory of one's own, removed afterwards
pub struct Scratch(pub PathBuf);
static N: AtomicU32 = AtomicU32::new(0);
impl Scratch {
  pub fn new() -> Scratch {
    let d = std::env::temp_dir().join(format!("pfcheck-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
    std::fs::create_dir_all(&d).expect("scratch directory");
    Scratch(d)
  }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

/// The pact behind a handle
pub fn pact_of(h: PactHandle) -> Option<V4Pact> {
  // both kinds of pact handle are the same number on the C side
  let h: MessagePactHandle = unsafe { std::mem::transmute(h) };
  h.with_pact(&|_, p, _| p.clone())
}
pub fn as_pact(h: MessagePactHandle) -> PactHandle { unsafe { std::mem::transmute(h) } }
pub fn as_interaction(h: MessageHandle) -> InteractionHandle { unsafe { std::mem::transmute(h) } }
pub fn as_message(h: InteractionHandle) -> MessageHandle { unsafe { std::mem::transmute(h) } }

pub fn dump_body(b: &OptionalBody) -> Value {
  match b {
    OptionalBody::Missing => json!("missing"),
    OptionalBody::Empty => json!("empty"),
    OptionalBody::Null => json!("null"),
    OptionalBody::Present(bytes, ct, hint) => {
      let ct = ct.as_ref().map(|c| c.to_string());
      let json_type = ct.as_ref().map(|c| c.contains("json")).unwrap_or(false);
      let text = match std::str::from_utf8(bytes) {
        Ok(s) => match serde_json::from_str::<Value>(s) { Ok(v) if json_type => json!({ "json": v }), _ => json!(s) },
        Err(_) => json!(bytes.to_vec())
      };
      json!([text, ct, hint.map(|h| format!("{:?}", h))])
    }
  }
}
/// The name of a field, or of a place in a body
fn place(cat: &str, path: &pact_models::path_exp::DocPath) -> String {
  let p = path.to_string();
  if cat == "body" { p } else { p.strip_prefix("$.").map(String::from).unwrap_or(p) }
}
pub fn dump_rules(r: &MatchingRules) -> Value {
  let mut m = Map::new();
  for (cat, rules) in &r.rules {
    for (path, list) in &rules.rules {
      if list.rules.is_empty() { continue }
      let rules: Vec<Value> = list.rules.iter().map(|r| r.to_json()).collect();
      m.insert(format!("{} {}", cat, place(&cat.to_string(), path)), json!([format!("{:?}", list.rule_logic), rules]));
    }
  }
  Value::Object(m)
}
pub fn dump_gens(g: &Generators) -> Value {
  let mut m = Map::new();
  for (cat, gens) in &g.categories {
    let cat: String = cat.clone().into();
    for (path, g) in gens { m.insert(format!("{} {}", cat, place(&cat, path)), g.to_json().unwrap_or(json!(format!("{:?}", g)))); }
  }
  Value::Object(m)
}
pub fn dump_states(s: &[ProviderState]) -> Value {
  json!(s.iter().map(|s| json!([s.name, s.params.iter().collect::<BTreeMap<_, _>>()])).collect::<Vec<_>>())
}
fn contents(m: &MessageContents) -> Value {
  json!({ "metadata": m.metadata.iter().collect::<BTreeMap<_, _>>(), "body": dump_body(&m.contents), "rules": dump_rules(&m.matching_rules), "generators": dump_gens(&m.generators) })
}
/// All interactions of a pact, in order
pub fn dump(p: &V4Pact) -> Vec<Value> {
  p.interactions.iter().map(|i| {
    let common = json!({ "description": i.description(), "key": i.key(), "pending": i.pending(), "comments": i.comments().iter().collect::<BTreeMap<_, _>>(), "states": dump_states(&i.provider_states()) });
    let rest = if let Some(h) = i.as_v4_http() {
      json!({ "type": "http", "method": h.request.method, "path": h.request.path, "query": h.request.query.as_ref().map(|q| q.iter().collect::<BTreeMap<_, _>>()), "status": h.response.status,
        "request": { "headers": h.request.headers.as_ref().map(|q| q.iter().collect::<BTreeMap<_, _>>()).unwrap_or_default(), "body": dump_body(&h.request.body), "rules": dump_rules(&h.request.matching_rules), "generators": dump_gens(&h.request.generators) },
        "response": [{ "headers": h.response.headers.as_ref().map(|q| q.iter().collect::<BTreeMap<_, _>>()).unwrap_or_default(), "body": dump_body(&h.response.body), "rules": dump_rules(&h.response.matching_rules), "generators": dump_gens(&h.response.generators) }] })
    } else if let Some(m) = i.as_v4_async_message() {
      json!({ "type": "async", "request": contents(&m.contents) })
    } else if let Some(m) = i.as_v4_sync_message() {
      json!({ "type": "sync", "request": contents(&m.request), "response": m.response.iter().map(contents).collect::<Vec<_>>() })
    } else { json!("?") };
    let mut all = common.as_object().unwrap().clone();
    all.extend(rest.as_object().cloned().unwrap_or_default());
    Value::Object(all)
  }).collect()
}
