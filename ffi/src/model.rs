//! P54 models read and changed through the C functions.
use std::collections::BTreeMap;
use std::ffi::{CStr, CString};
use std::os::raw::c_char;
use bytes::Bytes;
use proptest::prelude::*;
use pact_ffi::mock_server::handles::*;
use pact_ffi::models::async_message::*;
use pact_ffi::models::consumer::*;
use pact_ffi::models::contents::*;
use pact_ffi::models::generators::*;
use pact_ffi::models::http_interaction::*;
use pact_ffi::models::interactions::*;
use pact_ffi::models::iterators::*;
use pact_ffi::models::matching_rules::*;
use pact_ffi::models::message::*;
use pact_ffi::models::message_pact::*;
use pact_ffi::models::pact_specification::PactSpecification as Spec;
use pact_ffi::models::provider::*;
use pact_ffi::models::provider_state::*;
use pact_ffi::models::sync_message::*;
use pact_ffi::models::{pactffi_pact_model_delete, pactffi_pact_model_interaction_iterator, pactffi_pact_spec_version, pactffi_parse_pact_json};
use pact_models::bodies::OptionalBody;
use pact_models::content_types::{ContentType, ContentTypeHint};
use pact_models::generators::{Generator, GeneratorCategory as GC, Generators};
use pact_models::json_utils::json_to_string;
use pact_models::matchingrules::{Category, MatchingRule, MatchingRules};
use pact_models::message::Message;
use pact_models::message_pact::MessagePact;
use pact_models::pact::load_pact_from_json;
use pact_models::PactSpecification;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::v4::message_parts::MessageContents;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use pvfw::{ensure, ensure_eq, H, R};
use serde_json::{json, Value};

use crate::common::*;
use crate::g::*;
use crate::legacy::*;
use crate::pacts::*;

/// What a text is as a C string: one with a NUL inside can not be given
pub fn seen(s: &str) -> Option<String> { if s.contains('\0') { None } else { Some(s.to_string()) } }
fn borrowed(p: *const c_char) -> Option<String> { if p.is_null() { None } else { Some(unsafe { CStr::from_ptr(p) }.to_str().expect("UTF-8").to_string()) } }

/// The text of a body, as it is given to C
fn body_text(b: &OptionalBody) -> Option<String> {
  match b {
    OptionalBody::Missing => None,
    OptionalBody::Empty | OptionalBody::Null => Some(String::new()),
    OptionalBody::Present(..) => seen(&b.value_as_string().unwrap_or_default())
  }
}
fn leak(s: &Option<String>) -> *const c_char { s.as_ref().map(|s| CString::new(s.as_str()).unwrap().into_raw() as *const c_char).unwrap_or(std::ptr::null()) }
/// Reads a body with the three functions for it
fn read(want: &OptionalBody, text: *const c_char, len: usize, bin: *const u8, what: &str) -> R {
  ensure_eq!(take(text), body_text(want), "text of {}", what);
  match want {
    OptionalBody::Present(b, _, _) => {
      ensure_eq!(len, b.len(), "length of {}", what);
      ensure!(!bin.is_null(), "no bytes of {}", what);
      ensure_eq!(unsafe { std::slice::from_raw_parts(bin, len) }.to_vec(), b.to_vec(), "bytes of {}", what);
    }
    _ => { ensure_eq!(len, 0, "length of {}", what); ensure!(bin.is_null(), "bytes of {} which is not there", what); }
  }
  Ok(())
}

type States = [pact_models::provider_states::ProviderState];
fn states(want: &States, at: impl Fn(u32) -> *const ProviderState, iter: *mut ProviderStateIterator) -> R {
  let one = |p: *const ProviderState, s: &ProviderState| -> R {
    ensure!(!p.is_null(), "state {:?} is not there", s);
    ensure_eq!(take(pactffi_provider_state_get_name(p)), seen(&s.name), "name of a state");
    let it = pactffi_provider_state_get_param_iter(p as *mut _);
    let mut got = BTreeMap::new();
    // a value or name with a NUL inside can not be given
    for _ in 0..s.params.len() {
      let pair = pactffi_provider_state_param_iter_next(it);
      if pair.is_null() { continue }
      let [k, v]: [*const c_char; 2] = unsafe { std::ptr::read(pair as *const [*const c_char; 2]) };
      ensure!(got.insert(take(k).unwrap(), take(v).unwrap()).is_none(), "a parameter is there twice");
      unsafe { std::alloc::dealloc(pair as *mut u8, std::alloc::Layout::new::<[*const c_char; 2]>()) };
    }
    ensure!(pactffi_provider_state_param_iter_next(it).is_null() && pactffi_provider_state_param_iter_next(it).is_null(), "a parameter after the last");
    pactffi_provider_state_param_iter_delete(it);
    let want: BTreeMap<String, String> = s.params.iter().filter(|(k, _)| !k.contains('\0')).map(|(k, v)| (k.clone(), v.to_string())).collect();
    ensure_eq!(got, want, "parameters of state {:?}", s.name);
    Ok(())
  };
  for (n, s) in want.iter().enumerate() { one(at(n as u32), s)?; one(pactffi_provider_state_iter_next(iter), s)?; }
  ensure!(at(want.len() as u32).is_null() && at(u32::MAX).is_null(), "a state after the last");
  ensure!(pactffi_provider_state_iter_next(iter).is_null() && pactffi_provider_state_iter_next(iter).is_null(), "the iterator gives a state after the last");
  pactffi_provider_state_iter_delete(iter);
  Ok(())
}

const CATS: [(MatchingRuleCategory, Category); 8] = [(MatchingRuleCategory::METHOD, Category::METHOD), (MatchingRuleCategory::PATH, Category::PATH), (MatchingRuleCategory::HEADER, Category::HEADER), (MatchingRuleCategory::QUERY, Category::QUERY),
  (MatchingRuleCategory::BODY, Category::BODY), (MatchingRuleCategory::STATUS, Category::STATUS), (MatchingRuleCategory::CONTENTS, Category::CONTENTS), (MatchingRuleCategory::METADATA, Category::METADATA)];
const GCATS: [(GeneratorCategory, GC); 7] = [(GeneratorCategory::METHOD, GC::METHOD), (GeneratorCategory::PATH, GC::PATH), (GeneratorCategory::HEADER, GC::HEADER), (GeneratorCategory::QUERY, GC::QUERY),
  (GeneratorCategory::BODY, GC::BODY), (GeneratorCategory::STATUS, GC::STATUS), (GeneratorCategory::METADATA, GC::METADATA)];

fn json_of(p: *const c_char) -> Option<Value> { take(p).map(|s| serde_json::from_str(&s).expect("JSON comes back")) }

/// All rules of all categories: each rule with its path, those of one path together and in order
fn rules(want: &MatchingRules, iter: impl Fn(MatchingRuleCategory) -> *mut MatchingRuleCategoryIterator) -> R {
  for (ccat, cat) in CATS {
    let mut expected: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    let mut nuls = 0;
    if let Some(c) = want.rules.get(&cat) { for (p, l) in &c.rules { for r in &l.rules {
      if p.to_string().contains('\0') { nuls += 1; continue }
      expected.entry(p.to_string()).or_default().push(r.to_json());
    } } }
    let it = iter(ccat);
    let mut got: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    let mut last: Option<String> = None;
    for _ in 0..expected.values().map(|l| l.len()).sum::<usize>() + nuls {
      let pair = pactffi_matching_rules_iter_next(it);
      if pair.is_null() { continue }
      let (path, rule) = unsafe { (borrowed((*pair).path).unwrap(), (*pair).rule) };
      if last.as_ref() != Some(&path) { ensure!(!got.contains_key(&path), "rules of {} {} are not together", cat, path); }
      last = Some(path.clone());
      got.entry(path).or_default().push(json_of(pactffi_matching_rule_to_json(rule)).unwrap_or(json!("?")));
      pactffi_matching_rules_iter_pair_delete(pair);
    }
    ensure!(pactffi_matching_rules_iter_next(it).is_null(), "a rule after the last of {}", cat);
    pactffi_matching_rules_iter_delete(it);
    ensure_eq!(got, expected, "rules of {}", cat);
  }
  Ok(())
}
fn gens(want: &Generators, iter: impl Fn(GeneratorCategory) -> *mut GeneratorCategoryIterator) -> R {
  for (ccat, cat) in GCATS {
    let empty = Default::default();
    let all = want.categories.get(&cat).unwrap_or(&empty);
    let expected: BTreeMap<String, Value> = all.iter().filter(|(p, _)| !p.to_string().contains('\0')).map(|(p, g)| (p.to_string(), g.to_json().unwrap_or_default())).collect();
    let it = iter(ccat);
    let mut got = BTreeMap::new();
    for _ in 0..all.len() {
      let pair = pactffi_generators_iter_next(it);
      if pair.is_null() { continue }
      let (path, g) = unsafe { (borrowed((*pair).path).unwrap(), (*pair).generator) };
      got.insert(path, json_of(pactffi_generator_to_json(g)).unwrap_or(json!("?")));
      pactffi_generators_iter_pair_delete(pair);
    }
    ensure!(pactffi_generators_iter_next(it).is_null(), "a generator after the last of {:?}", cat);
    pactffi_generators_iter_delete(it);
    ensure_eq!(got, expected, "generators of {:?}", cat);
  }
  Ok(())
}
fn metadata<'a>(want: impl Iterator<Item = (&'a String, &'a Value)>, it: *mut MessageMetadataIterator) -> R {
  let want: Vec<(&String, &Value)> = want.collect();
  let expected: BTreeMap<String, String> = want.iter().map(|(k, v)| (k.to_string(), json_to_string(v))).filter(|(k, v)| !k.contains('\0') && !v.contains('\0')).collect();
  let mut got = BTreeMap::new();
  for _ in 0..want.len() {
    let pair = pactffi_message_metadata_iter_next(it);
    if pair.is_null() { continue }
    let (k, v) = unsafe { (borrowed((*pair).key).unwrap(), borrowed((*pair).value).unwrap()) };
    ensure!(got.insert(k, v).is_none(), "a metadata item is there twice");
    pactffi_message_metadata_pair_delete(pair);
  }
  ensure!(pactffi_message_metadata_iter_next(it).is_null() && pactffi_message_metadata_iter_next(it).is_null(), "a metadata item after the last");
  pactffi_message_metadata_iter_delete(it);
  ensure_eq!(got, expected, "metadata");
  Ok(())
}
fn contents(want: &MessageContents, p: *const MessageContents, what: &str) -> R {
  ensure!(!p.is_null(), "no {}", what);
  read(&want.contents, pactffi_message_contents_get_contents_str(p), pactffi_message_contents_get_contents_length(p), pactffi_message_contents_get_contents_bin(p), what)?;
  metadata(want.metadata.iter(), pactffi_message_contents_get_metadata_iter(p))?;
  rules(&want.matching_rules, |c| pactffi_message_contents_get_matching_rule_iter(p, c))?;
  gens(&want.generators, |c| pactffi_message_contents_get_generators_iter(p, c))
}
fn no_generators(gens: &Generators, rules: &MatchingRules, of: &GC) -> bool {
  // an array-contains rule has generators of its own
  let variants = rules.rules.values().flat_map(|c| c.rules.values()).flat_map(|l| l.rules.iter()).any(|r| matches!(r, MatchingRule::ArrayContains(_)));
  gens.categories.get(of).map(|m| m.is_empty()).unwrap_or(true) && !variants
}
/// Contents with generators applied: what no generator is for stays
fn generated(want: &MessageContents, p: *const MessageContents, what: &str) -> R {
  ensure!(!p.is_null(), "no generated {}", what);
  let none = |c: &GC| no_generators(&want.generators, &want.matching_rules, c);
  let got = unsafe { &*p };
  if none(&GC::BODY) { ensure_eq!(got.contents.value(), want.contents.value(), "generated {} without generators for it", what); }
  if none(&GC::METADATA) { ensure_eq!(got.metadata, want.metadata, "generated metadata of {} without generators for it", what); }
  pactffi_message_contents_delete(p);
  Ok(())
}

fn http(want: &SynchronousHttp, p: *const SynchronousHttp) -> R {
  ensure_eq!(take(pactffi_sync_http_get_description(p)), seen(&want.description), "description");
  states(&want.provider_states, |n| pactffi_sync_http_get_provider_state(p, n), pactffi_sync_http_get_provider_state_iter(p as *mut _))?;
  read(&want.request.body, pactffi_sync_http_get_request_contents(p), pactffi_sync_http_get_request_contents_length(p), pactffi_sync_http_get_request_contents_bin(p), "the request body")?;
  read(&want.response.body, pactffi_sync_http_get_response_contents(p), pactffi_sync_http_get_response_contents_length(p), pactffi_sync_http_get_response_contents_bin(p), "the response body")?;
  let (rq, rs): (*const HttpRequest, *const HttpResponse) = (pactffi_sync_http_get_request(p), pactffi_sync_http_get_response(p));
  ensure!(unsafe { *rq == want.request && *rs == want.response }, "request or response is different");
  rules(&want.request.matching_rules, |c| pactffi_request_contents_get_matching_rule_iter(rq, c))?;
  rules(&want.response.matching_rules, |c| pactffi_response_contents_get_matching_rule_iter(rs, c))?;
  gens(&want.request.generators, |c| pactffi_request_contents_get_generators_iter(rq, c))?;
  gens(&want.response.generators, |c| pactffi_response_contents_get_generators_iter(rs, c))
}
fn asynchronous(want: &AsynchronousMessage, p: *const AsynchronousMessage) -> R {
  ensure_eq!(take(pactffi_async_message_get_description(p)), seen(&want.description), "description");
  states(&want.provider_states, |n| pactffi_async_message_get_provider_state(p, n), pactffi_async_message_get_provider_state_iter(p as *mut _))?;
  read(&want.contents.contents, pactffi_async_message_get_contents_str(p), pactffi_async_message_get_contents_length(p), pactffi_async_message_get_contents_bin(p), "the contents of the message")?;
  contents(&want.contents, pactffi_async_message_get_contents(p), "contents")?;
  generated(&want.contents, pactffi_async_message_generate_contents(p), "contents")
}
fn synchronous(want: &SynchronousMessage, p: *const SynchronousMessage) -> R {
  ensure_eq!(take(pactffi_sync_message_get_description(p)), seen(&want.description), "description");
  states(&want.provider_states, |n| pactffi_sync_message_get_provider_state(p, n), pactffi_sync_message_get_provider_state_iter(p as *mut _))?;
  read(&want.request.contents, pactffi_sync_message_get_request_contents_str(p), pactffi_sync_message_get_request_contents_length(p), pactffi_sync_message_get_request_contents_bin(p), "the request")?;
  contents(&want.request, pactffi_sync_message_get_request_contents(p), "request contents")?;
  generated(&want.request, pactffi_sync_message_generate_request_contents(p), "request contents")?;
  let n = want.response.len();
  ensure_eq!(pactffi_sync_message_get_number_responses(p), n, "number of responses");
  for (n, r) in want.response.iter().enumerate() {
    read(&r.contents, pactffi_sync_message_get_response_contents_str(p, n), pactffi_sync_message_get_response_contents_length(p, n), pactffi_sync_message_get_response_contents_bin(p, n), "a response")?;
    contents(r, pactffi_sync_message_get_response_contents(p, n), "response contents")?;
    generated(r, pactffi_sync_message_generate_response_contents(p, n), "response contents")?;
  }
  for n in [n, n + 1, usize::MAX] {
    ensure!(pactffi_sync_message_get_response_contents(p, n).is_null() && pactffi_sync_message_generate_response_contents(p, n).is_null() && pactffi_sync_message_get_response_contents_str(p, n).is_null()
      && pactffi_sync_message_get_response_contents_bin(p, n).is_null() && pactffi_sync_message_get_response_contents_length(p, n) == 0, "a response after the last");
  }
  Ok(())
}
fn old(want: &Message, p: *const Message) -> R {
  ensure_eq!(take(pactffi_message_get_description(p)), seen(&want.description), "description");
  states(&want.provider_states, |n| pactffi_message_get_provider_state(p, n), pactffi_message_get_provider_state_iter(p as *mut _))?;
  let none = |c: &GC| no_generators(&want.generators, &want.matching_rules, c);
  if none(&GC::BODY) {
    // reading the contents runs the generators, which may find a content type where none was given: what is text then is not judged
    let body = want.contents.clone();
    let mut text = pactffi_message_get_contents(p);
    if body.value().is_some() && body.value_as_string().is_none() { take(text); text = leak(&body_text(&body)); }
    read(&body, text, pactffi_message_get_contents_length(p), pactffi_message_get_contents_bin(p), "the contents of the message")?;
  } else { take(pactffi_message_get_contents(p)); }
  if none(&GC::METADATA) { metadata(want.metadata.iter(), pactffi_message_get_metadata_iter(p as *mut _))?; }
  for (k, v) in want.metadata.iter().filter(|(k, _)| !k.contains('\0')) { ensure_eq!(take(pactffi_message_find_metadata(p, c(k).p())), seen(&json_to_string(v)), "metadata {:?}", k); }
  ensure!(pactffi_message_find_metadata(p, c("not there").p()).is_null(), "metadata that is not there");
  Ok(())
}

fn spec(v: PactSpecification) -> Spec {
  match v { PactSpecification::V1 => Spec::V1, PactSpecification::V1_1 => Spec::V1_1, PactSpecification::V2 => Spec::V2, PactSpecification::V3 => Spec::V3, PactSpecification::V4 => Spec::V4, _ => Spec::Unknown }
}

#[derive(Debug, Clone)]
enum Doc { Rr(Pact3<RR3>, PactSpecification), Msg(Pact3<Msg3>), V4(PSpec) }
impl Doc {
  fn json(&self) -> Value { match self { Doc::Rr(p, v) => p.json(*v), Doc::Msg(p) => p.json(), Doc::V4(p) => p.json() } }
}
fn doc() -> B<Doc> {
  prop_oneof![
    1 => prop::sample::select(vec![PactSpecification::V1, PactSpecification::V1_1, PactSpecification::V2]).prop_flat_map(|v| pact3(rr3(true)).prop_map(move |p| Doc::Rr(p, v))),
    1 => pact3(rr3(false)).prop_map(|p| Doc::Rr(p, PactSpecification::V3)), 2 => pact3(msg3()).prop_map(Doc::Msg), 5 => pspec().prop_map(Doc::V4)].boxed()
}

fn reading(h: &mut H) {
  h.check("pact", 3_000, "pact documents of every version, read through the C functions; non-trivial: two interactions", doc, |d, cx| {
    let j = d.json();
    let text = j.to_string();
    let pact = load_pact_from_json("x", &j).map_err(|e| e.to_string())?;
    let list = pact.interactions();
    cx.nontrivial(list.len() > 1);
    let p = pactffi_parse_pact_json(c(&text).p());
    ensure!(!p.is_null(), "the pact is not read");
    ensure_eq!(pactffi_pact_spec_version(p), spec(pact.specification_version()), "version");
    let (co, pr) = (pactffi_pact_get_consumer(p), pactffi_pact_get_provider(p));
    ensure_eq!((take(pactffi_consumer_get_name(co)), take(pactffi_provider_get_name(pr))), (seen(&pact.consumer().name), seen(&pact.provider().name)), "names");
    pactffi_pact_consumer_delete(co); pactffi_pact_provider_delete(pr);
    let it = pactffi_pact_model_interaction_iterator(p);
    // the iterator has interactions of its own
    pactffi_pact_model_delete(p);
    for i in &list {
      let x = pactffi_pact_interaction_iter_next(it);
      ensure!(!x.is_null(), "an interaction is missing");
      let (a, b, s, o) = (pactffi_pact_interaction_as_synchronous_http(x), pactffi_pact_interaction_as_asynchronous_message(x), pactffi_pact_interaction_as_synchronous_message(x), pactffi_pact_interaction_as_message(x));
      ensure_eq!([!a.is_null(), !b.is_null(), !s.is_null(), !o.is_null()], [i.as_v4_http().is_some(), i.as_v4_async_message().is_some(), i.as_v4_sync_message().is_some(), i.as_message().is_some()], "what the interaction can be read as");
      if let Some(w) = i.as_v4_http() { cx.label("http"); http(&w, a)?; pactffi_sync_http_delete(a); }
      if let Some(w) = i.as_v4_async_message() { cx.label("async"); asynchronous(&w, b)?; pactffi_async_message_delete(b); }
      if let Some(w) = i.as_v4_sync_message() { cx.label("sync"); synchronous(&w, s)?; pactffi_sync_message_delete(s as *mut _); }
      if let Some(w) = i.as_message() { cx.label("message"); old(&w, o)?; pactffi_message_delete(o as *mut _); }
    }
    ensure!(pactffi_pact_interaction_iter_next(it).is_null() && pactffi_pact_interaction_iter_next(it).is_null(), "an interaction after the last");
    pactffi_pact_interaction_iter_delete(it);
    Ok(())
  });
  h.check("handle", 2_500, "pacts of V4 behind a handle, read with the iterators of each kind of interaction; non-trivial: interactions of two kinds", pspec, |s, cx| {
    let pact = s.build();
    let handle = MessagePactHandle::new("a", "b");
    handle.with_pact(&|_, p, _| *p = pact.clone());
    let h = as_pact(handle);
    let (mut a, mut b, mut d, mut e) = (vec![], vec![], vec![], vec![]);
    for i in &pact.interactions {
      if let Some(x) = i.as_v4_http() { a.push(x); }
      if let Some(x) = i.as_v4_async_message() { b.push(x); }
      if let Some(x) = i.as_v4_sync_message() { d.push(x); }
    }
    cx.nontrivial([a.is_empty(), b.is_empty(), d.is_empty()].iter().filter(|x| !**x).count() > 1);
    for i in &pact.interactions { if let Some(x) = i.as_v4_async_message() { e.push(x); } }
    let it = pactffi_pact_handle_get_sync_http_iter(h);
    for w in &a { let p = pactffi_pact_sync_http_iter_next(it); ensure!(!p.is_null(), "an HTTP interaction is missing"); http(w, p)?; }
    ensure!(pactffi_pact_sync_http_iter_next(it).is_null(), "an HTTP interaction after the last"); pactffi_pact_sync_http_iter_delete(it);
    let it = pactffi_pact_handle_get_async_message_iter(h);
    for w in &b { let p = pactffi_pact_async_message_iter_next(it); ensure!(!p.is_null(), "a message is missing"); asynchronous(w, p)?; }
    ensure!(pactffi_pact_async_message_iter_next(it).is_null(), "a message after the last"); pactffi_pact_async_message_iter_delete(it);
    let it = pactffi_pact_handle_get_sync_message_iter(h);
    for w in &d { let p = pactffi_pact_sync_message_iter_next(it); ensure!(!p.is_null(), "a synchronous message is missing"); synchronous(w, p)?; }
    ensure!(pactffi_pact_sync_message_iter_next(it).is_null(), "a synchronous message after the last"); pactffi_pact_sync_message_iter_delete(it);
    let it = pactffi_pact_handle_get_message_iter(h);
    for w in &e {
      let p = pactffi_pact_message_iter_next(it);
      ensure!(!p.is_null(), "a message of the old kind is missing");
      ensure_eq!(take(pactffi_message_get_description(p)), seen(&w.description), "description of a message");
    }
    ensure!(pactffi_pact_message_iter_next(it).is_null(), "a message of the old kind after the last"); pactffi_pact_message_iter_delete(it);
    pactffi_free_pact_handle(h);
    Ok(())
  });
  h.check("message_pact", 3_000, "message pacts of V3, read through the C functions; non-trivial: two messages", || pact3(msg3()), |d, cx| {
    let j = d.json();
    let want = MessagePact::from_json("x", &j).map_err(|e| e.to_string())?;
    cx.nontrivial(want.messages.len() > 1);
    let p = pactffi_message_pact_new_from_json(c("x").p(), c(&j.to_string()).p());
    ensure!(!p.is_null(), "the pact is not read");
    ensure_eq!((take(pactffi_consumer_get_name(pactffi_message_pact_get_consumer(p))), take(pactffi_provider_get_name(pactffi_message_pact_get_provider(p)))), (seen(&want.consumer.name), seen(&want.provider.name)), "names");
    let it = pactffi_message_pact_get_message_iter(p);
    for m in &want.messages { let x = pactffi_message_pact_message_iter_next(it); ensure!(!x.is_null(), "a message is missing"); old(m, x)?; }
    ensure!(pactffi_message_pact_message_iter_next(it).is_null(), "a message after the last");
    pactffi_message_pact_message_iter_delete(it);
    let mut expected = BTreeMap::new();
    let mut all = 0;
    for (a, m) in &want.metadata { for (b, v) in m { all += 1;
      if !a.contains('\0') && !b.contains('\0') {
        ensure_eq!(take(pactffi_message_pact_find_metadata(p, c(a).p(), c(b).p())), seen(v), "metadata {} {}", a, b);
        if !v.contains('\0') { expected.insert((a.clone(), b.clone()), v.clone()); }
      }
    } }
    ensure!(pactffi_message_pact_find_metadata(p, c("not").p(), c("there").p()).is_null(), "metadata that is not there");
    let it = pactffi_message_pact_get_metadata_iter(p);
    let mut got = BTreeMap::new();
    for _ in 0..all {
      let t = pactffi_message_pact_metadata_iter_next(it);
      if t.is_null() { continue }
      let [a, b, v]: [*const c_char; 3] = unsafe { std::ptr::read(t as *const [*const c_char; 3]) };
      got.insert((borrowed(a).unwrap(), borrowed(b).unwrap()), borrowed(v).unwrap());
      pactffi_message_pact_metadata_triple_delete(t);
    }
    ensure!(pactffi_message_pact_metadata_iter_next(it).is_null(), "metadata after the last");
    pactffi_message_pact_metadata_iter_delete(it);
    ensure_eq!(got, expected, "metadata of the pact");
    pactffi_message_pact_delete(p);
    // each message on its own
    for (n, m) in j["messages"].as_array().into_iter().flatten().enumerate() {
      let p = pactffi_message_new_from_json(n as u32, c(&m.to_string()).p(), Spec::V3);
      ensure!(!p.is_null(), "the message is not read");
      old(&want.messages[n], p)?;
      pactffi_message_delete(p);
    }
    Ok(())
  });
}

// ---------------------------------------------------------------- changing

#[derive(Debug, Clone)]
enum Set { Description(String), Text(u8, Option<String>, Option<String>), Bytes(u8, Option<Vec<u8>>, Option<String>), Metadata(String, String) }

fn plain() -> B<String> { prop_oneof![2 => ident(), 2 => text(), 1 => Just(String::new())].prop_map(|s| s.replace('\0', "")).boxed() }
fn set() -> B<Set> {
  let ct = || prop::option::of(prop_oneof![4 => prop::sample::select(vec!["application/json", "text/plain;charset=utf-8", "application/octet-stream", "image/png", "application/vnd.x+xml"]).prop_map(String::from), 1 => Just("".to_string()), 1 => Just("no type".to_string())]);
  prop_oneof![1 => plain().prop_map(Set::Description), 3 => (0u8..5, prop::option::weighted(0.8, plain()), ct()).prop_map(|(a, b, c)| Set::Text(a, b, c)),
    3 => (0u8..5, prop::option::weighted(0.8, prop_oneof![prop::collection::vec(any::<u8>(), 1..6), plain().prop_map(|s| format!("{}.", s).into_bytes())]), ct()).prop_map(|(a, b, c)| Set::Bytes(a, b, c)),
    1 => (plain(), plain()).prop_map(|(a, b)| Set::Metadata(a, b))].boxed()
}
fn content_type(s: &Option<String>) -> Option<ContentType> { s.as_ref().and_then(|s| ContentType::parse(s.as_str()).ok()) }
fn new_body(s: &Set) -> OptionalBody {
  match s {
    Set::Text(_, Some(t), ct) => OptionalBody::Present(Bytes::from(t.clone()), content_type(ct), Some(ContentTypeHint::TEXT)),
    Set::Bytes(_, Some(b), ct) => OptionalBody::Present(Bytes::from(b.clone()), content_type(ct), Some(ContentTypeHint::BINARY)),
    _ => OptionalBody::Null
  }
}

fn changing(h: &mut H) {
  h.check("set", 12_000, "sequences of the functions that set descriptions, bodies and metadata of interactions and messages, read after each; non-trivial: four calls", || (0u8..4, any::<bool>(), prop::collection::vec(set(), 1..10)), |(kind, by_contents, ops), cx| {
    cx.nontrivial(ops.len() > 3);
    cx.label(["http", "async", "sync", "message"][*kind as usize]);
    let (mut w1, mut w2, mut w3, mut w4) = (SynchronousHttp::default(), AsynchronousMessage::default(), SynchronousMessage::default(), Message::default());
    let (p1, p2, p3, p4) = (pactffi_sync_http_new(), pactffi_async_message_new(), pactffi_sync_message_new(), pactffi_message_new());
    http(&w1, p1)?; asynchronous(&w2, p2)?; synchronous(&w3, p3)?; old(&w4, p4)?;
    for op in ops {
      let empty: Vec<u8> = vec![];
      let (part, text, bin, ct) = match op {
        Set::Description(d) => {
          let d_ = c(d);
          ensure_eq!(match kind { 0 => pactffi_sync_http_set_description(p1, d_.p()), 1 => pactffi_async_message_set_description(p2, d_.p()), 2 => pactffi_sync_message_set_description(p3, d_.p()), _ => pactffi_message_set_description(p4, d_.p()) }, 0, "set description");
          // no text and text that is not UTF-8 are refused
          let bad = CString::new(vec![0xffu8, 0xfe]).unwrap();
          for b in [std::ptr::null(), bad.as_ptr()] {
            ensure_eq!(match kind { 0 => pactffi_sync_http_set_description(p1, b), 1 => pactffi_async_message_set_description(p2, b), 2 => pactffi_sync_message_set_description(p3, b), _ => pactffi_message_set_description(p4, b) }, 1, "set an invalid description");
          }
          match kind { 0 => w1.description = d.clone(), 1 => w2.description = d.clone(), 2 => w3.description = d.clone(), _ => w4.description = d.clone() }
          (9, None, &empty, None)
        }
        Set::Text(n, t, ct) => (*n, Some(cn(t)), &empty, Some(cn(ct))),
        Set::Bytes(n, b, ct) => (*n, None, b.as_ref().unwrap_or(&empty), Some(cn(ct))),
        Set::Metadata(k, v) => {
          if *kind == 3 {
            let was = w4.metadata.insert(k.clone(), json!(v)).is_some();
            ensure_eq!(pactffi_message_insert_metadata(p4, c(k).p(), c(v).p()), if was { -1 } else { 0 }, "insert metadata {:?} {:?}", k, v);
            ensure_eq!(pactffi_message_insert_metadata(p4, c(k).p(), std::ptr::null()), -2, "insert metadata without a value");
          }
          (9, None, &empty, None)
        }
      };
      if let Some(ct) = ct {
        let is_text = text.is_some();
        let t = text.as_ref().map(|t| t.p()).unwrap_or(std::ptr::null());
        let (b, n) = if matches!(op, Set::Bytes(_, None, _)) { (std::ptr::null(), bin.len()) } else { (bin.as_ptr(), bin.len()) };
        let body = new_body(op);
        match kind {
          0 if part % 2 == 0 => { if is_text { pactffi_sync_http_set_request_contents(p1, t, ct.p()) } else { pactffi_sync_http_set_request_contents_bin(p1, b, n, ct.p()) } w1.request.body = body; }
          0 => { if is_text { pactffi_sync_http_set_response_contents(p1, t, ct.p()) } else { pactffi_sync_http_set_response_contents_bin(p1, b, n, ct.p()) } w1.response.body = body; }
          1 => {
            if *by_contents { let p = pactffi_async_message_get_contents(p2) as *mut MessageContents; if is_text { pactffi_message_contents_set_contents_str(p, t, ct.p()) } else { pactffi_message_contents_set_contents_bin(p, b, n, ct.p()) } }
            else if is_text { pactffi_async_message_set_contents_str(p2, t, ct.p()) } else { pactffi_async_message_set_contents_bin(p2, b, n, ct.p()) }
            w2.contents.contents = body;
          }
          2 if part == 0 => { if is_text { pactffi_sync_message_set_request_contents_str(p3, t, ct.p()) } else { pactffi_sync_message_set_request_contents_bin(p3, b, n, ct.p()) } w3.request.contents = body; }
          2 => {
            let i = part as usize - 1;
            if is_text { pactffi_sync_message_set_response_contents_str(p3, i, t, ct.p()) } else { pactffi_sync_message_set_response_contents_bin(p3, i, b, n, ct.p()) }
            while w3.response.len() <= i { w3.response.push(MessageContents::default()); }
            w3.response[i].contents = body;
          }
          _ => { if is_text { pactffi_message_set_contents(p4, t, ct.p()) } else { pactffi_message_set_contents_bin(p4, b, n, ct.p()) } w4.contents = body; }
        }
      }
      match kind {
        0 => { http(&w1, p1)?; ensure!(unsafe { *p1 == w1 }, "the interaction is {:?} and not {:?}", unsafe { &*p1 }, w1) }
        1 => { asynchronous(&w2, p2)?; ensure!(unsafe { *p2 == w2 }, "the message is {:?} and not {:?}", unsafe { &*p2 }, w2) }
        2 => { synchronous(&w3, p3)?; ensure!(unsafe { *p3 == w3 }, "the message is {:?} and not {:?}", unsafe { &*p3 }, w3) }
        _ => { old(&w4, p4)?; ensure!(unsafe { *p4 == w4 }, "the message is {:?} and not {:?}", unsafe { &*p4 }, w4) }
      }
    }
    pactffi_sync_http_delete(p1); pactffi_async_message_delete(p2); pactffi_sync_message_delete(p3); pactffi_message_delete(p4);
    Ok(())
  });
  h.check("body", 6_000, "messages made from a body and its type; non-trivial: a type", || (plain(), prop_oneof![4 => prop::sample::select(vec!["application/json", "text/plain;charset=utf-8", "application/octet-stream", "image/png"]).prop_map(String::from), 1 => plain()]), |(b, ct), cx| {
    let p = pactffi_message_new_from_body(c(b).p(), c(ct).p());
    match ContentType::parse(ct.as_str()) {
      Ok(t) => {
        cx.nontrivial(true);
        ensure!(!p.is_null(), "no message from type {:?}", ct);
        let want = Message { contents: OptionalBody::Present(Bytes::from(b.clone()), Some(t.clone()), None), metadata: [("contentType".to_string(), json!(t.to_string()))].into(), .. Message::default() };
        old(&want, p)?;
        ensure!(unsafe { *p == want }, "the message is {:?}", unsafe { &*p });
        pactffi_message_delete(p);
      }
      Err(_) => ensure!(p.is_null(), "a message is made with type {:?}", ct)
    }
    Ok(())
  });
  h.check("refused", 6_000, "texts that are no pact, and nothing at all; non-trivial: not JSON", || (any::<bool>(), json_value(), plain()), |(is_json, v, t), cx| {
    let s = if *is_json { v.to_string() } else { t.clone() };
    let parsed = serde_json::from_str::<Value>(&s);
    cx.nontrivial(parsed.is_err());
    let good = parsed.as_ref().ok().map(|v| load_pact_from_json("x", v).is_ok()).unwrap_or(false);
    let p = pactffi_parse_pact_json(c(&s).p());
    ensure_eq!(!p.is_null(), good, "{:?} is read as a pact", s);
    if !p.is_null() { pactffi_pact_model_delete(p); }
    if parsed.is_err() {
      ensure!(pactffi_message_new_from_json(0, c(&s).p(), Spec::V3).is_null() && pactffi_message_pact_new_from_json(c("x").p(), c(&s).p()).is_null(), "{:?} is read as messages", s);
    }
    ensure!(pactffi_parse_pact_json(std::ptr::null()).is_null() && pactffi_message_new_from_json(0, std::ptr::null(), Spec::V3).is_null() && pactffi_message_pact_new_from_json(std::ptr::null(), std::ptr::null()).is_null(), "something is read from nothing");
    Ok(())
  });
}

fn generating(h: &mut H) {
  h.check("generators", 10_000, "generators asked for texts and numbers with values of a provider state; non-trivial: a generator that takes the value of a state", || (prop_oneof![1 => crate::rules::generator(), 1 => (ident(), prop::option::of(crate::rules::data_type())).prop_map(|(e, d)| Generator::ProviderStateGenerator(format!("${{{}}}", e), d))], json_map(3), any::<bool>(), any::<u16>()), |(g, ctx, hit, n), cx| {
    let mut ctx = ctx.clone();
    let mut value = None;
    if let Generator::ProviderStateGenerator(e, _) = g {
      let name = e.trim_start_matches("${").trim_end_matches('}').to_string();
      if *hit && e.starts_with("${") { cx.nontrivial(true); ctx.insert(name.clone(), json!(n)); }
      value = ctx.get(&name).cloned().filter(|_| e.starts_with("${"));
    }
    ensure_eq!(json_of(pactffi_generator_to_json(g)), Some(g.to_json().unwrap_or_default()).filter(|v| !v.to_string().contains('\0')), "generator as JSON");
    let text = json!(ctx).to_string();
    let s = take(pactffi_generator_generate_string(g, c(&text).p()));
    if matches!(g, Generator::ProviderStateGenerator(..)) && *hit && value == Some(json!(n)) {
      let Generator::ProviderStateGenerator(_, d) = g else { unreachable!() };
      use pact_models::expression_parser::DataType;
      if matches!(d, None | Some(DataType::RAW) | Some(DataType::STRING) | Some(DataType::INTEGER)) {
        ensure_eq!(s, Some(n.to_string()), "text of {:?} with {}", g, text);
        let i = pactffi_generator_generate_integer(g, c(&text).p());
        if !matches!(d, Some(DataType::STRING)) || i != 0 { ensure_eq!(i, *n, "number of {:?} with {}", g, text); }
      }
    }
    // a context that is no JSON is refused
    ensure!(pactffi_generator_generate_string(g, c("{").p()).is_null() && pactffi_generator_generate_integer(g, c("{").p()) == 0, "generated with a context that is no JSON");
    Ok(())
  });
}

pub fn p54(h: &mut H) {
  h.assume("an accessor gives NULL for a text with a NUL character inside, which C can not hold");
  reading(h);
  changing(h);
  generating(h);
}
