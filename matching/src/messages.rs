//! Matching of messages.
use proptest::prelude::*;
use pvfw::{ensure, ensure_eq, Case, H, R};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::RefUnwindSafe;
use pact_matching::{match_interaction, match_message, match_message_contents, match_message_metadata, match_sync_message, Mismatch};
use pact_models::PactSpecification;
use pact_models::bodies::OptionalBody;
use pact_models::content_types::ContentType;
use pact_models::interaction::Interaction;
use pact_models::matchingrules::{Category, MatchingRules};
use pact_models::message::Message;
use pact_models::pact::{load_pact_from_json, Pact};
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::interaction::V4Interaction;
use pact_models::v4::message_parts::MessageContents;
use pact_models::v4::pact::V4Pact;
use pact_models::sync_interaction::RequestResponseInteraction;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use crate::bodies::wait;
use crate::g::B;
use crate::http::*;
use crate::jm::*;
use crate::whole::{words, Body};

const TYPES: [&str; 4] = ["application/json", "application/hal+json", "application/json;charset=utf-8", "text/plain"];
#[derive(Clone, Debug)]
pub struct Mc { body: Body, meta: BTreeMap<String, Value>, ct: u8, name: u8, own: bool }
#[derive(Clone, Debug, Default)]
pub struct Mr { body: Rules, meta: Rules }
type Bad = (BTreeSet<String>, BodyBad, bool);
#[derive(Clone, Debug)]
enum BodyBad { Same, Types, Some, At(Out) }

impl Mc {
  fn ct(&self) -> Option<&'static str> { match self.body { Body::None => None, Body::Json(_) => Some(TYPES[self.ct as usize % 3]), Body::Text(_) => Some(TYPES[3]) } }
  /// The content type is either in the metadata or belongs to the contents.
  fn all_meta(&self, as_message: bool) -> BTreeMap<String, Value> {
    let mut m = self.meta.clone();
    if let Some(t) = self.ct() {
      if !self.own { m.insert(["contentType", "content-type", "Content-Type"][self.name as usize % 3].into(), json!(t)); }
      else if as_message { m.insert("contentType".into(), json!(t)); }
    }
    m
  }
  fn build(&self, r: &Mr) -> MessageContents {
    let own = || if self.own { Some(ContentType::parse(self.ct().unwrap()).unwrap()) } else { None };
    MessageContents {
      contents: match &self.body { Body::None => OptionalBody::Missing, Body::Json(v) => OptionalBody::Present(v.to_string().into(), own(), None), Body::Text(s) => OptionalBody::Present(s.clone().into(), own(), None) },
      metadata: self.all_meta(false).into_iter().collect(), matching_rules: r.build(), ..MessageContents::default()
    }
  }
  fn v4_json(&self, r: &Mr) -> Map<String, Value> {
    let mut o = Map::new();
    match &self.body { Body::None => (), Body::Json(v) => { o.insert("contents".into(), json!({"content": v, "contentType": self.ct(), "encoded": false})); } Body::Text(s) => { o.insert("contents".into(), json!({"content": s, "contentType": self.ct(), "encoded": false})); } }
    o.insert("metadata".into(), json!(self.all_meta(false)));
    o.insert("matchingRules".into(), r.json());
    o
  }
}
impl Mr {
  fn build(&self) -> MatchingRules {
    let mut m = MatchingRules::default();
    if !self.body.is_empty() { m.rules.insert(Category::BODY, category(&self.body, "body")); }
    if !self.meta.is_empty() { m.rules.insert(Category::METADATA, category(&self.meta, "metadata")); }
    m
  }
  fn json(&self) -> Value {
    let list = |l: &Rl| json!({"combine": if l.or { "OR" } else { "AND" }, "matchers": l.rules.iter().map(rule_json).collect::<Vec<_>>()});
    let name = |p: &[Tok]| match p { [Tok::F(k)] => k.clone(), _ => unreachable!() };
    json!({"body": self.body.iter().map(|(p, l)| (doc_path(p).to_string(), list(l))).collect::<BTreeMap<_, _>>(), "metadata": self.meta.iter().map(|(p, l)| (name(p), list(l))).collect::<BTreeMap<_, _>>()})
  }
}
fn is_ct(k: &str) -> bool { ["contenttype", "content-type"].contains(&k.to_lowercase().as_str()) }

fn model(r: &Mr, e: &Mc, a: &Mc, as_message: bool) -> Bad {
  let m = M { rules: &r.meta, strict: false };
  let mut out = Out::default();
  let (em, am) = (e.all_meta(as_message), a.all_meta(as_message));
  let bad = em.iter().filter(|(k, ev)| match am.get(*k) {
    None => true,
    Some(av) => !match m.best(&[Tok::F(k.to_string())], &mut out) {
      Some((l, _)) => { let mut it = l.rules.iter().map(|r| value_ok(r, ev, av, false)); if l.or { it.any(|x| x) } else { it.all(|x| x) } }
      None if is_ct(k) => header_value_ok("content-type", ev.as_str().unwrap_or(""), av.as_str().unwrap_or("")),
      None => *ev == av
    }
  }).map(|(k, _)| k.clone()).collect();
  let types = |x: &str, y: &str| x == y || (!x.contains(';') && y.split(';').next() == Some(x));
  let body = match (&e.body, &a.body) {
    (Body::None, _) => BodyBad::Same,
    (_, Body::None) => match a.ct() { Some(t) if types(e.ct().unwrap(), t) => BodyBad::Some, _ => BodyBad::Types },
    _ if !types(e.ct().unwrap(), a.ct().unwrap()) => BodyBad::Types,
    (Body::Json(x), Body::Json(y)) => { let o = M { rules: &r.body, strict: false }.cmp(&[], x, y); if o.ok() && !o.ambiguous { BodyBad::Same } else { BodyBad::At(o) } }
    (Body::Text(x), Body::Text(y)) => if x == y { BodyBad::Same } else { BodyBad::Some },
    _ => unreachable!()
  };
  let amb = out.ambiguous || matches!(&body, BodyBad::At(o) if o.ambiguous);
  (bad, body, amb)
}
fn judge((meta, body, _): &Bad, got: &[Mismatch]) -> R {
  let ms: BTreeSet<String> = got.iter().filter_map(|m| match m { Mismatch::MetadataMismatch { key, .. } => Some(key.clone()), _ => None }).collect();
  ensure_eq!(&ms, meta, "metadata keys: {:?}", got);
  let bs: Vec<Mismatch> = got.iter().filter(|m| !matches!(m, Mismatch::MetadataMismatch { .. })).cloned().collect();
  match body {
    BodyBad::Same => ensure!(bs.is_empty(), "the contents match, but {:?} is reported", bs),
    BodyBad::Types => ensure!(matches!(bs.as_slice(), [Mismatch::BodyTypeMismatch { .. }]), "the types differ, but {:?} is reported", bs),
    BodyBad::Some => ensure!(!bs.is_empty() && bs.iter().all(|m| matches!(m, Mismatch::BodyMismatch { .. })), "the contents differ, but {:?} is reported", bs),
    BodyBad::At(o) => agree(o, &found(&bs)?)?
  }
  for m in got { words(m)?; }
  Ok(())
}
fn sorted(v: &[Mismatch]) -> Vec<Mismatch> { let mut v = v.to_vec(); v.sort(); v }
fn all(m: HashMap<String, Vec<Mismatch>>) -> Vec<Mismatch> { m.into_values().flatten().collect() }

fn mc() -> B<Mc> {
  let doc = prop_oneof![3 => doc(), 1 => big_doc()].prop_map(|d| if d.is_object() || d.is_array() { d } else { json!({"a": d}) });
  let meta = prop::collection::btree_map(prop::sample::select(vec!["a", "b", "key", "Key", "topic"]).prop_map(|s| s.to_string()), prop_oneof![4 => scalar(), 1 => crate::jm::doc()], 0..4);
  (prop_oneof![6 => doc.prop_map(Body::Json), 1 => "x[ab]{0,3}".prop_map(Body::Text), 1 => Just(Body::None)], meta, prop_oneof![3 => Just(0u8), 1 => 0u8..3], 0u8..3, any::<bool>())
    .prop_map(|(body, meta, ct, name, own)| { let own = own && !matches!(body, Body::None); Mc { body, meta, ct, name: if own { 0 } else { name }, own } }).boxed()
}
#[derive(Clone, Debug)]
struct Ch { meta: Vec<(u8, u8, Value)>, body: Vec<(u16, Edit)>, other: Option<Body>, ct: Option<u8>, own: bool }
fn ch() -> B<Ch> {
  (prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec((any::<u8>(), 0u8..8, scalar()), 1..3)], prop_oneof![1 => Just(vec![]), 2 => edits(3)], prop::option::weighted(0.08, prop_oneof![Just(Body::None), "x[ab]{0,3}".prop_map(Body::Text), Just(Body::Json(json!({"a": 1})))]), prop::option::weighted(0.1, 0u8..3), any::<bool>())
    .prop_map(|(meta, body, other, ct, own)| Ch { meta, body, other, ct, own }).boxed()
}
impl Ch {
  fn apply(&self, e: &Mc, keep_own: bool) -> Mc {
    let mut a = e.clone();
    for (w, op, v) in &self.meta {
      let k = a.meta.keys().nth(*w as usize % a.meta.len().max(1)).cloned();
      match (op, k) {
        (0 | 1, Some(k)) => { a.meta.insert(k, v.clone()); }
        (2 | 3 | 4, Some(k)) => { let n = crate::jm::apply(&a.meta[&k], &[(*w as u16, Edit::Near(*w))]); a.meta.insert(k, n); }
        (5, Some(k)) => { a.meta.remove(&k); }
        (6, Some(k)) => { let v = a.meta.remove(&k).unwrap(); a.meta.insert(k.to_uppercase(), v); }
        _ => { a.meta.insert("extra".into(), v.clone()); }
      }
    }
    if let Body::Json(v) = &a.body { a.body = Body::Json(crate::jm::apply(v, &self.body)); }
    if let Some(o) = &self.other { a.body = o.clone(); }
    if let Some(t) = self.ct { a.ct = t; }
    if e.name == 0 && !keep_own { a.own = self.own; }
    if matches!(a.body, Body::None) { a.own = false; }
    a
  }
}
type Picks = (Vec<Pick>, Vec<(u8, Rl)>);
fn picks() -> B<Picks> { (prop::collection::vec(pick(prop_oneof![4 => size_rule(), 1 => Just(Ru::Values)].boxed()), 0..3), prop::collection::vec((any::<u8>(), rl()), 0..2)).boxed() }
fn ruled(p: &Picks, e: &Mc) -> Mr {
  let mut r = Mr::default();
  if let Body::Json(v) = &e.body { r.body = place(v, &p.0); }
  for (w, l) in &p.1 { if let Some(k) = e.meta.keys().nth(*w as usize % e.meta.len().max(1)) { let l = if matches!(e.meta[k], Value::Array(_) | Value::Object(_)) { Rl { rules: vec![Ru::Type], or: false } } else { l.clone() }; r.meta = vec![(vec![Tok::F(k.clone())], l)]; } }
  r
}

type I = Box<dyn Interaction + Send + Sync + RefUnwindSafe>;
type P = Box<dyn Pact + Send + Sync + RefUnwindSafe>;
fn pact() -> P { Box::new(V4Pact::default()) }
fn first(doc: Value) -> Result<(P, I), String> {
  let p = load_pact_from_json("x", &doc).map_err(|e| e.to_string())?;
  let i = p.interactions().first().ok_or("no interaction")?.boxed();
  Ok((p, i))
}
fn doc_of(v: u8, i: Value) -> Value {
  let spec = if v == 4 { "4.0" } else { "3.0.0" };
  json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, if v == 4 { "interactions" } else { "messages" }: [i], "metadata": {"pactSpecification": {"version": spec}}})
}
fn three(w: &Bad, got: &[Mismatch], c: &mut Case, ctx: &dyn Fn() -> String) -> R {
  c.label(if w.2 { "ambiguous rules (not judged)" } else if got.is_empty() { "match" } else { "mismatch" });
  if !w.2 { judge(w, got).map_err(|m| format!("{}{}", m, ctx()))?; }
  Ok(())
}

pub fn p40(h: &mut H) {
  let part = || (mc(), ch(), picks());
  h.check("contents and metadata", 15000, "there is a rule", part, |(e, ch, p), c| {
    let (r, a) = (ruled(p, e), ch.apply(e, false));
    c.nontrivial(!r.body.is_empty() || !r.meta.is_empty());
    let (ec, ac) = (e.build(&r), a.build(&Mr::default()));
    let mut got = wait(match_message_contents(&ec, &ac, &ctx(&r.body, "body", false))).err().unwrap_or_default();
    let meta = match_message_metadata(&ec, &ac, &ctx(&r.meta, "metadata", false));
    ensure_eq!(meta.keys().cloned().collect::<BTreeSet<_>>(), e.all_meta(false).into_keys().collect::<BTreeSet<_>>(), "keys in the result");
    got.extend(all(meta));
    three(&model(&r, e, &a, false), &got, c, &|| format!("\nexpected {:?}\nactual {:?}\nrules {:?}", e, a, r))
  });
  let messages = |version: u8, (e, ch, p): &(Mc, Ch, Picks), c: &mut Case| -> R {
    let mut e = e.clone();
    if version == 4 { e.own = !matches!(e.body, Body::None); e.name = 0; }
    if version == 3 { e.own = false; e.name = 0; }
    let (r, a) = (ruled(p, &e), ch.apply(&e, false));
    let w = model(&r, &e, &a, version != 13);
    c.nontrivial(!r.body.is_empty() || !r.meta.is_empty());
    let (ec, ac) = (e.build(&r), a.build(&Mr::default()));
    let v3 = |x: &MessageContents| -> I { Box::new(Message { contents: x.contents.clone(), metadata: x.metadata.clone(), matching_rules: x.matching_rules.clone(), ..Message::default() }) };
    let (pact, expected, actual): (P, I, I) = match version {
      13 => (pact(), v3(&ec), v3(&ac)),
      14 => (pact(), AsynchronousMessage { contents: ec, ..AsynchronousMessage::default() }.boxed(), AsynchronousMessage { contents: ac, ..AsynchronousMessage::default() }.boxed()),
      3 => {
        let mut i = json!({"description": "d", "metadata": e.all_meta(false), "matchingRules": r.json()});
        match &e.body { Body::None => (), Body::Json(v) => i["contents"] = v.clone(), Body::Text(s) => i["contents"] = json!(s) }
        let (p, i) = first(doc_of(3, i))?;
        (p, i, AsynchronousMessage { contents: ac, ..AsynchronousMessage::default() }.boxed())
      }
      _ => {
        let mut i = e.v4_json(&r);
        i.insert("type".into(), json!("Asynchronous/Messages")); i.insert("description".into(), json!("d")); i.insert("key".into(), json!("k"));
        let (p, i) = first(doc_of(4, Value::Object(i)))?;
        (p, i, AsynchronousMessage { contents: ac, ..AsynchronousMessage::default() }.boxed())
      }
    };
    let got = wait(match_message(&expected, &actual, &pact));
    three(&w, &got, c, &|| format!("\nexpected {:?}\nactual {:?}\nrules {:?}", e, a, r))?;
    if !w.2 { ensure_eq!(sorted(&wait(match_interaction(expected, actual, pact, &PactSpecification::V4)).map_err(|e| e.to_string())?), sorted(&got), "match_interaction"); }
    Ok(())
  };
  h.check("messages of version 3", 6000, "there is a rule", part, |x, c| messages(13, x, c));
  h.check("messages of version 4", 6000, "there is a rule", part, |x, c| messages(14, x, c));
  h.check("read from version 3", 6000, "there is a rule", part, |x, c| messages(3, x, c));
  h.check("read from version 4", 6000, "there is a rule", part, |x, c| messages(4, x, c));
  h.check("requests and responses", 8000, "there are responses and a rule", || (part(), prop::collection::vec(part(), 0..3), 0u8..10, any::<bool>()), |(rq, rs, other, json), c| {
    let fix = |(e, ch, p): &(Mc, Ch, Picks)| { let mut e = e.clone(); if *json { e.own = !matches!(e.body, Body::None); e.name = 0; } let a = ch.apply(&e, false); let r = ruled(p, &e); (e, a, r) };
    let (e, a, r) = fix(rq);
    let rs: Vec<(Mc, Mc, Mr)> = rs.iter().map(fix).collect();
    c.nontrivial(!rs.is_empty() && (!r.body.is_empty() || !r.meta.is_empty() || rs.iter().any(|(_, _, r)| !r.body.is_empty() || !r.meta.is_empty())));
    let none = Mr::default();
    let mut actual = SynchronousMessage { request: a.build(&none), response: rs.iter().map(|(_, a, _)| a.build(&none)).collect(), ..SynchronousMessage::default() };
    match other { 0 => { actual.response.pop(); } 1 => actual.response.push(a.build(&none)), 2 => actual.response.clear(), _ => () }
    let mut expected = SynchronousMessage { request: e.build(&r), response: rs.iter().map(|(e, _, r)| e.build(r)).collect(), ..SynchronousMessage::default() };
    let mut p = pact();
    if *json {
      let mut i = Map::new();
      i.insert("type".into(), json!("Synchronous/Messages")); i.insert("description".into(), json!("d")); i.insert("key".into(), json!("k"));
      i.insert("request".into(), Value::Object(e.v4_json(&r))); i.insert("response".into(), json!(rs.iter().map(|(e, _, r)| Value::Object(e.v4_json(r))).collect::<Vec<_>>()));
      let (q, i) = first(doc_of(4, Value::Object(i)))?;
      p = q; expected = i.as_v4_sync_message().ok_or("not a synchronous message")?;
    }
    let ctx = format!("\nexpected {:?}\nactual {:?} for\n{:?}\n{:?}\n{:?}\n{:?}", expected, actual, e, a, r, rs);
    let counts = expected.response.len() == actual.response.len();
    // the parts one by one
    let w = model(&r, &e, &a, false);
    let ws: Vec<Bad> = rs.iter().map(|(e, a, r)| model(r, e, a, false)).collect();
    let got = wait(match_sync_message(expected.clone(), actual.clone(), &p));
    let amb = w.2 || ws.iter().any(|w| w.2);
    c.label(format!("{} responses {}", expected.response.len(), if amb { "(ambiguous rules, not judged)" } else if got.is_empty() { "match" } else { "mismatch" }));
    if amb { return Ok(()); }
    let alone = |e: &MessageContents, a: &MessageContents| wait(match_sync_message(SynchronousMessage { request: e.clone(), ..SynchronousMessage::default() }, SynchronousMessage { request: a.clone(), ..SynchronousMessage::default() }, &p));
    let request = alone(&expected.request, &actual.request);
    judge(&w, &request).map_err(|m| format!("request: {}{}", m, ctx))?;
    let mut want = request;
    if counts { for ((w, e), a) in ws.iter().zip(&expected.response).zip(&actual.response) { let g = alone(e, a); judge(w, &g).map_err(|m| format!("response: {}{}", m, ctx))?; want.extend(g); } }
    if counts || expected.response.is_empty() { ensure_eq!(sorted(&got), sorted(&want), "the whole is not its parts{}", ctx); }
    else {
      ensure_eq!(got.len(), want.len() + 1, "different numbers of responses are not reported once: {:?}{}", got, ctx);
      ensure!(got.iter().any(|m| matches!(m, Mismatch::BodyTypeMismatch { expected, .. } if expected == "message response")), "{:?}", got);
    }
    let whole = wait(match_interaction(expected.boxed(), actual.boxed(), p.boxed(), &PactSpecification::V4)).map_err(|e| e.to_string())?;
    ensure_eq!(sorted(&whole), sorted(&got), "match_interaction{}", ctx);
    Ok(())
  });
  h.check("kinds", 400, "the kinds differ", || (0u8..5, 0u8..5, mc(), mc()), |(x, y, e, a), c| {
    c.nontrivial(x != y);
    let none = Mr::default();
    let make = |k: u8, m: &Mc| -> I { let b = m.build(&none); match k {
      0 => SynchronousHttp::default().boxed(), 1 => RequestResponseInteraction::default().boxed(), 2 => AsynchronousMessage { contents: b, ..AsynchronousMessage::default() }.boxed(),
      3 => SynchronousMessage { request: b, ..SynchronousMessage::default() }.boxed(), _ => Box::new(Message { contents: b.contents, metadata: b.metadata, ..Message::default() })
    } };
    let group = |k: u8| match k { 0 | 1 => 0, 2 | 4 => 1, _ => 2 };
    let same = group(*x) == group(*y);
    let got = wait(match_interaction(make(*x, e), make(*y, if same { e } else { a }), pact(), &PactSpecification::V4));
    if same && (*x != 4 || *y != 2) && (*x != 2 || *y != 4) { ensure!(matches!(&got, Ok(m) if m.is_empty()), "an interaction does not match itself: {:?}", got); }
    else if !same { ensure!(!matches!(&got, Ok(m) if m.is_empty()), "interactions of kinds {} and {} match", x, y); }
    Ok(())
  });
}
