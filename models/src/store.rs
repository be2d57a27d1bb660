//! P03 deterministic files, P04 V4 bodies as loaded, P08 pact files on disk, P09 keys and hashes.
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::path::Path;
use base64::Engine;
use base64::engine::general_purpose::STANDARD as BASE64;
use proptest::prelude::*;
use pact_models::PactSpecification;
use pact_models::bodies::OptionalBody;
use pact_models::content_types::ContentTypeHint;
use pact_models::message::Message;
use pact_models::message_pact::MessagePact;
use pact_models::pact::{load_pact_from_json, read_pact, write_pact, Pact, ReadWritePact};
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::http_parts::{body_from_json, HttpRequest};
use pact_models::v4::interaction::interaction_from_json;
use pact_models::v4::pact::V4Pact;
use pvfw::{ensure, ensure_eq, H};
use serde_json::{json, Value};

use crate::conv::*;
use crate::g::*;
use crate::legacy::*;
use crate::pacts::*;
use crate::rules::*;
use crate::same;

type V = PactSpecification;

// ---------------------------------------------------------------- P03

fn text_of(p: &dyn Pact, v: V) -> Result<String, String> { serde_json::to_string_pretty(&err(p.to_json(v), "to_json")?).map_err(|e| e.to_string()) }
fn on_disk(p: &dyn Pact, v: V) -> Result<String, String> {
  let dir = tempfile::tempdir().map_err(|e| e.to_string())?;
  let path = dir.path().join("a/b/pact.json");
  err(write_pact(p.boxed(), &path, v, true), "write_pact")?;
  std::fs::read_to_string(&path).map_err(|e| e.to_string())
}

pub fn p03(h: &mut H) {
  h.assume("Interactions listed in different orders have different descriptions.");
  h.check("v4", 3_000, "V4 pacts built twice, with the maps filled and the interactions added in different orders; non-trivial: two interactions", || (pspec(), any::<prop::sample::Index>()), |(s, rot), c| {
    let mut s = s.clone();
    for (i, x) in s.interactions.iter_mut().enumerate() { x.description = format!("{}{}", x.description, i); }
    c.nontrivial(s.interactions.len() > 1);
    let text = text_of(&s.build(), V::V4)?;
    ensure_eq!(on_disk(&s.build(), V::V4)?, text, "the file is not the pretty-printed form");
    let mut t = s.clone();
    t.interactions.reverse();
    if !t.interactions.is_empty() { let n = rot.index(t.interactions.len()); t.interactions.rotate_left(n); }
    for i in &mut t.interactions {
      let flip = |r: &mut ReqSpec| { if let Some(h) = &mut r.headers { h.reverse(); } if let Some(q) = &mut r.query { q.reverse(); } };
      if let PartSpec::Http(a, b) = &mut i.part { flip(a); if let Some(h) = &mut b.headers { h.reverse(); } }
    }
    ensure_eq!(text_of(&t.build(), V::V4)?, text, "the text depends on the order things were added in");
    let back = err(load_pact_from_json("x", &serde_json::from_str(&text).unwrap()), "load")?;
    ensure_eq!(text_of(back.as_ref(), V::V4)?, text, "the text changes when the pact is loaded and written");
    Ok(())
  });
  h.check("old", 2_000, "request/response and message pacts built twice and written in every version; non-trivial: two interactions", || (pact3(rr3(false)), pact3(msg3())), |(s, m), c| {
    c.nontrivial(s.items.len() > 1 || m.items.len() > 1);
    for v in [V::V1, V::V2, V::V3, V::V4] {
      let text = text_of(&s.build(V::V3), v)?;
      for _ in 0..2 { ensure_eq!(text_of(&s.build(V::V3), v)?, text, "the {:?} text of equal pacts", v); }
      if v == V::V3 { ensure_eq!(on_disk(&s.build(V::V3), v)?, text, "the file is not the pretty-printed form"); }
    }
    let text = text_of(&m.build(), V::V3)?;
    for _ in 0..2 { ensure_eq!(text_of(&m.build(), V::V3)?, text, "the text of equal message pacts"); }
    ensure_eq!(on_disk(&m.build(), V::V3)?, text, "the file is not the pretty-printed form");
    let dir = tempfile::tempdir().map_err(|e| e.to_string())?;
    let path = dir.path().join("x/m.json");
    err(m.build().overwrite_pact(&path, V::V3), "overwrite_pact")?;
    ensure_eq!(std::fs::read_to_string(&path).unwrap_or_default(), text, "overwrite_pact");
    Ok(())
  });
  h.check("order", 3_000, "old pacts whose interactions are listed in another order; non-trivial: two interactions", || (pact3(rr3(false)), pact3(msg3())), |(s, m), c| {
    c.nontrivial(s.items.len() > 1 || m.items.len() > 1);
    let names = |j: &Value, k: &str| j[k].as_array().unwrap().iter().map(|i| i["description"].as_str().unwrap().to_string()).collect::<Vec<_>>();
    ensure_eq!(names(&err(s.build(V::V3).to_json(V::V3), "to_json")?, "interactions"), s.items.iter().map(|i| i.description.clone()).collect::<Vec<_>>(), "written in another order than listed");
    ensure_eq!(names(&err(m.build().to_json(V::V3), "to_json")?, "messages"), m.items.iter().map(|i| i.description.clone()).collect::<Vec<_>>(), "written in another order than listed");
    Ok(())
  });
}

// ---------------------------------------------------------------- P04

#[derive(Debug, Clone)]
struct Frag { content: Option<Value>, bytes: Option<Vec<u8>>, ty: Option<String>, hint: Option<Value>, encoded: Option<Value>, header: Option<String>, hname: &'static str }

pub fn p04(h: &mut H) {
  h.assume("The type of an untyped body is one of those the library is known to detect.");
  let types = || prop_oneof![6 => ct().prop_map(|t| t.0.to_string()), 1 => Just("not a type".to_string()), 1 => Just("".to_string())];
  let frag = move || (
    prop_oneof![
      3 => text().prop_map(|s| (Some(json!(s)), None)), 2 => json_value().prop_map(|v| (Some(v), None)), 3 => prop::collection::vec(any::<u8>(), 0..20).prop_map(|b| (Some(json!(BASE64.encode(&b))), Some(b))),
      1 => "[g-m][a-z ]{0,10}".prop_map(|s| (Some(json!(s)), None)), 1 => Just((None, None)),
    ],
    prop::option::of(types()), prop::option::weighted(0.3, prop_oneof![prop::sample::select(vec!["TEXT", "BINARY", "DEFAULT", "text", "x"]).prop_map(|s| json!(s)), json_scalar()]),
    prop::option::of(prop_oneof![3 => any::<bool>().prop_map(|b| json!(b)), 4 => prop::sample::select(vec!["base64", "BASE64", "Base64"]).prop_map(|s| json!(s)), 1 => prop::sample::select(vec!["json", "JSON", "gzip", ""]).prop_map(|s| json!(s)), 1 => Just(json!(1)), 1 => Just(json!(null))]),
    prop::option::of(types()), prop::sample::select(vec!["Content-Type", "content-type", "CONTENT-TYPE"]))
    .prop_map(|((content, bytes), ty, hint, encoded, header, hname)| Frag { content, bytes, ty, hint, encoded, header, hname });
  h.check("fragment", 40_000, "V4 body fragments with every combination of content, content type, hint, encoding and header; non-trivial: base64 content that is decoded", frag, |f, c| {
    let mut m = serde_json::Map::new();
    if let Some(v) = &f.content { m.insert("content".into(), v.clone()); }
    if let Some(v) = &f.ty { m.insert("contentType".into(), json!(v)); }
    if let Some(v) = &f.hint { m.insert("contentTypeHint".into(), v.clone()); }
    if let Some(v) = &f.encoded { m.insert("encoded".into(), v.clone()); }
    let headers: Option<HashMap<String, Vec<String>>> = f.header.as_ref().map(|t| [(f.hname.to_string(), vec![t.clone()]), ("X".to_string(), vec!["image/png".to_string()])].into());
    let got = body_from_json(&json!({"body": m}), "body", &headers);
    let valid = |t: &String| t.contains('/');
    // a declared type that does not parse leaves the type to be detected
    let ty: Option<String> = match &f.ty { Some(t) => Some(t.clone()).filter(valid), None => f.header.clone().filter(valid) };
    let is_json = ty.as_deref().map(|t| t.starts_with("application/") && t.contains("json")).unwrap_or(false);
    let Some(v) = &f.content else { ensure_eq!(got, OptionalBody::Missing, "no content"); return Ok(()) };
    if v.is_null() { ensure_eq!(got, OptionalBody::Null, "null content"); return Ok(()) }
    let plain = match v { Value::String(s) => s.clone(), v => v.to_string() };
    let bytes: Vec<u8> = match &f.encoded {
      Some(Value::String(s)) if s.to_lowercase() == "base64" => match BASE64.decode(&plain) { Ok(b) => { c.nontrivial(f.bytes.is_some()); if let Some(x) = &f.bytes { ensure_eq!(&b, x, "oracle"); } b } Err(_) => plain.clone().into_bytes() },
      Some(Value::Bool(false)) | None => if is_json && v != &json!("") { v.to_string().into_bytes() } else { plain.clone().into_bytes() },
      Some(_) => plain.clone().into_bytes(),
    };
    if bytes.is_empty() { ensure_eq!(got, OptionalBody::Empty, "no bytes"); return Ok(()) }
    ensure_eq!(got.value().map(|b| b.to_vec()), Some(bytes.clone()), "bytes of {}", Value::Object(m.clone()));
    if let Some(t) = &ty { ensure_eq!(got.content_type().map(|t| t.to_string()), Some(t.clone()), "content type"); } else { ensure!(got.content_type().is_some(), "no content type"); }
    let OptionalBody::Present(_, _, hint) = got else { return Err("not present".into()) };
    ensure_eq!(hint, f.hint.as_ref().map(|h| match h.as_str() { Some("TEXT") => ContentTypeHint::TEXT, Some("BINARY") => ContentTypeHint::BINARY, _ => ContentTypeHint::DEFAULT }), "hint");
    // the same fragment in a request, a response and a message
    let j = json!({"headers": f.header.as_ref().map(|t| json!({f.hname: [t]})).unwrap_or(json!({})), "body": m});
    let full = body_from_json(&json!({"body": m}), "body", &headers);
    ensure_eq!(body_dump(&err(HttpRequest::from_json(&j), "request")?.body), body_dump(&full), "body of a request");
    let i = err(interaction_from_json("x", 0, &json!({"type": "Synchronous/HTTP", "request": {}, "response": j})), "interaction")?.as_v4_http().unwrap();
    ensure_eq!(body_dump(&i.response.body), body_dump(&full), "body of a response");
    let md = f.header.as_ref().map(|t| json!({"contentType": t})).unwrap_or(json!({}));
    let msg = err(interaction_from_json("x", 0, &json!({"type": "Asynchronous/Messages", "contents": m, "metadata": md})), "interaction")?.as_v4_async_message().unwrap();
    ensure_eq!(body_dump(&msg.contents.contents), body_dump(&full), "contents of a message");
    let sm = err(interaction_from_json("x", 0, &json!({"type": "Synchronous/Messages", "request": {"contents": m, "metadata": md}, "response": [{"contents": {"content": "a"}}, {"contents": m, "metadata": md}]})), "interaction")?.as_v4_sync_message().unwrap();
    ensure_eq!(body_dump(&sm.request.contents), body_dump(&full), "request contents"); ensure_eq!(body_dump(&sm.response[1].contents), body_dump(&full), "response contents");
    Ok(())
  });
  h.check("shapes", 6_000, "body attributes that are no fragment; non-trivial: every case", || (json_value(), any::<bool>()), |(v, gone), c| {
    if v.is_object() { return Ok(()) }
    c.nontrivial(true);
    let j = if *gone { json!({}) } else { json!({"body": v}) };
    let got = body_from_json(&j, "body", &None);
    if *gone { ensure_eq!(got, OptionalBody::Missing, "no attribute"); } else if v.is_null() { ensure_eq!(got, OptionalBody::Null, "null"); }
    else { ensure_eq!(got.value().map(|b| b.to_vec()), Some(v.to_string().into_bytes()), "a body of {}", v); }
    Ok(())
  });
  h.check("bytes", 30_000, "bodies of random bytes, type and hint written and loaded; non-trivial: not UTF-8", || (prop_oneof![prop::collection::vec(any::<u8>(), 1..40), text().prop_map(|s| s.into_bytes()), prop::collection::vec(0x20u8..0x7f, 4..16)], ct(), prop::option::of(prop_oneof![Just(ContentTypeHint::TEXT), Just(ContentTypeHint::BINARY), Just(ContentTypeHint::DEFAULT)])), |(b, t, hint), c| {
    if b.is_empty() { return Ok(()) }
    c.nontrivial(std::str::from_utf8(b).is_err());
    let body = OptionalBody::Present(b.clone().into(), Some(t.0.into()), *hint);
    let j = body.to_v4_json();
    let back = body_from_json(&json!({"body": j}), "body", &None);
    ensure_eq!(j["contentType"], json!(t.0), "written type");
    let binary = j["encoded"] == json!("base64");
    ensure!(j["encoded"] == json!(false) || (binary && j["content"] == json!(BASE64.encode(b))), "encoded as {}", j);
    let parsed = serde_json::from_slice::<Value>(b);
    match t.1 {
      Kind::Json => ensure_eq!(binary, parsed.is_err(), "encoding of JSON {}", j),
      Kind::Text => ensure_eq!(binary, *hint == Some(ContentTypeHint::BINARY) || std::str::from_utf8(b).is_err(), "encoding of text {}", j),
      Kind::Binary => ensure!(binary, "binary content is written as {}", j),
    }
    match (t.1, parsed) {
      (Kind::Json, Ok(v)) => {
        ensure_eq!(j["content"].clone(), v.clone(), "written JSON");
        if !v.is_null() && v != json!("") { ensure_eq!(serde_json::from_slice::<Value>(&back.value().unwrap_or_default()).ok(), Some(v), "JSON loaded again"); }
      }
      _ => ensure_eq!(back.value().map(|b| b.to_vec()), Some(b.clone()), "bytes loaded again from {}", j),
    }
    Ok(())
  });
}

// ---------------------------------------------------------------- P08

#[derive(Debug, Clone)]
struct Write { kind: u8, items: Vec<Small>, version: V, overwrite: bool, other: bool }

fn write_op() -> B<Write> {
  (0u8..3, prop::collection::vec(small(3, true, 6), 0..4), any::<bool>(), prop::bool::weighted(0.2), prop::bool::weighted(0.07)).prop_map(|(kind, items, up, overwrite, other)| {
    let version = if kind == 2 { if up { V::V4 } else { V::V3 } } else if up { V::V4 } else { V::V3 };
    let items = items.into_iter().map(|mut i| { if kind < 2 { i.kind = kind; i.key = None; } if i.kind != 0 { i.variant = 0; } i }).collect();
    Write { kind, items: unique(items, |x, y| x.same4(y) || x.id3() == y.id3() && kind < 2), version, overwrite, other }
  }).boxed()
}
impl Write {
  fn pact(&self, tag: &str) -> Box<dyn Pact + Send + Sync + std::panic::RefUnwindSafe> {
    match self.kind {
      0 => { let mut p = rr_pact(&self.items, tag); if self.other { p.consumer.name = "other".into(); } p.boxed() }
      1 => { let mut p = msg_pact(&self.items, tag); if self.other { p.consumer.name = "other".into(); } p.boxed() }
      _ => { let mut p = v4_pact(&self.items, tag); if self.other { p.consumer.name = "other".into(); } p.boxed() }
    }
  }
}
/// What a file holds: whose, in what form, and its interactions with the tag of the write each came from.
#[derive(Debug, Clone, PartialEq)]
struct State { other: bool, v4: bool, msgs: bool, items: Vec<(Small, String)> }

/// The state after a write, None when it has to fail.
fn step(old: &Option<State>, w: &Write, tag: &str) -> Option<State> {
  let mine: Vec<(Small, String)> = w.items.iter().map(|i| (i.clone(), tag.to_string())).collect();
  let merged = match old {
    Some(o) if !w.overwrite => {
      if o.other != w.other { return None }
      match w.kind {
        2 => { let mut m = mine.clone(); m.extend(o.items.iter().filter(|(y, _)| !mine.iter().any(|(x, _)| x.same4(y))).cloned()); m }
        k => {
          if o.items.iter().any(|(i, _)| i.kind != k) { return None }
          if k == 0 && mine.iter().any(|(x, _)| o.items.iter().any(|(y, _)| x.id3() == y.id3() && x.conflicts(y))) { return None }
          let mut m: Vec<_> = mine.iter().filter(|(x, _)| !o.items.iter().any(|(y, _)| x.id3() == y.id3())).cloned().collect();
          m.extend(o.items.iter().cloned()); m
        }
      }
    }
    _ => mine,
  };
  let kinds: std::collections::BTreeSet<u8> = merged.iter().map(|(i, _)| i.kind).collect();
  if w.version != V::V4 && (kinds.len() > 1 || kinds.contains(&2)) { return None }
  let msgs = if w.kind == 1 { true } else if w.kind == 0 { false } else { kinds.contains(&1) };
  let items = merged.into_iter().map(|(mut i, t)| { if w.version != V::V4 || w.kind < 2 { i.key = None; } (i, t) }).collect();
  Some(State { other: w.other, v4: w.version == V::V4, msgs: msgs && w.version != V::V4, items })
}
fn dump_file(text: &str) -> Result<Vec<(String, Vec<String>, String, String, Option<String>)>, String> {
  let p = err(load_pact_from_json("x", &serde_json::from_str(text).map_err(|e| format!("{}: {:?}", e, text))?), "load")?;
  let mut b: Vec<_> = brief(p.as_ref()).into_iter().zip(p.interactions()).map(|(b, i)| (b.0, b.1, b.2, b.3, i.as_v4().filter(|_| p.is_v4()).and_then(|i| i.key()))).collect();
  b.sort();
  Ok(b)
}

/// Subcommand used by the checks: writes pacts of one interaction each to a file that others write to as well.
pub fn writer(args: &[String]) -> ! {
  let (path, tag, n, v4) = (&args[0], &args[1], args[2].parse::<usize>().unwrap(), args[3] == "4");
  for i in 0..n {
    let s = Small { description: format!("{}-{}", tag, i), states: vec![], kind: 0, key: None, variant: 0 };
    let p: Box<dyn Pact> = if v4 { Box::new(v4_pact(&[s], tag)) } else { Box::new(rr_pact(&[s], tag)) };
    if let Err(e) = write_pact(p, Path::new(path), if v4 { V::V4 } else { V::V3 }, false) {
      // a writer may give up waiting for the lock, but then nothing of it may be in the file
      if !e.to_string().contains("lock") { eprintln!("{:?}", e); std::process::exit(3) }
    } else { println!("{}-{}", tag, i); }
  }
  std::process::exit(0)
}

pub fn p08(h: &mut H) {
  h.assume("Locks are advisory (flock); a crash in the middle of a write is outside the property.");
  h.check("history", 1_500, "histories of writes of pacts of every kind and version to one file, each checked against a model of the merge; non-trivial: a merge with an existing file", || prop::collection::vec(write_op(), 1..7), |ops, c| {
    let dir = tempfile::tempdir().map_err(|e| e.to_string())?;
    let path = dir.path().join("sub").join("pact.json");
    let mut state: Option<State> = None;
    for (n, w) in ops.iter().enumerate() {
      let tag = format!("w{}", n);
      let before = std::fs::read(&path).ok();
      let want = step(&state, w, &tag);
      c.nontrivial(state.is_some() && !w.overwrite && want.is_some());
      c.label_if(want.is_none(), "refused");
      let got = write_pact(w.pact(&tag), &path, w.version, w.overwrite);
      ensure_eq!(got.is_ok(), want.is_some(), "write {} of {:?} onto {:?}: {:?}", n, w, state, got.as_ref().err().map(|e| e.to_string()));
      let Some(want) = want else { ensure_eq!(std::fs::read(&path).ok(), before, "a write that failed changed the file"); continue };
      let text = std::fs::read_to_string(&path).map_err(|e| e.to_string())?;
      let mut expected: Vec<_> = want.items.iter().map(|(i, t)| (i.description.clone(), i.states.clone(), match i.kind { 0 => "Synchronous/HTTP", 1 => "Asynchronous/Messages", _ => "Synchronous/Messages" }.to_string(), t.clone(), i.key.clone())).collect();
      expected.sort();
      ensure_eq!(dump_file(&text)?, expected, "file after write {}", n);
      // readers
      let p = err(read_pact(&path), "read_pact")?;
      ensure_eq!(p.is_v4(), want.v4, "form of the file");
      ensure_eq!((p.consumer().name, p.provider().name), (if want.other { "other".to_string() } else { "c".to_string() }, "p".to_string()), "names");
      if want.v4 { ensure_eq!(err(V4Pact::read_pact(&path), "V4Pact::read_pact")?.interactions.len(), want.items.len(), "V4Pact::read_pact"); }
      if !want.v4 && !want.msgs { ensure_eq!(err(RequestResponsePact::read_pact(&path), "RequestResponsePact::read_pact")?.interactions.len(), want.items.len(), "RequestResponsePact::read_pact"); }
      if !want.v4 && want.msgs { ensure_eq!(err(MessagePact::read_pact(&path), "MessagePact::read_pact")?.messages.len(), want.items.len(), "MessagePact::read_pact"); }
      // writing the same again changes nothing
      err(write_pact(w.pact(&tag), &path, w.version, false), "writing the same pact again")?;
      let again = std::fs::read_to_string(&path).map_err(|e| e.to_string())?;
      ensure_eq!(dump_file(&again)?, expected, "file after writing the same pact again");
      state = Some(want);
    }
    Ok(())
  });
  h.check("bad_file", 1_000, "writes onto files that hold no pact; non-trivial: every case", || (prop_oneof![text(), json_value().prop_map(|v| v.to_string())], 0u8..3), |(junk, kind), c| {
    let parsed: Option<Value> = serde_json::from_str(junk).ok();
    if junk.is_empty() || parsed.map(|v| v.is_object()).unwrap_or(false) { return Ok(()) }
    c.nontrivial(true);
    let dir = tempfile::tempdir().map_err(|e| e.to_string())?;
    let path = dir.path().join("pact.json");
    std::fs::write(&path, junk).map_err(|e| e.to_string())?;
    let w = Write { kind: *kind, items: vec![], version: V::V4, overwrite: false, other: false };
    ensure!(write_pact(w.pact("a"), &path, V::V4, false).is_err(), "merged with {:?}", junk);
    ensure_eq!(std::fs::read_to_string(&path).unwrap_or_default(), junk.clone(), "file after the failed write");
    ensure!(read_pact(&path).is_err(), "{:?} is read as a pact", junk);
    err(write_pact(w.pact("a"), &path, V::V4, true), "overwriting")?;
    err(read_pact(&path), "reading after overwriting")?;
    ensure!(read_pact(&dir.path().join("none.json")).is_err(), "a missing file is read");
    Ok(())
  });
  h.check("threads", 60, "threads adding interactions to one file while others read it; non-trivial: every case", || (2usize..6, 1usize..5, any::<bool>()), |(threads, each, v4), c| {
    c.nontrivial(true);
    let dir = tempfile::tempdir().map_err(|e| e.to_string())?;
    let path = dir.path().join("pact.json");
    let v = if *v4 { V::V4 } else { V::V3 };
    let make = |s: Small, t: &str| -> Box<dyn Pact> { if *v4 { Box::new(v4_pact(&[s], t)) } else { Box::new(rr_pact(&[s], t)) } };
    let first = Small { description: "first".into(), states: vec![], kind: 0, key: None, variant: 0 };
    err(write_pact(make(first, "f"), &path, v, false), "first write")?;
    let results: Vec<Result<(), String>> = std::thread::scope(|s| {
      let mut hs = vec![];
      for t in 0..*threads {
        let (path, make) = (&path, &make);
        hs.push(s.spawn(move || { for i in 0..*each { let s = Small { description: format!("{}-{}", t, i), states: vec![], kind: 0, key: None, variant: 0 }; err(write_pact(make(s, "t"), path, v, false), "write")?; } Ok(()) }));
      }
      for _ in 0..2 { let path = &path; hs.push(s.spawn(move || { let mut last = 0; for _ in 0..6 { let p = match read_pact(path) { Err(e) if e.to_string().contains("lock") => continue, p => err(p, "reading while others write")? }; let n = p.interactions().len(); ensure!(n >= last, "interactions are gone: {} after {}", n, last); last = n; } Ok(()) })); }
      hs.into_iter().map(|h| h.join().unwrap_or(Err("a thread panicked".into()))).collect()
    });
    for r in results { r?; }
    let p = err(read_pact(&path), "read")?;
    let mut got: Vec<String> = p.interactions().iter().map(|i| i.description()).collect();
    got.sort();
    let mut want: Vec<String> = (0..*threads).flat_map(|t| (0..*each).map(move |i| format!("{}-{}", t, i))).chain(["first".to_string()]).collect();
    want.sort();
    ensure_eq!(got, want, "interactions in the file");
    Ok(())
  });
  h.check("processes", 24, "processes adding interactions to one file, new or existing; non-trivial: every case", || (2usize..5, 1usize..8, any::<bool>(), any::<bool>()), |(procs, each, v4, fresh), c| {
    c.nontrivial(true);
    let dir = tempfile::tempdir().map_err(|e| e.to_string())?;
    let path = dir.path().join("pact.json");
    let v = if *v4 { "4" } else { "3" };
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let run = |tag: String, n: usize| std::process::Command::new(&exe).args(["--write", path.to_str().unwrap(), &tag, &n.to_string(), v]).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).spawn();
    let mut want = vec![];
    let mut children: Vec<_> = if *fresh { vec![] } else { vec![Ok(run("first".into(), 1).map_err(|e| e.to_string())?)] };
    if let Some(Ok(first)) = children.first_mut() { first.wait().map_err(|e| e.to_string())?; }
    children.extend((0..*procs).map(|t| run(t.to_string(), *each)));
    for ch in children {
      let out = ch.and_then(|c| c.wait_with_output()).map_err(|e| e.to_string())?;
      ensure!(out.status.success(), "a writer failed: {}", String::from_utf8_lossy(&out.stderr));
      want.extend(String::from_utf8_lossy(&out.stdout).lines().map(|l| l.to_string()));
    }
    want.sort();
    let p = err(read_pact(&path), "read")?;
    let mut got: Vec<String> = p.interactions().iter().map(|i| i.description()).collect();
    got.sort();
    ensure_eq!(got, want, "interactions in the file");
    Ok(())
  });
}

// ---------------------------------------------------------------- P09

fn hash_of<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }
fn raw(b: &BodySpec) -> Value { match b.build() { OptionalBody::Present(b, _, _) => json!(hex(&b)), b => json!(format!("{:?}", b)) } }
fn req_eq(r: &ReqSpec) -> Value { json!([r.method.to_uppercase(), r.path, query_json(&r.query), headers_json(&r.headers), raw(&r.body), r.rules.dump(), r.gens.dump()]) }
fn res_eq(r: &ResSpec) -> Value { json!([r.status, headers_json(&r.headers), raw(&r.body), r.rules.dump(), r.gens.dump()]) }
fn msg_eq(m: &MsgSpec) -> Value { json!([m.metadata, raw(&m.body), m.rules.dump(), m.gens.dump()]) }
/// What equality of interactions is about.
fn content(i: &ISpec) -> Value {
  let part = match &i.part { PartSpec::Http(a, b) => json!(["http", req_eq(a), res_eq(b)]), PartSpec::Async(m) => json!(["async", msg_eq(m)]), PartSpec::Sync(a, b) => json!(["sync", msg_eq(a), b.iter().map(msg_eq).collect::<Vec<_>>()]) };
  json!([i.description, i.states.iter().map(|s| json!([s.name, s.params])).collect::<Vec<_>>(), i.pending, part])
}
fn bare(v: Value) -> Value { match v { Value::Array(a) if a.is_empty() => Value::Null, Value::Array(a) => a.into_iter().map(bare).collect(), Value::Object(m) if m.is_empty() => Value::Null, Value::Object(m) => m.into_iter().map(|(k, v)| (k.to_lowercase(), v)).collect(), v => v } }
/// Interaction a with one part taken from b.
fn graft(a: &ISpec, b: &ISpec, what: u8) -> ISpec {
  let mut a = a.clone();
  match what { 0 => a.description = b.description.clone(), 1 => a.states = b.states.clone(), 2 => a.pending = b.pending,
    3 => { if let (Some(x), Some(y)) = (a.states.first_mut(), b.states.first()) { x.params = y.params.clone(); } }
    _ => {
      fn m(x: &mut MsgSpec, y: &MsgSpec, what: u8) { match what % 4 { 0 => x.metadata = y.metadata.clone(), 1 => x.body = y.body.clone(), 2 => x.rules = y.rules.clone(), _ => x.gens = y.gens.clone() } }
      match (&mut a.part, &b.part) {
        (PartSpec::Http(x, p), PartSpec::Http(y, q)) => match what { 4 => x.method = y.method.clone(), 5 => x.path = y.path.clone(), 6 => x.query = y.query.clone(), 7 => x.headers = y.headers.clone(), 8 => x.body = y.body.clone(), 9 => x.rules = y.rules.clone(), 10 => x.gens = y.gens.clone(),
          11 => p.status = q.status, 12 => p.headers = q.headers.clone(), 13 => p.body = q.body.clone(), 14 => p.rules = q.rules.clone(), _ => p.gens = q.gens.clone() },
        (PartSpec::Async(x), PartSpec::Async(y)) => m(x, y, what),
        (PartSpec::Sync(x, p), PartSpec::Sync(y, q)) => match what { 4..=9 => m(x, y, what), 10 => *p = q.clone(), 11 => p.extend(q.iter().cloned()), 12..=15 => if let (Some(x), Some(y)) = (p.last_mut(), q.first()) { m(x, y, what) }, _ => if let (Some(x), Some(y)) = (p.first_mut(), q.first()) { m(x, y, what) } },
        (x, y) => *x = y.clone(),
      }
    }
  }
  a
}
fn eq4(a: &V4Box, b: &V4Box) -> Option<(bool, bool)> {
  // equality and equality of hashes
  if let (Some(x), Some(y)) = (a.as_v4_http(), b.as_v4_http()) { return Some((x == y, hash_of(&x) == hash_of(&y))) }
  if let (Some(x), Some(y)) = (a.as_v4_async_message(), b.as_v4_async_message()) { return Some((x == y, hash_of(&x) == hash_of(&y))) }
  if let (Some(x), Some(y)) = (a.as_v4_sync_message(), b.as_v4_sync_message()) { return Some((x == y, hash_of(&x) == hash_of(&y))) }
  None
}

pub fn p09(h: &mut H) {
  h.assume("Equality leaves out ids, comments, plugin configuration, markup, transport and the declared type of bodies, as the library documents by its code; numbers in JSON are integers or halves of them.");
  for (name, part) in [("http", 0u8), ("async", 1), ("sync", 2)] {
    let gen_part = move || match part { 0 => http_part(), 1 => async_part(), _ => sync_part() };
    h.check(name, 6_000, "pairs of interactions that differ in one part or in none, built with maps in different orders; non-trivial: they differ", move || (ispec_of(gen_part()), ispec_of(gen_part()), 0u8..20), |(a, b, what), c| {
      let mut a = a.clone(); a.key = None;
      let g = graft(&a, b, *what);
      let same = content(&a) == content(&g);
      c.nontrivial(!same);
      let (x, y) = (a.build(), g.build());
      for _ in 0..3 {
        let z = a.build();
        ensure_eq!(eq4(&x, &z), Some((true, true)), "an interaction built twice: equality and equality of hashes");
        ensure_eq!(z.unique_key(), x.unique_key(), "keys of an interaction built twice");
      }
      let (eq, hashes) = eq4(&x, &y).unwrap();
      ensure_eq!(eq, same, "equality of interactions whose part {} is {}", what, if same { "the same" } else { "different" });
      // an empty map and the case of header names are not hashed, so that they may or may not count
      let same_but_for_empty = !same && bare(content(&a)) == bare(content(&g));
      if same_but_for_empty { return Ok(()) }
      ensure_eq!(hashes, same, "equality of hashes of interactions whose part {} is {}", what, if same { "the same" } else { "different" });
      ensure_eq!(x.unique_key() == y.unique_key(), same, "equality of keys of interactions whose part {} is {}", what, if same { "the same" } else { "different" });
      // keys
      let keyed = x.with_unique_key();
      ensure_eq!(keyed.key(), Some(x.unique_key()), "with_unique_key");
      ensure_eq!(keyed.unique_key(), x.unique_key(), "unique key of a keyed interaction");
      let mut k = a.clone(); k.key = Some("given".into());
      ensure_eq!(k.build().unique_key(), "given", "unique key that was given");
      ensure_eq!(eq4(&k.build(), &x).map(|e| e.0), Some(false), "equality of a keyed and an unkeyed interaction");
      // not part of it
      let mut o = a.clone(); o.comments = b.comments.clone(); o.plugins = b.plugins.clone(); o.markup = b.markup.clone(); o.id = b.id.clone();
      ensure_eq!(o.build().unique_key(), x.unique_key(), "the key depends on comments, plugin configuration, markup or id");
      // a key survives the file
      let back = err(interaction_from_json("x", 0, &keyed.to_json()), "load")?;
      ensure_eq!(back.key(), keyed.key(), "key that was written");
      Ok(())
    });
  }
  h.check("rules", 20_000, "pairs of matching rules and generators; non-trivial: of the same kind with different contents", || (rule(), rule(), generator(), generator(), rules_spec(HTTP_CATS, rule()), gens_spec(HTTP_GCATS)), |(r, s, g, k, rs, gs), c| {
    c.nontrivial(std::mem::discriminant(r) == std::mem::discriminant(s) && rule_json(r) != rule_json(s));
    for (x, y) in [(r, s), (r, &r.clone())] {
      let same = rule_json(x) == rule_json(y) && std::mem::discriminant(x) == std::mem::discriminant(y);
      ensure_eq!(x == y, same, "equality of rules {:?} and {:?}", x, y);
      ensure_eq!(hash_of(x) == hash_of(y), same, "equality of hashes of rules {:?} and {:?}", x, y);
    }
    for (x, y) in [(g, k), (g, &g.clone())] {
      let same = gen_json(x) == gen_json(y) && std::mem::discriminant(x) == std::mem::discriminant(y);
      ensure_eq!(x == y, same, "equality of generators {:?} and {:?}", x, y);
      ensure_eq!(hash_of(x) == hash_of(y), same, "equality of hashes of generators {:?} and {:?}", x, y);
    }
    ensure!(rs.build() == rs.build() && gs.build() == gs.build(), "sets of rules or generators built twice differ");
    ensure_eq!((hash_of(&rs.build()), hash_of(&gs.build())), (hash_of(&rs.build()), hash_of(&gs.build())), "hashes of sets of rules and generators built twice");
    Ok(())
  });
  h.check("old", 6_000, "pairs of V3 interactions and messages, equal or not; non-trivial: not equal", || (rr3(false), rr3(false), msg3(), msg3(), any::<bool>()), |(a, b, m, n, same), c| {
    c.nontrivial(!same);
    let (x, y) = (a.build(), if *same { a.build() } else { b.build() });
    let (p, q) = (m.build(), if *same { m.build() } else { n.build() });
    let body = |b: &OptionalBody| match b { OptionalBody::Present(b, _, _) => json!(hex(b)), b => json!(format!("{:?}", b)) };
    let sorted = |v: &Option<HashMap<String, Vec<String>>>| v.clone().map(|h| h.into_iter().collect::<BTreeMap<_, _>>());
    let rq = |r: &pact_models::request::Request| json!([r.method, r.path, r.query.clone().map(|q| q.into_iter().collect::<BTreeMap<_, _>>()), sorted(&r.headers), body(&r.body), rules_dump(&r.matching_rules), gens_dump(&r.generators)]);
    let rs = |r: &pact_models::response::Response| json!([r.status, sorted(&r.headers), body(&r.body), rules_dump(&r.matching_rules), gens_dump(&r.generators)]);
    let ms = |m: &Message| json!([m.description, state_dump(&m.provider_states), body(&m.contents), m.metadata.iter().collect::<BTreeMap<_, _>>(), rules_dump(&m.matching_rules), gens_dump(&m.generators)]);
    ensure_eq!(x.request == y.request, rq(&x.request) == rq(&y.request), "equality of requests"); ensure_eq!(hash_of(&x.request) == hash_of(&y.request), rq(&x.request) == rq(&y.request), "hashes of requests");
    ensure_eq!(x.response == y.response, rs(&x.response) == rs(&y.response), "equality of responses"); ensure_eq!(hash_of(&x.response) == hash_of(&y.response), rs(&x.response) == rs(&y.response), "hashes of responses");
    ensure_eq!(p == q, ms(&p) == ms(&q), "equality of messages");
    for (s, t) in [(&x.provider_states, &y.provider_states), (&p.provider_states, &q.provider_states)] {
      ensure_eq!(s == t, state_dump(s) == state_dump(t), "equality of states"); ensure_eq!(hash_of(s) == hash_of(t), state_dump(s) == state_dump(t), "hashes of states {:?} and {:?}", s, t);
    }
    Ok(())
  });
}
