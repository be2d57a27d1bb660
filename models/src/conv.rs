//! P05 loading and version detection, P06 conversions between versions, P07 merging.
use std::collections::{BTreeMap, HashMap};
use proptest::prelude::*;
use pact_models::{Consumer, PactSpecification, Provider};
use pact_models::bodies::OptionalBody;
use pact_models::content_types::ContentType;
use pact_models::interaction::{http_interaction_from_json, message_interaction_from_json, Interaction};
use pact_models::json_utils::json_to_string;
use pact_models::message::Message;
use pact_models::message_pact::MessagePact;
use pact_models::pact::{determine_spec_version, load_pact_from_json, parse_meta_data, Pact, ReadWritePact};
use pact_models::request::Request;
use pact_models::response::Response;
use pact_models::sync_interaction::RequestResponseInteraction;
use pact_models::sync_pact::RequestResponsePact;
use pact_models::v4::interaction::{interaction_from_json, V4Interaction};
use pact_models::v4::pact::V4Pact;
use pvfw::{ensure, ensure_eq, H};
use serde_json::{json, Map, Value};

use crate::g::*;
use crate::legacy::*;
use crate::pacts::*;
use crate::same;

type V = PactSpecification;

// ---------------------------------------------------------------- P05

/// A version text and what it stands for: Some((major, minor)) or not a version.
fn version_text() -> B<(String, Option<(u64, u64)>)> {
  prop_oneof![
    3 => (0u64..7, 0u64..4).prop_map(|(a, b)| (format!("{}.{}", a, b), Some((a, b)))),
    3 => (0u64..7, 0u64..4, 0u64..20).prop_map(|(a, b, c)| (format!("{}.{}.{}", a, b, c), Some((a, b)))),
    1 => (0u64..7).prop_map(|a| (a.to_string(), Some((a, 0)))),
    1 => (10u64..50, 0u64..4).prop_map(|(a, b)| (format!("{}.{}", a, b), Some((a, b)))),
    1 => prop::sample::select(vec!["", "x", "one", "?.0", "abc.def", "-", "latest", "null", "3,0", "%"]).prop_map(|s| (s.to_string(), None)),
  ].boxed()
}
fn detect(v: Option<(u64, u64)>) -> V {
  match v { Some((1, 1)) => V::V1_1, Some((1, _)) => V::V1, Some((2, _)) => V::V2, Some((3, _)) => V::V3, Some((4, _)) => V::V4, _ => V::Unknown }
}
fn strict(v: Option<(u64, u64)>) -> Option<V> {
  match v { Some((1, 0)) => Some(V::V1), Some((1, 1)) => Some(V::V1_1), Some((2, 0)) => Some(V::V2), Some((3, 0)) => Some(V::V3), Some((4, 0)) => Some(V::V4), _ => None }
}

fn p05_versions(h: &mut H) {
  h.check("version", 20_000, "version texts under the metadata keys of old and new files; non-trivial: a version number",
    || (version_text(), prop::sample::select(vec!["pactSpecification", "pact-specification"]), prop::option::of(version_text()), 0u8..6), |((text, v), key, other, shape), c| {
    c.nontrivial(v.is_some());
    let want = detect(*v);
    let (md, want) = match shape {
      0 => (json!({"pactRust": {"models": "1"}}), V::V3),
      1 => (json!({*key: {}}), V::V3),
      2 => (json!({*key: text}), V::V3),
      3 if *key == "pactSpecification" && v.is_some() && text.matches('.').count() == 1 => (json!({*key: {"version": text.parse::<f64>().unwrap()}}), want),
      _ => (json!({*key: {"version": text}, "x": {"version": other.as_ref().map(|o| o.0.clone())}}), want),
    };
    let parsed = parse_meta_data(&json!({"metadata": md}));
    ensure_eq!(determine_spec_version("x", &parsed), want, "version of metadata {}", md);
    let raw: BTreeMap<String, BTreeMap<String, String>> = [(key.to_string(), [("version".to_string(), text.clone())].into())].into();
    ensure_eq!(determine_spec_version("x", &raw), detect(*v), "version of unparsed metadata");
    let got = V::parse_version(text.as_str());
    match strict(*v) { Some(s) => ensure_eq!(got.ok(), Some(s), "parse_version({:?})", text), None => ensure!(got.is_err(), "parse_version({:?}) is {:?}", text, got) }
    for s in [V::V1, V::V1_1, V::V2, V::V3, V::V4] {
      ensure_eq!(V::parse_version(s.version_str()).ok(), Some(s), "parse_version of version_str");
      ensure_eq!(V::from(s.to_string()), s, "from of display"); ensure_eq!(V::from(s.to_string().to_lowercase().as_str()), s, "from of lower-case display"); ensure_eq!(V::from(&s.to_string()), s, "from of &String");
    }
    Ok(())
  });
  h.check("metadata", 8_000, "arbitrary metadata documents; non-trivial: has an object entry", || (json_map(5), any::<bool>(), any::<bool>()), |(m, a, b), c| {
    let mut m = m.clone();
    if *a { m.insert("pact-rust".into(), json!({"models": "0.1", "n": 1})); }
    if *b { m.insert("pact-specification".into(), json!({"version": "2.0"})); }
    let mut want: BTreeMap<String, BTreeMap<String, String>> = BTreeMap::new();
    for (k, v) in &m {
      let k = match k.as_str() { "pact-rust" => "pactRust", "pact-specification" => "pactSpecification", k => k };
      c.nontrivial(v.is_object());
      want.insert(k.to_string(), v.as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_str().map(|s| s.to_string()).unwrap_or_else(|| v.to_string()))).collect()).unwrap_or_default());
    }
    ensure_eq!(parse_meta_data(&json!({"metadata": m})), want, "parsed metadata");
    ensure!(parse_meta_data(&json!({})).is_empty() && parse_meta_data(&json!({"metadata": [1]})).is_empty(), "metadata that is not an object");
    Ok(())
  });
}

/// What a document of the loader tests is made of.
#[derive(Debug, Clone)]
enum Doc { Rr(Pact3<RR3>, V), Msg(Pact3<Msg3>), V4(PSpec) }

fn names(v: &Value) -> String { match v { Value::String(s) => s.clone(), v => v.to_string() } }

fn p05_loader(h: &mut H) {
  let docs = || prop_oneof![
    2 => (prop::sample::select(vec![V::V1, V::V1_1, V::V2])).prop_flat_map(|v| pact3(rr3(true)).prop_map(move |p| Doc::Rr(p, v))),
    2 => pact3(rr3(false)).prop_map(|p| Doc::Rr(p, V::V3)), 2 => pact3(msg3()).prop_map(Doc::Msg), 3 => pspec().prop_map(Doc::V4),
  ];
  h.check("dispatch", 2_500, "documents of every version with parts left out or renamed to their older spelling; non-trivial: an interaction",
    || (docs(), any::<[bool; 6]>(), json_scalar(), json_scalar()), |(d, f, n1, n2), c| {
    let mut doc = match d { Doc::Rr(p, v) => p.json(*v), Doc::Msg(p) => p.json(), Doc::V4(p) => p.json() };
    let (mut consumer, mut provider) = match d { Doc::Rr(p, _) => (p.consumer.clone(), p.provider.clone()), Doc::Msg(p) => (p.consumer.clone(), p.provider.clone()), Doc::V4(p) => (p.consumer.clone(), p.provider.clone()) };
    let m = doc.as_object_mut().unwrap();
    if f[0] { m.remove("consumer"); consumer = "consumer".into(); } else if f[1] { m.insert("consumer".into(), json!({"name": n1})); consumer = names(n1); }
    if f[2] { m["provider"].as_object_mut().unwrap().remove("name"); provider = "provider".into(); } else if f[3] { m.insert("provider".into(), json!({"name": n2})); provider = names(n2); }
    let (count, list) = match d { Doc::Rr(p, _) => (p.items.len(), "interactions"), Doc::Msg(p) => (p.items.len(), "messages"), Doc::V4(p) => (p.interactions.len(), "interactions") };
    c.nontrivial(count > 0);
    let mut version = match d { Doc::Rr(_, v) => *v, Doc::Msg(_) => V::V3, Doc::V4(_) => V::V4 };
    if f[4] && version != V::V4 {
      let md = m["metadata"].as_object_mut().unwrap();
      let s = md.remove("pactSpecification").unwrap();
      md.insert("pact-specification".into(), s);
    }
    let mut descriptions: Vec<String> = match d { Doc::Rr(p, _) => p.items.iter().map(|i| i.description.clone()).collect(), Doc::Msg(p) => p.items.iter().map(|i| i.description.clone()).collect(), Doc::V4(p) => p.sorted().iter().map(|i| i.description.clone()).collect() };
    if f[5] {
      // without descriptions, and with ids
      for (n, i) in m[list].as_array_mut().unwrap().iter_mut().enumerate() { let o = i.as_object_mut().unwrap(); o.remove("description"); o.insert("_id".into(), json!(format!("id{}", n))); }
      descriptions = (0..count).map(|n| format!("{} {}", if list == "messages" { "Message" } else { "Interaction" }, n)).collect();
    }
    let p = err(load_pact_from_json("src", &doc), "load")?;
    ensure_eq!(p.specification_version(), version, "version");
    ensure_eq!(p.is_v4(), version == V::V4, "is_v4");
    ensure_eq!((p.consumer().name, p.provider().name), (consumer.clone(), provider.clone()), "names");
    ensure_eq!(p.default_file_name(), format!("{}-{}.json", consumer, provider), "default file name");
    let got: Vec<String> = p.interactions().iter().map(|i| i.description()).collect();
    ensure_eq!(got, descriptions, "descriptions");
    if f[5] { for (n, i) in p.interactions().iter().enumerate() { ensure_eq!(i.id(), Some(format!("id{}", n)), "interaction id"); } }
    for i in p.interactions() {
      let (rr, msg, v4) = (i.is_request_response(), i.is_message(), i.is_v4());
      match d { Doc::Rr(..) => ensure!(rr && !msg && !v4, "an HTTP interaction is {:?}", i.type_of()), Doc::Msg(_) => ensure!(!rr && msg && !v4, "a message is {:?}", i.type_of()), Doc::V4(_) => ensure!(v4, "a V4 interaction is {}", i.type_of()) }
    }
    // no version: V3 forms
    if version == V::V3 {
      doc["metadata"].as_object_mut().unwrap().remove(if f[4] { "pact-specification" } else { "pactSpecification" });
      let p = err(load_pact_from_json("src", &doc), "load without version")?;
      ensure_eq!((p.specification_version(), p.interactions().len()), (V::V3, count), "without version");
      version = V::Unknown;
      doc["metadata"]["pactSpecification"] = json!({"version": "99.1"});
      let p = err(load_pact_from_json("src", &doc), "load with an unknown version")?;
      ensure_eq!((p.specification_version(), p.interactions().len()), (version, count), "with an unknown version");
      let known = match d { Doc::Rr(s, _) => { let q = err(p.as_request_response_pact(), "rr")?; let mut s = s.dump(V::V3); s["consumer"] = json!(consumer); s["provider"] = json!(provider); let g = rrp_dump(&q); (g["items"].clone(), s["items"].clone()) }
        Doc::Msg(s) => { let q = err(p.as_message_pact(), "msg")?; (mp_dump(&q)["items"].clone(), s.dump()["items"].clone()) } _ => unreachable!() };
      if !f[5] { same!(known.0, known.1, "content with an unknown version"); }
    }
    Ok(())
  });
  h.check("not_a_pact", 4_000, "values that are not objects, or V4 interactions of no known type; non-trivial: the latter", || (json_value(), json_value(), ispec(), any::<bool>()), |(v, ty, i, gone), c| {
    if !v.is_object() { ensure!(load_pact_from_json("x", v).is_err(), "{} is loaded as a pact", v); }
    let mut ij = i.json();
    let good = ["Synchronous/HTTP", "Asynchronous/Messages", "Synchronous/Messages"].contains(&ty.as_str().unwrap_or(""));
    if *gone { ij.as_object_mut().unwrap().remove("type"); } else { ij["type"] = ty.clone(); }
    if *gone || !good {
      c.nontrivial(true);
      ensure!(interaction_from_json("x", 0, &ij).is_err(), "interaction of type {:?} is loaded", ij.get("type"));
      ensure!(load_pact_from_json("x", &json!({"interactions": [i.json(), ij], "metadata": {"pactSpecification": {"version": "4.0"}}})).is_err(), "pact with an interaction of type {:?} is loaded", ij.get("type"));
    }
    Ok(())
  });
  h.check("single", 4_000, "single interactions through the per-version entry points; non-trivial: every case", || (rr3(false), msg3(), ispec()), |(r, m, i), c| {
    c.nontrivial(true);
    let a = err(http_interaction_from_json("x", &r.json(V::V3), &V::V3), "http")?;
    same!(rr_dump(&a.as_request_response().unwrap()), r.dump(), "V3 HTTP interaction");
    let b = err(message_interaction_from_json("x", &m.json(), &V::V3), "message")?;
    same!(msg3_dump(&b.as_message().unwrap()), m.dump(), "V3 message");
    for v in [V::V1, V::V1_1, V::V2] { ensure!(message_interaction_from_json("x", &m.json(), &v).is_err(), "a {:?} message is loaded", v); }
    for x in [http_interaction_from_json("x", &i.json(), &V::V4), message_interaction_from_json("x", &i.json(), &V::V4)] {
      same!(idump(&err(x, "V4")?.as_v4().unwrap()), i.dump(), "V4 interaction");
    }
    Ok(())
  });
}

pub fn p05(h: &mut H) {
  h.assume("Version texts are plain numbers with one to three parts or texts no lenient version parser accepts.");
  p05_versions(h);
  p05_loader(h);
}

// ---------------------------------------------------------------- P06

fn body_as(b: &OptionalBody, ct: Option<ContentType>) -> Value {
  match b { OptionalBody::Present(bytes, _, hint) => body_dump(&OptionalBody::Present(bytes.clone(), ct, *hint)), b => body_dump(b) }
}
fn null_missing(mut v: Value) -> Value {
  match &mut v { Value::Object(m) => { for (k, x) in m.iter_mut() { if k == "body" && x == "null" { *x = json!("missing"); } else { *x = null_missing(x.take()); } } v }
    Value::Array(a) => { for x in a.iter_mut() { *x = null_missing(x.take()); } v } _ => v }
}
/// Identity of the accessors of an interaction, whatever its type: what it can be viewed as and that the views agree.
fn check_views(i: &dyn Interaction, ty: &str) -> Result<(), String> {
  let http = ty.contains("HTTP"); let sync = ty.contains("Synchronous/Messages"); let v4 = ty.starts_with("V4");
  ensure_eq!(i.type_of(), ty, "type_of");
  ensure_eq!(i.is_request_response(), http, "is_request_response"); ensure_eq!(i.as_request_response().is_some(), http, "as_request_response");
  if !sync { ensure_eq!(i.is_message(), !http, "is_message"); ensure_eq!(i.as_message().is_some(), !http, "as_message"); }
  ensure_eq!(i.is_v4(), v4, "is_v4");
  ensure_eq!(i.is_v4_http(), v4 && http, "is_v4_http"); ensure_eq!(i.is_v4_sync_message(), sync, "is_v4_sync_message"); ensure_eq!(i.is_v4_async_message(), v4 && !http && !sync, "is_v4_async_message");
  ensure_eq!(i.as_v4_http().is_some(), http, "as_v4_http"); ensure_eq!(i.as_v4_sync_message().is_some(), sync, "as_v4_sync_message"); ensure_eq!(i.as_v4_async_message().is_some(), !http && !sync, "as_v4_async_message");
  let (d, s, id, p) = (i.description(), state_dump(&i.provider_states()), i.id(), i.pending());
  let mut views: Vec<Box<dyn Interaction>> = vec![];
  if let Some(x) = i.as_request_response() { views.push(Box::new(x)); }
  if let Some(x) = i.as_message() { views.push(Box::new(x)); }
  if let Some(x) = i.as_v4_http() { views.push(Box::new(x)); }
  if let Some(x) = i.as_v4_async_message() { views.push(Box::new(x)); }
  if let Some(x) = i.as_v4_sync_message() { views.push(Box::new(x)); }
  views.push(views[0].clone());
  for x in &views { ensure_eq!((x.description(), state_dump(&x.provider_states()), x.id()), (d.clone(), s.clone(), id.clone()), "view as {}", x.type_of()); }
  if let Some(x) = i.as_v4() { ensure_eq!((x.description(), state_dump(&x.provider_states()), x.id(), x.pending()), (d.clone(), s.clone(), id.clone(), p), "as_v4"); }
  let arced = i.arced();
  let locked = i.thread_safe();
  let locked = locked.lock().unwrap();
  for x in [i.boxed().as_ref(), arced.as_ref() as &dyn Interaction] {
    ensure_eq!((x.type_of(), x.description(), x.pending()), (ty.to_string(), d.clone(), p), "copy");
    ensure!(!x.to_string().is_empty(), "display");
  }
  ensure_eq!((locked.type_of(), locked.description()), (ty.to_string(), d.clone()), "thread-safe copy");
  for x in &views { ensure!(x.as_ref().to_string().contains(&format!("{:?}", d)) || x.as_ref().to_string().contains(&d), "display of {} does not show the description: {}", x.type_of(), x.as_ref()); }
  let contents = i.contents_for_verification();
  let want = if let Some(x) = i.as_v4_http() { x.response.body } else if let Some(x) = i.as_v4_async_message() { x.contents.contents } else { i.as_v4_sync_message().unwrap().response.first().map(|r| r.contents.clone()).unwrap_or_default() };
  ensure_eq!(contents, want, "contents_for_verification");
  Ok(())
}

pub fn p06(h: &mut H) {
  h.assume("A V4 interaction has no key, comments, plugin data or pending flag in older forms, a V3 body none of its own content type; a null body is a missing one in V4.");
  h.check("upgrade_http", 4_000, "V3 request/response pacts converted to V4, through JSON and back; non-trivial: an interaction", || pact3(rr3(false)), |s, c| {
    c.nontrivial(!s.items.is_empty());
    let p = s.build(V::V3);
    let v4 = err(p.as_v4_pact(), "as_v4_pact")?;
    ensure_eq!(v4.interactions.len(), s.items.len(), "interactions");
    for (i, (x, o)) in v4.interactions.iter().zip(&p.interactions).enumerate() {
      let x = x.as_v4_http().ok_or("not HTTP")?;
      ensure!(x.key.is_none() && !x.pending && x.comments.is_empty() && x.plugin_config.is_empty() && x.transport.is_none() && x.interaction_markup.is_empty(), "new attributes");
      let mut direct = rr_dump(&x.as_request_response().unwrap());
      let method = direct["request"]["method"].take();
      ensure_eq!(method.as_str(), Some(o.request.method.as_str()), "method");
      let mut want = s.items[i].dump();
      direct["request"]["method"] = want["request"]["method"].clone();
      want["request"]["method"] = direct["request"]["method"].clone();
      same!(direct, want, "interaction {} as V4 and back", i);
      let twice = x.as_request_response();
      ensure_eq!(twice.as_ref(), Some(o), "equality after going to V4 and back");
      check_views(o, "V3 Synchronous/HTTP")?;
    }
    let got = err(p.to_json(V::V4), "to_json(V4)")?;
    same!(got, err(v4.to_json(V::V4), "V4 to_json")?, "V4 form");
    ensure_eq!(got["metadata"]["pactSpecification"]["version"], "4.0", "V4 version");
    let back = err(load_pact_from_json("x", &got), "load")?;
    ensure!(back.is_v4(), "not loaded as V4");
    let down = err(back.as_request_response_pact(), "as_request_response_pact")?;
    let mut want = s.dump(V::V3);
    want["metadata"]["pactSpecification"] = json!({"version": "3.0.0"});
    let mut items: Vec<&RR3> = s.items.iter().collect();
    items.sort_by(|a, b| a.description.cmp(&b.description));
    want["items"] = Value::Array(items.iter().map(|i| i.dump()).collect());
    same!(rrp_dump(&down), null_missing(want), "to V4, through JSON and back to V3");
    ensure!(p.as_message_pact().is_err() , "a request/response pact as a message pact");
    Ok(())
  });
  h.check("upgrade_messages", 5_000, "V3 message pacts converted to V4, through JSON and back; non-trivial: a message", || pact3(msg3()), |s, c| {
    c.nontrivial(!s.items.is_empty());
    let p = s.build();
    let v4 = err(p.as_v4_pact(), "as_v4_pact")?;
    ensure_eq!(v4.interactions.len(), s.items.len(), "messages");
    for (i, (x, o)) in v4.interactions.iter().zip(&p.messages).enumerate() {
      let x = x.as_v4_async_message().ok_or("not a message")?;
      ensure!(x.key.is_none() && !x.pending && x.comments.is_empty() && x.plugin_config.is_empty() && x.transport.is_none() && x.interaction_markup.is_empty(), "new attributes");
      same!(msg_dump(&x.contents)["metadata"], json!(s.items[i].metadata), "metadata {}", i);
      same!(msg_dump(&x.contents)["rules"], s.items[i].rules.dump(), "rules {}", i);
      same!(msg_dump(&x.contents)["gens"], s.items[i].gens.dump(), "generators {}", i);
      let back = x.as_message().unwrap();
      let mut want = s.items[i].dump();
      if let (Some(t), false) = (o.contents.content_type(), o.metadata.contains_key("contentType")) { want["metadata"]["contentType"] = json!(t.to_string()); }
      same!(msg3_dump(&back), want, "message {} as V4 and back", i);
      check_views(o, "V3 Asynchronous/Messages")?;
    }
    let got = err(p.to_json(V::V4), "to_json(V4)")?;
    same!(got, err(v4.to_json(V::V4), "V4 to_json")?, "V4 form");
    let back = err(load_pact_from_json("x", &got), "load")?;
    ensure!(back.is_v4(), "not loaded as V4");
    let down = err(back.as_message_pact(), "as_message_pact")?;
    let mut items: Vec<&Msg3> = s.items.iter().collect();
    items.sort_by(|a, b| a.description.cmp(&b.description));
    let want = Value::Array(items.iter().map(|i| {
      let mut d = i.dump();
      // the content type a body has gets a place in the metadata
      if let Body3::Present { effective: Some(t), .. } = &i.body { if !i.metadata.contains_key("contentType") { d["metadata"]["contentType"] = json!(t); } }
      d
    }).collect());
    same!(mp_dump(&down)["items"], null_missing(want), "to V4, through JSON and back to V3");
    ensure_eq!((down.consumer.name, down.provider.name, down.specification_version), (s.consumer.clone(), s.provider.clone(), V::V3), "pact");
    ensure!(p.as_request_response_pact().is_err(), "a message pact as a request/response pact");
    Ok(())
  });
  h.check("downgrade", 3_000, "V4 pacts of one or several interaction types written in every older version; non-trivial: an interaction",
    || prop_oneof![3 => pspec_of(ispec_of(http_part()), 4), 3 => pspec_of(ispec_of(async_part()), 4), 1 => pspec_of(ispec_of(sync_part()), 4), 2 => pspec()], |s, c| {
    c.nontrivial(!s.interactions.is_empty());
    let p = s.build();
    let kinds: std::collections::BTreeSet<&str> = s.interactions.iter().map(|i| match i.part { PartSpec::Http(..) => "http", PartSpec::Async(..) => "async", PartSpec::Sync(..) => "sync" }).collect();
    c.label(kinds.iter().copied().collect::<Vec<_>>().join("+"));
    let (rr, msg) = (err(p.as_request_response_pact(), "rr")?, err(p.as_message_pact(), "msg")?);
    let https: Vec<&ISpec> = s.interactions.iter().filter(|i| matches!(i.part, PartSpec::Http(..))).collect();
    let asyncs: Vec<&ISpec> = s.interactions.iter().filter(|i| matches!(i.part, PartSpec::Async(..))).collect();
    ensure_eq!(rr.interactions.iter().map(|i| i.description.clone()).collect::<Vec<_>>(), https.iter().map(|i| i.description.clone()).collect::<Vec<_>>(), "HTTP interactions kept");
    ensure_eq!(msg.messages.iter().map(|i| i.description.clone()).collect::<Vec<_>>(), asyncs.iter().map(|i| i.description.clone()).collect::<Vec<_>>(), "messages kept");
    for (i, x) in https.iter().zip(&rr.interactions) {
      let PartSpec::Http(a, b) = &i.part else { unreachable!() };
      let mut want = req_dump(&a.build()); let q = req_dump(&x.request.as_v4_request());
      want["method"] = json!(a.method);
      same!(q, want, "request"); same!(res_dump(&x.response.as_v4_response()), res_dump(&b.build()), "response");
      ensure_eq!((&x.id, state_dump(&x.provider_states)), (&i.id, state_dump(&i.build().provider_states())), "id and states");
    }
    for (i, x) in asyncs.iter().zip(&msg.messages) {
      let PartSpec::Async(m) = &i.part else { unreachable!() };
      let mut want = msg_dump(&m.build());
      if let (OptionalBody::Present(_, Some(t), _), false) = (m.body.build(), m.metadata.contains_key("contentType")) { want["metadata"]["contentType"] = json!(t.to_string()); }
      same!(msg_dump(&x.as_message_content()), want, "message");
      ensure_eq!((&x.id, state_dump(&x.provider_states)), (&i.id, state_dump(&i.build().provider_states())), "id and states");
    }
    for x in &s.interactions {
      let ty = match x.part { PartSpec::Http(..) => "V4 Synchronous/HTTP", PartSpec::Async(..) => "V4 Asynchronous/Messages", PartSpec::Sync(..) => "V4 Synchronous/Messages" };
      check_views(x.build().to_super(), ty)?;
      same!(idump(&x.build().boxed().as_v4().unwrap()), idump(&x.build()), "as_v4 of a V4 interaction");
    }
    // metadata
    let objects: BTreeMap<String, BTreeMap<String, String>> = s.metadata.iter().filter_map(|(k, v)| v.as_object().map(|o| (k.clone(), o.iter().map(|(k, v)| (k.clone(), match v { Value::String(s) => s.clone(), Value::Null => String::new(), v => v.to_string() })).collect()))).collect();
    let mut rr_md = objects.clone();
    if s.metadata.contains_key("pactSpecification") { rr_md.insert("pactSpecification".into(), [("version".to_string(), "3.0.0".to_string())].into()); }
    ensure_eq!(rr.metadata, rr_md, "metadata"); ensure_eq!(msg.metadata, objects, "message metadata"); ensure_eq!(p.metadata(), objects, "metadata()");
    ensure_eq!((rr.specification_version, msg.specification_version), (V::V3, V::V3), "versions");
    // the written forms
    for v in [V::V1, V::V1_1, V::V2, V::V3] {
      let got = p.to_json(v);
      let kind = kinds.iter().next().copied().unwrap_or("http");
      if kinds.len() > 1 || kind == "sync" || (kind == "async" && v != V::V3) {
        ensure!(got.is_err(), "a pact of {:?} is written as {:?}", kinds, v);
      } else {
        let got = err(got, "to_json")?;
        let want = if kind == "http" { rr.to_json(v) } else { msg.to_json(v) };
        same!(got, err(want, "to_json")?, "written as {:?}", v);
        ensure_eq!(got["metadata"]["pactSpecification"]["version"], ver_str(v), "written version");
        let list = got[if kind == "http" { "interactions" } else { "messages" }].as_array().ok_or("no list")?;
        ensure_eq!(list.iter().map(|i| i["description"].as_str().unwrap_or("").to_string()).collect::<Vec<_>>(), s.interactions.iter().map(|i| i.description.clone()).collect::<Vec<_>>(), "written interactions");
      }
    }
    Ok(())
  });
  h.check("pact_api", 4_000, "histories of additions to pacts of every kind; non-trivial: an interaction of the wrong kind is offered", || {
    (prop::collection::vec(prop_oneof![ispec_of(http_part()), ispec_of(async_part()), ispec_of(sync_part())].prop_map(|i| i), 0..4), prop::collection::vec((rr3(false), msg3()), 0..2),
      prop::collection::vec(("[ab]", "[12]", prop::option::of(json_map(3))), 0..4), prop::collection::vec((ident(), ident()), 0..3), metadata())
  }, |(specs, old, plugins, versions, md), c| {
    let mut items: Vec<Box<dyn Interaction + Send + Sync + std::panic::RefUnwindSafe>> = specs.iter().map(|s| s.build().boxed()).collect();
    for (r, m) in old { items.push(Box::new(r.build())); items.push(Box::new(m.build())); }
    let mut rr: Box<dyn Pact> = Box::new(RequestResponsePact { interactions: vec![], ..Default::default() });
    let mut mp: Box<dyn Pact> = Box::new(MessagePact { messages: vec![], ..MessagePact::default() });
    let mut v4: Box<dyn Pact> = Box::new(V4Pact { metadata: md.clone(), ..V4Pact::default() });
    let (mut n_rr, mut n_mp, mut n_v4) = (vec![], vec![], vec![]);
    for i in &items {
      ensure_eq!(rr.add_interaction(i.as_ref()).is_ok(), i.is_request_response(), "adding {} to a request/response pact", i.type_of());
      if i.is_request_response() { n_rr.push(i.description()); } else { c.nontrivial(true); }
      ensure_eq!(mp.add_interaction(i.as_ref()).is_ok(), i.as_message().is_some(), "adding {} to a message pact", i.type_of());
      if i.as_message().is_some() { n_mp.push(i.description()); }
      err(v4.add_interaction(i.as_ref()), "adding to a V4 pact")?;
      n_v4.push(i.description());
    }
    for (p, n) in [(&mut rr, &n_rr), (&mut mp, &n_mp), (&mut v4, &n_v4)] {
      ensure_eq!(p.interactions().iter().map(|i| i.description()).collect::<Vec<_>>(), *n, "interactions");
      ensure_eq!(p.interactions_mut().iter().map(|i| i.description()).collect::<Vec<_>>(), *n, "interactions_mut");
      let copy = p.clone();
      ensure!(&copy == &*p, "a copy differs");
      let arc = p.arced(); let mtx = p.thread_safe();
      ensure_eq!((arc.interactions().len(), mtx.lock().unwrap().interactions().len(), arc.consumer(), arc.specification_version()), (n.len(), n.len(), p.consumer(), p.specification_version()), "copies");
      for i in p.interactions_mut() { i.set_description("changed"); i.set_id(Some("42".into())); i.provider_states_mut().clear(); }
      ensure!(p.interactions().iter().all(|i| i.description() == "changed" && i.id().as_deref() == Some("42") && i.provider_states().is_empty()), "changes through interactions_mut");
      if !n.is_empty() { ensure!(&copy != &*p, "a changed copy is equal"); }
    }
    let mut want: Vec<(String, String, Map<String, Value>)> = vec![];
    for (name, version, config) in plugins {
      ensure!(rr.add_plugin(name, version, None).is_err() && mp.add_plugin(name, version, None).is_err(), "plugins on V3 pacts");
      err(v4.add_plugin(name, version, config.clone().map(|c| c.into_iter().collect())), "add_plugin")?;
      let config: Map<String, Value> = config.clone().unwrap_or_default().into_iter().collect();
      match want.iter_mut().find(|w| &w.0 == name && &w.1 == version) {
        Some(w) => w.2 = merge_objects(&w.2, &config),
        None => want.push((name.clone(), version.clone(), config)),
      }
    }
    let got: Vec<(String, String, Map<String, Value>)> = v4.plugin_data().into_iter().map(|d| (d.name, d.version, d.configuration.into_iter().collect())).collect();
    ensure_eq!(got, want, "plugin data");
    ensure_eq!((v4.requires_plugins(), rr.requires_plugins(), mp.requires_plugins()), (!want.is_empty(), false, false), "requires_plugins");
    for (k, v) in versions {
      for p in [&mut rr, &mut mp, &mut v4] {
        let had = p.metadata().get("pactRust").cloned();
        let lost = p.is_v4() && md.get("pactRust").map(|m| !m.is_object()).unwrap_or(false);
        p.add_md_version(k, v);
        if lost { continue; }
        let mut want = had.unwrap_or_default();
        want.insert(k.clone(), v.clone());
        ensure_eq!(p.metadata().get("pactRust").cloned(), Some(want), "version entry in the metadata");
      }
    }
    Ok(())
  });
}

/// The documented deep merge: objects by key, arrays appended, anything else replaced.
fn merge_values(a: &Value, b: &Value) -> Value {
  match (a, b) {
    (Value::Object(x), Value::Object(y)) => Value::Object(merge_objects(x, y)),
    (Value::Array(x), Value::Array(y)) => Value::Array(x.iter().chain(y).cloned().collect()),
    _ => b.clone(),
  }
}
fn merge_objects(a: &Map<String, Value>, b: &Map<String, Value>) -> Map<String, Value> {
  let mut out = a.clone();
  for (k, v) in b { let v = match a.get(k) { Some(o) => merge_values(o, v), None => v.clone() }; out.insert(k.clone(), v); }
  out
}

// ---------------------------------------------------------------- P07

/// A small interaction: identity, what conflicts depend on, and a tag telling which pact it came from.
#[derive(Debug, Clone, PartialEq)]
pub struct Small { pub description: String, pub states: Vec<String>, pub kind: u8, pub key: Option<String>, pub variant: u8 }

pub fn small(kinds: u8, keys: bool, variants: u8) -> B<Small> {
  (prop_oneof![4 => "[abc]", 1 => text()], prop_oneof![2 => Just(vec![]), 3 => prop::collection::vec(prop_oneof!["[xyz]"], 1..3)], 0..kinds, prop::option::weighted(0.4, "[12]").prop_map(move |k| if keys { k } else { None }), 0..variants)
    .prop_map(|(description, states, kind, key, variant)| Small { description, states, kind, key, variant }).boxed()
}
fn states_of(names: &[String]) -> Vec<pact_models::provider_states::ProviderState> {
  names.iter().map(|n| pact_models::provider_states::ProviderState { name: n.clone(), params: if n == "y" { [("p".to_string(), json!(1))].into_iter().collect() } else { HashMap::new() } }).collect()
}
impl Small {
  pub fn rr(&self, tag: &str) -> RequestResponseInteraction {
    let request = Request { path: if self.variant == 1 { "/other".into() } else { "/".into() }, method: match self.variant { 2 => "POST", 5 => "get", _ => "GET" }.into(),
      query: if self.variant == 3 { Some([("q".to_string(), vec![Some("1".to_string())])].into_iter().collect()) } else { None },
      body: OptionalBody::from(format!("from {}", tag).as_str()), headers: Some([("X-From".to_string(), vec![tag.to_string()])].into_iter().collect()), ..Default::default() };
    let response = Response { status: if self.variant == 4 { 201 } else { 200 }, body: OptionalBody::from(format!("reply from {}", tag).as_str()), ..Default::default() };
    RequestResponseInteraction { id: None, description: self.description.clone(), provider_states: states_of(&self.states), request, response }
  }
  pub fn msg(&self, tag: &str) -> Message { Message { description: self.description.clone(), provider_states: states_of(&self.states), contents: OptionalBody::Present(format!("from {}", tag).into(), Some("text/plain".into()), None), metadata: [("contentType".to_string(), json!("text/plain"))].into(), ..Default::default() } }
  pub fn v4(&self, tag: &str) -> V4Box {
    let i = match self.kind {
      0 => self.rr(tag).as_v4().unwrap(),
      1 => self.msg(tag).as_v4().unwrap(),
      _ => { let m = self.msg(tag).as_v4_async_message().unwrap();
        Box::new(pact_models::v4::sync_message::SynchronousMessage { description: m.description, provider_states: m.provider_states, request: m.contents.clone(), response: vec![m.contents], ..Default::default() }) as V4Box }
    };
    let mut j = i.to_json();
    if let Some(k) = &self.key { j["key"] = json!(k); }
    interaction_from_json("x", 0, &j).unwrap()
  }
  /// Whether two interactions of the same description and states contradict each other; variant 5 differs from variant 0 only in the case of the method.
  pub fn conflicts(&self, o: &Small) -> bool { self.variant % 5 != o.variant % 5 }
  pub fn id3(&self) -> (String, Vec<String>) { (self.description.clone(), self.states.clone()) }
  pub fn same4(&self, o: &Small) -> bool { match (&self.key, &o.key) { (Some(a), Some(b)) => a == b, _ => self.id3() == o.id3() && self.kind == o.kind } }
}
fn kind_name(k: u8) -> &'static str { match k { 0 => "Synchronous/HTTP", 1 => "Asynchronous/Messages", _ => "Synchronous/Messages" } }

/// Items no two of which are the same interaction.
pub fn unique(v: Vec<Small>, same: impl Fn(&Small, &Small) -> bool) -> Vec<Small> { let mut out: Vec<Small> = vec![]; for s in v { if !out.iter().any(|o| same(o, &s) || same(&s, o)) { out.push(s); } } out }

type Brief = (String, Vec<String>, String, String);
/// Description, states, type and origin of every interaction.
pub fn brief(p: &dyn Pact) -> Vec<Brief> {
  p.interactions().iter().map(|i| {
    let body = if let Some(s) = i.as_v4_sync_message() { s.request.contents } else if let Some(h) = i.as_v4_http() { h.request.body } else { i.contents_for_verification() };
    let text = String::from_utf8_lossy(&body.value().unwrap_or_default()).to_string();
    (i.description(), i.provider_states().iter().map(|s| s.name.clone()).collect(), i.type_of().split_once(' ').unwrap().1.to_string(), text.trim_start_matches("from ").to_string())
  }).collect()
}
fn brief_of(s: &Small, kind: u8, tag: &str) -> Brief { (s.description.clone(), s.states.clone(), kind_name(kind).to_string(), tag.to_string()) }
fn named(p: &str, c: &str) -> (Provider, Consumer) { (Provider { name: p.into() }, Consumer { name: c.into() }) }

pub fn rr_pact(items: &[Small], tag: &str) -> RequestResponsePact { let (provider, consumer) = named("p", "c"); RequestResponsePact { provider, consumer, interactions: items.iter().map(|i| i.rr(tag)).collect(), metadata: [("from".to_string(), [("tag".to_string(), tag.to_string())].into())].into(), specification_version: V::V3 } }
pub fn msg_pact(items: &[Small], tag: &str) -> MessagePact { let (provider, consumer) = named("p", "c"); MessagePact { provider, consumer, messages: items.iter().map(|i| i.msg(tag)).collect(), metadata: [("from".to_string(), [("tag".to_string(), tag.to_string())].into())].into(), specification_version: V::V3 } }
pub fn v4_pact(items: &[Small], tag: &str) -> V4Pact { let (provider, consumer) = named("p", "c"); V4Pact { provider, consumer, interactions: items.iter().map(|i| i.v4(tag)).collect(), metadata: [("from".to_string(), json!({"tag": tag}))].into(), plugin_data: vec![] } }

/// What merging V3 pacts has to give.
fn merged3(a: &[Small], b: &[Small], kind: u8) -> Vec<Brief> {
  let mut out: Vec<Brief> = a.iter().filter(|x| !b.iter().any(|y| y.id3() == x.id3())).map(|x| brief_of(x, kind, "a")).chain(b.iter().map(|x| brief_of(x, kind, "b"))).collect();
  out.sort();
  out
}
fn merged4(a: &[Small], b: &[Small]) -> Vec<Brief> {
  let mut out: Vec<Brief> = a.iter().map(|x| brief_of(x, x.kind, "a")).chain(b.iter().filter(|y| !a.iter().any(|x| x.same4(y))).map(|x| brief_of(x, x.kind, "b"))).collect();
  out.sort();
  out
}
fn ordered(p: &dyn Pact) -> Result<Vec<Brief>, String> {
  let got = brief(p);
  let keys: Vec<_> = got.iter().map(|b| (b.0.clone(), b.1.clone())).collect();
  let mut want = keys.clone();
  want.sort();
  ensure_eq!(keys, want, "the merged interactions are not in order");
  let mut got = got;
  got.sort();
  Ok(got)
}

pub fn p07(h: &mut H) {
  h.assume("States of the same name have the same parameters; no pact lists the same interaction twice.");
  h.check("http", 12_000, "pairs of request/response pacts with shared and conflicting interactions; non-trivial: a shared interaction", || (prop::collection::vec(small(1, false, 1), 0..6), prop::collection::vec(small(1, false, 1), 0..6), prop::option::of((0usize..6, 1u8..6))), |(a, b, conflict), c| {
    let same = |x: &Small, y: &Small| x.id3() == y.id3();
    let (a, mut b) = (unique(a.clone(), same), unique(b.clone(), same));
    if let (Some((i, v)), false) = (conflict, b.is_empty()) { let n = b.len(); b[i % n].variant = *v; }
    let shared = b.iter().any(|y| a.iter().any(|x| same(x, y)));
    c.nontrivial(shared);
    let conflicting = b.iter().any(|y| a.iter().any(|x| same(x, y) && x.conflicts(y)));
    c.label_if(conflicting, "conflict");
    let (pa, pb) = (rr_pact(&a, "a"), rr_pact(&b, "b"));
    let m = pa.merge(&pb);
    if conflicting { ensure!(m.is_err(), "conflicting pacts are merged"); ensure!(pb.merge(&pa).is_err(), "conflicting pacts are merged the other way"); return Ok(()); }
    let m = err(m, "merge")?;
    ensure_eq!(ordered(m.as_ref())?, merged3(&a, &b, 0), "merged interactions");
    ensure_eq!((m.consumer().name, m.provider().name, m.specification_version(), m.metadata()), ("c".into(), "p".into(), V::V3, pa.metadata.clone()), "merged pact");
    let again = err(m.merge(&pb), "merging again")?;
    ensure_eq!(brief(again.as_ref()), brief(m.as_ref()), "merging again changes the pact");
    let back = err(pb.merge(&pa), "the other way")?;
    let ids = |p: &dyn Pact| brief(p).into_iter().map(|b| (b.0, b.1)).collect::<Vec<_>>();
    ensure_eq!(ids(back.as_ref()), ids(m.as_ref()), "interactions depend on the direction");
    // every interaction survives whole
    let whole = err(m.as_request_response_pact(), "rr")?;
    for i in &whole.interactions { ensure!(pa.interactions.contains(i) || pb.interactions.contains(i), "an interaction of neither pact: {:?}", i); }
    // through V4
    let m4 = err(err(pa.as_v4_pact(), "v4")?.merge(&pb), "merging into V4")?;
    ensure_eq!(ordered(m4.as_ref())?, merged4(&a, &b), "merged into V4");
    let down = err(pa.merge(&err(pb.as_v4_pact(), "v4")?), "merging V4 into V3")?;
    ensure_eq!(brief(down.as_ref()), brief(m.as_ref()), "merged from V4");
    Ok(())
  });
  h.check("messages", 8_000, "pairs of message pacts; non-trivial: a shared message", || (prop::collection::vec(small(1, false, 1), 0..6), prop::collection::vec(small(1, false, 1), 0..6)), |(a, b), c| {
    let same = |x: &Small, y: &Small| x.id3() == y.id3();
    let (a, b) = (unique(a.clone(), same), unique(b.clone(), same));
    c.nontrivial(b.iter().any(|y| a.iter().any(|x| same(x, y))));
    let (pa, pb) = (msg_pact(&a, "a"), msg_pact(&b, "b"));
    let m = err(pa.merge(&pb), "merge")?;
    ensure_eq!(ordered(m.as_ref())?, merged3(&a, &b, 1), "merged messages");
    ensure_eq!((m.consumer().name, m.provider().name, m.specification_version(), m.metadata()), ("c".into(), "p".into(), V::V3, pa.metadata.clone()), "merged pact");
    ensure_eq!(brief(err(m.merge(&pb), "merging again")?.as_ref()), brief(m.as_ref()), "merging again changes the pact");
    if !a.is_empty() && !b.is_empty() {
      ensure!(pa.merge(&rr_pact(&b, "b")).is_err(), "a message pact is merged with a request/response pact");
      ensure!(rr_pact(&a, "a").merge(&pb).is_err(), "a request/response pact is merged with a message pact");
    }
    Ok(())
  });
  h.check("v4", 8_000, "pairs of V4 pacts of mixed interactions, some with keys; non-trivial: a shared interaction", || (prop::collection::vec(small(3, true, 2), 0..6), prop::collection::vec(small(3, true, 2), 0..6), json_map(3), json_map(3), "[12]"), |(a, b, ca, cb, ver), c| {
    let same = |x: &Small, y: &Small| x.same4(y);
    let (a, b) = (unique(a.clone(), same), unique(b.clone(), same));
    c.nontrivial(b.iter().any(|y| a.iter().any(|x| same(x, y))));
    let (mut pa, mut pb) = (v4_pact(&a, "a"), v4_pact(&b, "b"));
    err(pa.add_plugin("x", "1", Some(ca.clone().into_iter().collect())), "plugin")?;
    err(pb.add_plugin("x", ver, Some(cb.clone().into_iter().collect())), "plugin")?;
    let m = err(err(pa.merge(&pb), "merge")?.as_v4_pact(), "v4")?;
    ensure_eq!(ordered(&m)?, merged4(&a, &b), "merged interactions");
    ensure_eq!((m.consumer.name.as_str(), m.provider.name.as_str(), &m.metadata), ("c", "p", &pa.metadata), "merged pact");
    let (ma, mb): (Map<String, Value>, Map<String, Value>) = (ca.clone().into_iter().collect(), cb.clone().into_iter().collect());
    let want: Vec<(String, Map<String, Value>)> = if ver == "1" { vec![("1".into(), merge_objects(&ma, &mb))] } else { vec![("1".into(), ma), ("2".into(), mb)] };
    ensure_eq!(m.plugin_data.iter().map(|d| (d.version.clone(), d.configuration.clone().into_iter().collect::<Map<_, _>>())).collect::<Vec<_>>(), want, "plugin data");
    let again = err(m.merge(&v4_pact(&b, "b")), "merging again")?;
    ensure_eq!(brief(again.as_ref()), brief(&m), "merging again changes the pact");
    for i in &m.interactions { ensure!(pa.interactions.contains(i) || pb.interactions.contains(i), "an interaction of neither pact: {:?}", i); }
    Ok(())
  });
  h.check("names", 2_000, "pacts of different consumers or providers; non-trivial: every case", || (0u8..3, "[ab]", "[ab]", "[ab]", "[ab]"), |(k, c1, p1, c2, p2), c| {
    c.nontrivial(true);
    let make = |c: &str, p: &str| -> Box<dyn Pact> {
      let (provider, consumer) = named(p, c);
      match k { 0 => Box::new(RequestResponsePact { provider, consumer, ..RequestResponsePact::default() }), 1 => Box::new(MessagePact { provider, consumer, ..MessagePact::default() }), _ => Box::new(V4Pact { provider, consumer, ..V4Pact::default() }) }
    };
    ensure_eq!(make(c1, p1).merge(make(c2, p2).as_ref()).is_ok(), c1 == c2 && p1 == p2, "merging pacts of {}-{} and {}-{}", c1, p1, c2, p2);
    Ok(())
  });
}
