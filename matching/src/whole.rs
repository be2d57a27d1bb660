//! Matching of whole requests and responses, built or read from a pact document.
use proptest::prelude::*;
use pvfw::{ensure, ensure_eq, Case, H, R};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::RefUnwindSafe;
use pact_matching::{match_interaction, match_interaction_request, match_interaction_response, match_request, match_response, Mismatch, RequestMatchResult};
use pact_models::PactSpecification;
use pact_models::bodies::OptionalBody;
use pact_models::interaction::Interaction;
use pact_models::matchingrules::{Category, MatchingRuleCategory, MatchingRules, RuleList, RuleLogic};
use pact_models::pact::{load_pact_from_json, Pact};
use pact_models::path_exp::DocPath;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::v4::interaction::V4Interaction;
use pact_models::v4::pact::V4Pact;
use pact_models::v4::synch_http::SynchronousHttp;
use crate::bodies::wait;
use crate::g::B;
use crate::http::*;
use crate::jm::*;

#[derive(Clone, Debug)]
pub enum Body { None, Json(Value), Text(String) }
#[derive(Clone, Debug)]
pub struct Msg { pub method: String, pub path: String, pub status: u16, pub query: Option<Q>, pub headers: Hd, pub body: Body, pub json_type: u8 }
#[derive(Clone, Debug, Default)]
pub struct Ruled { pub path: Option<Rl>, pub status: Option<(Vec<St>, bool)>, pub query: Rules, pub header: Rules, pub body: Rules }

pub const JSON_TYPES: [&str; 3] = ["application/json", "application/hal+json", "application/json;charset=utf-8"];
impl Msg {
  fn content_type(&self) -> Option<&'static str> { match self.body { Body::None => None, Body::Json(_) => Some(JSON_TYPES[self.json_type as usize % 3]), Body::Text(_) => Some("text/plain") } }
  pub fn all_headers(&self) -> Hd {
    let mut h = self.headers.clone();
    if let Some(t) = self.content_type() { h.insert("Content-Type".into(), vec![t.to_string()]); }
    h
  }
  fn body(&self) -> OptionalBody { match &self.body { Body::None => OptionalBody::Missing, Body::Json(v) => OptionalBody::Present(v.to_string().into(), None, None), Body::Text(s) => OptionalBody::Present(s.clone().into(), None, None) } }
  fn heads(&self) -> Option<HashMap<String, Vec<String>>> { let h = self.all_headers(); if h.is_empty() { None } else { Some(h.into_iter().collect()) } }
  pub fn request(&self, r: &Ruled) -> HttpRequest {
    HttpRequest { method: self.method.clone(), path: self.path.clone(), query: self.query.as_ref().map(|q| q.clone().into_iter().collect()), headers: self.heads(), body: self.body(), matching_rules: r.build(false), ..HttpRequest::default() }
  }
  pub fn response(&self, r: &Ruled) -> HttpResponse {
    HttpResponse { status: self.status, headers: self.heads(), body: self.body(), matching_rules: r.build(true), ..HttpResponse::default() }
  }
  fn body_json(&self, v: u8, o: &mut Map<String, Value>) {
    let c = match &self.body { Body::None => return, Body::Json(v) => v.clone(), Body::Text(s) => json!(s) };
    o.insert("body".into(), if v == 4 { json!({"content": c, "contentType": self.content_type(), "encoded": false}) } else { c });
  }
  fn headers_json(&self, v: u8) -> Value { if v == 2 { json!(self.all_headers().into_iter().map(|(k, v)| (k, v.join(", "))).collect::<BTreeMap<_, _>>()) } else { json!(self.all_headers()) } }
}
impl Ruled {
  fn content_type(&self) -> Option<&Rl> { self.header.iter().find(|(p, _)| fname(p).eq_ignore_ascii_case("content-type")).map(|(_, l)| l) }
  pub fn build(&self, response: bool) -> MatchingRules {
    let mut m = MatchingRules::default();
    let mut add = |c: Category, cat: MatchingRuleCategory| { if !cat.rules.is_empty() { m.rules.insert(c, cat); } };
    let one = |name: &str, l: Vec<RuleList>| MatchingRuleCategory { name: name.into(), rules: l.into_iter().map(|l| (DocPath::empty(), l)).collect() };
    if response { add(Category::STATUS, one("status", self.status.iter().map(|(rs, or)| RuleList { rules: rs.iter().map(|r| r.build()).collect(), rule_logic: if *or { RuleLogic::Or } else { RuleLogic::And }, cascaded: false }).collect())); }
    else { add(Category::PATH, one("path", self.path.iter().map(|l| l.build()).collect())); add(Category::QUERY, category(&self.query, "query")); }
    add(Category::HEADER, category(&self.header, "header"));
    add(Category::BODY, category(&self.body, "body"));
    m
  }
  /// As versions 3 and 4 of the specification write them.
  fn json(&self, response: bool) -> Value {
    let list = |l: &Rl| json!({"combine": if l.or { "OR" } else { "AND" }, "matchers": l.rules.iter().map(rule_json).collect::<Vec<_>>()});
    let named = |rs: &Rules| json!(rs.iter().map(|(p, l)| (fname(p), list(l))).collect::<BTreeMap<_, _>>());
    let mut o = json!({"header": named(&self.header), "body": self.body.iter().map(|(p, l)| (doc_path(p).to_string(), list(l))).collect::<BTreeMap<_, _>>()});
    if response { if let Some((rs, or)) = &self.status { o["status"] = json!({"combine": if *or { "OR" } else { "AND" }, "matchers": rs.iter().map(st_json).collect::<Vec<_>>()}); } }
    else { o["query"] = named(&self.query); if let Some(l) = &self.path { o["path"] = list(l); } }
    o
  }
  /// As version 2 writes them: one rule for a place.
  fn v2_json(&self, response: bool) -> Value {
    let mut o = Map::new();
    let mut put = |k: String, l: &Rl| { o.insert(k, rule_json(&l.rules[0])); };
    let name = |p: &[Tok]| match p { [Tok::F(k)] if k.chars().all(|c| c.is_ascii_alphanumeric()) => format!(".{}", k), [Tok::F(k)] => format!("['{}']", k), _ => unreachable!() };
    for (p, l) in &self.header { put(format!("$.headers{}", name(p)), l); }
    for (p, l) in &self.body { put(doc_path(p).to_string().replacen('$', "$.body", 1), l); }
    if !response {
      for (p, l) in &self.query { put(format!("$.query{}", name(p)), l); }
      if let Some(l) = &self.path { put("$.path".into(), l); }
    }
    Value::Object(o)
  }
}
fn fname(p: &[Tok]) -> String { match p { [Tok::F(k)] => k.clone(), _ => unreachable!() } }
fn st_json(s: &St) -> Value { match s { St::Rule(r) => rule_json(r), o => o.json().unwrap() } }
fn form(s: &str) -> String { s.bytes().map(|b| if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{:02X}", b) }).collect() }

/// A pact document with one interaction.
pub fn pact_json(v: u8, e: &Msg, re: &Ruled, rs: &Ruled, er: &Msg) -> Value {
  let (mut rq, mut rp) = (Map::new(), Map::new());
  rq.insert("method".into(), json!(e.method)); rq.insert("path".into(), json!(e.path));
  if let Some(q) = &e.query { rq.insert("query".into(), if v == 2 { json!(q.iter().flat_map(|(k, l)| l.iter().map(move |x| format!("{}={}", form(k), form(x.as_deref().unwrap_or(""))))).collect::<Vec<_>>().join("&")) } else { json!(q) }); }
  rq.insert("headers".into(), e.headers_json(v)); rp.insert("headers".into(), er.headers_json(v));
  rp.insert("status".into(), json!(er.status));
  e.body_json(v, &mut rq); er.body_json(v, &mut rp);
  rq.insert("matchingRules".into(), if v == 2 { re.v2_json(false) } else { re.json(false) });
  rp.insert("matchingRules".into(), if v == 2 { rs.v2_json(true) } else { rs.json(true) });
  let mut i = json!({"description": "d", "request": rq, "response": rp});
  if v == 4 { i["type"] = json!("Synchronous/HTTP"); i["key"] = json!("k"); }
  let spec = ["", "", "2.0.0", "3.0.0", "4.0"][v as usize];
  json!({"consumer": {"name": "c"}, "provider": {"name": "p"}, "interactions": [i], "metadata": {"pactSpecification": {"version": spec}}})
}

// ---------------------------------------------------------------- the model
#[derive(Debug, Clone)]
pub enum BodyWant { Same, Types, Some, At(Out) }
pub fn body_model(r: &Ruled, strict: bool, e: &Msg, a: &Msg) -> BodyWant {
  let rules = &r.body;
  let (et, at) = (e.content_type(), a.content_type());
  let base = |t: &str| t.split(';').next().unwrap().to_string();
  let comparable = match (et, at) { (Some(x), Some(y)) => x == y || (!x.contains(';') && (base(y) == x || (x == "application/json" && y.ends_with("+json")))) || r.content_type().is_some_and(|l| text_list_ok(l, x, y)), _ => true };
  match (&e.body, &a.body) {
    (Body::None, _) => BodyWant::Same,
    (_, Body::None) => BodyWant::Some,
    _ if !comparable => BodyWant::Types,
    (Body::Json(x), Body::Json(y)) => { let o = M { rules, strict }.cmp(&[], x, y); if o.ok() && !o.ambiguous { BodyWant::Same } else { BodyWant::At(o) } }
    (Body::Text(x), Body::Text(y)) => if x == y { BodyWant::Same } else { BodyWant::Some },
    _ => unreachable!()
  }
}
fn body_agrees(want: &BodyWant, got: &[Mismatch]) -> R {
  match want {
    BodyWant::Same => ensure!(got.is_empty(), "the bodies match, but {:?} is reported", got),
    BodyWant::Types => ensure!(matches!(got, [Mismatch::BodyTypeMismatch { .. }]), "the types of the bodies differ, but {:?} is reported", got),
    BodyWant::Some => ensure!(!got.is_empty() && got.iter().all(|m| matches!(m, Mismatch::BodyMismatch { .. })), "the bodies differ, but {:?} is reported", got),
    BodyWant::At(o) => agree(o, &found(got)?)?
  }
  Ok(())
}
fn rules_fail(l: &Option<Rl>, e: &str, a: &str) -> usize {
  match l { None => (e != a) as usize, Some(l) => { let bad = l.rules.iter().filter(|r| !text_ok(r, e, a, false)).count(); if l.or && bad < l.rules.len() { 0 } else { bad } } }
}
fn status_fail(l: &Option<(Vec<St>, bool)>, e: u16, a: u16) -> usize {
  match l { None => (e != a) as usize, Some((rs, or)) => { let bad = rs.iter().filter(|r| !r.ok(e, a)).count(); if *or && bad < rs.len() { 0 } else { bad } } }
}
fn sorted(v: &[Mismatch]) -> Vec<Mismatch> { let mut v = v.to_vec(); v.sort(); v }

pub struct Want { method: bool, path: usize, query: BTreeSet<String>, query_keys: BTreeSet<String>, headers: BTreeSet<String>, header_keys: BTreeSet<String>, body: BodyWant, ambiguous: bool }
pub fn request_model(r: &Ruled, e: &Msg, a: &Msg) -> Want {
  let (mut q, mut h) = (false, false);
  let none = Q::new();
  let (query, query_keys) = query_model(&r.query, e.query.as_ref().unwrap_or(&none), a.query.as_ref().unwrap_or(&none), &mut q);
  let (eh, ah) = (e.all_headers(), a.all_headers());
  let headers = header_model(&r.header, &Some(eh.clone()), &Some(ah), &mut h);
  let body = body_model(r, true, e, a);
  let b = matches!(&body, BodyWant::At(o) if o.ambiguous);
  Want { method: !e.method.eq_ignore_ascii_case(&a.method), path: rules_fail(&r.path, &e.path, &a.path), query, query_keys, headers, header_keys: eh.keys().cloned().collect(), body, ambiguous: q || h || b }
}
fn bad_keys(m: &HashMap<String, Vec<Mismatch>>) -> BTreeSet<String> { m.iter().filter(|(_, v)| !v.is_empty()).map(|(k, _)| k.clone()).collect() }

pub fn judge_request(w: &Want, got: &RequestMatchResult) -> R {
  ensure_eq!(got.method.is_some(), w.method, "method");
  ensure_eq!(got.path.as_ref().map(|p| p.len()).unwrap_or(0), w.path, "path: {:?}", got.path);
  ensure_eq!(bad_keys(&got.query), w.query, "query parameters: {:?}", got.query);
  ensure_eq!(bad_keys(&got.headers), w.headers, "headers: {:?}", got.headers);
  let body = got.body.mismatches();
  body_agrees(&w.body, &body)?;
  ensure_eq!(got.method_or_path_mismatch(), w.method || w.path > 0, "method_or_path_mismatch");
  ensure_eq!(got.all_matched(), !w.method && w.path == 0 && w.query.is_empty() && w.headers.is_empty() && body.is_empty(), "all_matched");
  let all = got.mismatches();
  ensure_eq!(all.is_empty(), got.all_matched(), "mismatches of a request that {}", if got.all_matched() { "matches" } else { "does not match" });
  let parts: Vec<Mismatch> = got.method.iter().chain(got.path.iter().flatten()).chain(got.query.values().flatten()).chain(got.headers.values().flatten()).chain(body.iter()).cloned().collect();
  ensure_eq!(sorted(&all), sorted(&parts), "mismatches() is not what the parts report");
  let one = |bad: bool| if bad { -1i64 } else { 1 };
  let places = body.iter().map(|m| match m { Mismatch::BodyMismatch { path, .. } => path.clone(), o => format!("{:?}", o) }).collect::<BTreeSet<_>>().len() as i64;
  let score = one(w.method) + one(w.path > 0) + w.query_keys.iter().map(|k| one(w.query.contains(k))).sum::<i64>() + w.header_keys.iter().map(|k| one(w.headers.contains(k))).sum::<i64>() - places;
  ensure_eq!(got.score() as i64, score.clamp(-128, 127), "score");
  Ok(())
}
pub fn response_model(r: &Ruled, e: &Msg, a: &Msg) -> (usize, BTreeSet<String>, BodyWant, bool) {
  let mut h = false;
  let headers = header_model(&r.header, &Some(e.all_headers()), &Some(a.all_headers()), &mut h);
  let body = body_model(r, false, e, a);
  let b = matches!(&body, BodyWant::At(o) if o.ambiguous);
  (status_fail(&r.status, e.status, a.status), headers, body, h || b)
}
pub fn judge_response((status, headers, body, _): &(usize, BTreeSet<String>, BodyWant, bool), got: &[Mismatch]) -> R {
  ensure_eq!(got.iter().filter(|m| matches!(m, Mismatch::StatusMismatch { .. })).count(), *status, "status: {:?}", got);
  let hs: Vec<String> = got.iter().filter_map(|m| match m { Mismatch::HeaderMismatch { key, .. } => Some(key.to_lowercase()), _ => None }).collect();
  for n in headers { ensure!(hs.iter().any(|k| k.contains(&n.to_lowercase())), "header {} does not match, but it is not reported: {:?}", n, got); }
  for k in &hs { ensure!(headers.iter().any(|n| k.contains(&n.to_lowercase())), "header {} matches, but it is reported: {:?}", k, got); }
  let bs: Vec<Mismatch> = got.iter().filter(|m| matches!(m, Mismatch::BodyMismatch { .. } | Mismatch::BodyTypeMismatch { .. })).cloned().collect();
  body_agrees(body, &bs)?;
  ensure_eq!(got.len(), *status + hs.len() + bs.len(), "unexpected kinds of mismatches: {:?}", got);
  Ok(())
}

// ---------------------------------------------------------------- generators
pub fn msg() -> B<Msg> {
  let doc = prop_oneof![3 => doc(), 1 => big_doc()].prop_map(|d| if d.is_object() || d.is_array() { d } else { json!({"a": d}) });
  (prop::sample::select(vec!["GET", "post", "PUT"]), "/[a-c1]{0,2}(/[A-B1]{1,2})?", code(), prop::option::weighted(0.7, qmap()), hmap(), prop_oneof![6 => doc.prop_map(Body::Json), 1 => "x[ab]{0,3}".prop_map(Body::Text), 1 => Just(Body::None)], prop_oneof![3 => Just(0u8), 1 => 0u8..3])
    .prop_map(|(m, p, status, query, mut headers, body, json_type)| { headers.remove("Content-Type"); headers.retain(|_, v| !v.is_empty()); Msg { method: m.into(), path: p, status, query, headers, body, json_type } }).boxed()
}
#[derive(Clone, Debug)]
pub struct Change { method: Option<String>, path: Option<u8>, status: Option<u16>, query: Vec<(u8, QEd)>, headers: Vec<HEd>, mask: u16, body: Vec<(u16, Edit)>, other: Option<Body>, json_type: Option<u8> }
pub fn change() -> B<Change> {
  ((prop::option::weighted(0.25, prop::sample::select(vec!["get", "Post", "PATCH"])), prop::option::weighted(0.3, any::<u8>()), prop::option::weighted(0.4, code())), prop_oneof![2 => Just(vec![]), 1 => qeds()], prop_oneof![2 => Just(vec![]), 1 => heds()], any::<u16>(), prop_oneof![1 => Just(vec![]), 2 => edits(3)],
   prop::option::weighted(0.08, prop_oneof![Just(Body::None), "x[ab]{0,3}".prop_map(Body::Text), Just(Body::Json(json!({"a": 1})))]), prop::option::weighted(0.1, 0u8..3))
    .prop_map(|((m, path, status), query, headers, mask, body, other, json_type)| Change { method: m.map(|m| m.to_string()), path, status, query, headers, mask, body, other, json_type }).boxed()
}
impl Change {
  pub fn apply(&self, e: &Msg) -> Msg {
    let mut a = e.clone();
    if let Some(m) = &self.method { a.method = m.clone(); }
    if let Some(n) = self.path { a.path = format!("/{}", near_text(&a.path[1..], n)); }
    if let Some(s) = self.status { a.status = s; }
    a.query = a.query.as_ref().map(|q| qapply(q, &self.query));
    a.headers = happly(&a.headers, &self.headers, self.mask);
    a.headers.retain(|k, _| !k.eq_ignore_ascii_case("content-type"));
    if let Body::Json(v) = &a.body { a.body = Body::Json(crate::jm::apply(v, &self.body)); }
    if let Some(o) = &self.other { a.body = o.clone(); }
    if let Some(t) = self.json_type { a.json_type = t; }
    a
  }
}
type RulePicks = (Option<Rl>, Option<(Vec<St>, bool)>, Vec<(u8, u8, usize, Rl)>, Vec<(u8, u16, Rl)>, Vec<Pick>, Option<&'static str>);
pub fn rule_picks() -> B<RulePicks> {
  (prop::option::weighted(0.3, rl()), prop::option::weighted(0.4, (prop::collection::vec(st(), 1..3), any::<bool>())), prop::collection::vec((any::<u8>(), 0u8..8, 0usize..3, rl()), 0..2), prop::collection::vec((any::<u8>(), any::<u16>(), rl()), 0..2), prop::collection::vec(pick(prop_oneof![4 => size_rule(), 1 => Just(Ru::Values)].boxed()), 0..3), prop::option::weighted(0.15, prop::sample::select(vec!["json", "application/", "+", "utf-8"]))).boxed()
}
/// The rules a version of the specification can express.
pub fn ruled(p: &RulePicks, e: &Msg, version: u8) -> Ruled {
  let cut = |l: &Rl| if version == 2 { Rl { rules: vec![l.rules[0].clone()], or: false } } else { l.clone() };
  let mut r = Ruled { path: p.0.as_ref().map(cut), status: if version == 2 { None } else { p.1.clone() }, ..Ruled::default() };
  for (w, shape, i, l) in &p.2 {
    let Some(q) = &e.query else { continue };
    let Some(k) = q.keys().nth(*w as usize % q.len().max(1)) else { continue };
    let mut t = vec![Tok::F(k.clone())];
    if version == 0 { match shape { 0 => t.push(Tok::I(*i)), 1 => t.push(Tok::StarI), _ => () } }
    else if k.contains(['[', ' ']) { continue }
    r.query.push((t, cut(l)));
  }
  for (w, mask, l) in &p.3 {
    let hs = &e.headers;
    let Some(k) = hs.keys().nth(*w as usize % hs.len().max(1)) else { continue };
    r.header.push((vec![Tok::F(if version == 0 { recase(k, *mask) } else { k.clone() })], cut(l)));
  }
  if let (Some(t), Body::Json(_)) = (p.5, &e.body) { r.header.push((vec![Tok::F("Content-Type".into())], Rl { rules: vec![Ru::Include(t.into())], or: false })); }
  if let Body::Json(v) = &e.body { r.body = place(v, &p.4).into_iter().map(|(p, l)| (p, cut(&l))).collect(); }
  r
}

type I = Box<dyn Interaction + Send + Sync + RefUnwindSafe>;
pub fn p39(h: &mut H) {
  let go = |version: u8, (e, ch, rp): &(Msg, Change, RulePicks), (er, chr, rpr): &(Msg, Change, RulePicks), c: &mut Case| -> R {
    let (mut e, mut er) = (e.clone(), er.clone());
    if version != 0 { // what pact documents cannot say
      for x in [&mut e, &mut er] {
        if let Some(q) = &mut x.query { q.retain(|_, v| !v.is_empty()); if version < 4 || true { for v in q.values_mut() { for i in v.iter_mut() { *i = Some(i.clone().unwrap_or_default()); } } } if q.is_empty() { x.query = None; } }
        if version == 2 { x.headers = x.headers.iter().map(|(k, v)| (k.clone(), vec![v[0].replace(',', " ").trim().to_string()])).collect(); if let Some(q) = &mut x.query { for v in q.values_mut() { v.truncate(3); } } }
      }
    }
    let (a, ar) = (ch.apply(&e), chr.apply(&er));
    let (r, rr) = (ruled(rp, &e, version), ruled(rpr, &er, version));
    let (w, wr) = (request_model(&r, &e, &a), response_model(&rr, &er, &ar));
    let plain = Ruled::default();
    let actual = SynchronousHttp { request: a.request(&plain), response: ar.response(&plain), ..SynchronousHttp::default() };
    let (pact, expected): (Box<dyn Pact + Send + Sync + RefUnwindSafe>, I) = if version == 0 {
      let s = SynchronousHttp { request: e.request(&r), response: er.response(&rr), ..SynchronousHttp::default() };
      (Box::new(V4Pact { interactions: vec![s.boxed_v4()], ..V4Pact::default() }), s.boxed())
    } else {
      let p = load_pact_from_json("x", &pact_json(version, &e, &r, &rr, &er)).map_err(|e| e.to_string())?;
      let i = p.interactions().first().ok_or("no interaction")?.boxed();
      (p, i)
    };
    c.nontrivial(!r.body.is_empty() || !r.query.is_empty() || !r.header.is_empty() || r.path.is_some() || rr.status.is_some() || !rr.header.is_empty() || !rr.body.is_empty());
    let spec = PactSpecification::V4;
    let ctx = format!("\nexpected {:?}\nactual {:?}\nrules {:?}", e, a, r);
    let rq = wait(match_interaction_request(expected.boxed(), actual.boxed(), pact.boxed(), &spec)).map_err(|e| e.to_string())?;
    c.label(format!("request {}{}", if rq.all_matched() { "matches" } else { "does not match" }, if w.ambiguous { " (ambiguous, not judged)" } else { "" }));
    if !w.ambiguous { judge_request(&w, &rq).map_err(|m| format!("{}{}", m, ctx))?; }
    let rs = wait(match_interaction_response(expected.boxed(), actual.boxed(), pact.boxed(), &spec)).map_err(|e| e.to_string())?;
    c.label(format!("response {}{}", if rs.is_empty() { "matches" } else { "does not match" }, if wr.3 { " (ambiguous, not judged)" } else { "" }));
    if !wr.3 { judge_response(&wr, &rs).map_err(|m| format!("{}\nexpected {:?}\nactual {:?}\nrules {:?}", m, er, ar, rr))?; }
    if !w.ambiguous && !wr.3 {
      let all = wait(match_interaction(expected.boxed(), actual.boxed(), pact.boxed(), &spec)).map_err(|e| e.to_string())?;
      ensure_eq!(sorted(&all), sorted(&rq.mismatches().into_iter().chain(rs.clone()).collect::<Vec<_>>()), "match_interaction is not request and response");
      if version == 0 {
        let direct = wait(match_request(e.request(&r), a.request(&plain), &pact, &expected)).map_err(|e| e.to_string())?;
        ensure_eq!(sorted(&direct.mismatches()), sorted(&rq.mismatches()), "match_request");
        ensure_eq!(sorted(&wait(match_response(er.response(&rr), ar.response(&plain), &pact, &expected))), sorted(&rs), "match_response");
      }
      for m in &all { words(m)?; }
    }
    Ok(())
  };
  let part = || (msg(), change(), rule_picks());
  h.check("built", 12000, "there is a rule", || (part(), part()), |(x, y), c| go(0, x, y, c));
  h.check("read from version 4", 6000, "there is a rule", || (part(), part()), |(x, y), c| go(4, x, y, c));
  h.check("read from version 3", 6000, "there is a rule", || (part(), part()), |(x, y), c| go(3, x, y, c));
  h.check("read from version 2", 6000, "there is a rule", || (part(), part()), |(x, y), c| go(2, x, y, c));
  h.check("many mismatches", 300, "more than 100 places differ", || (0usize..400, 0usize..400, any::<bool>(), 0usize..200), |(n, m, hs, k), c| {
    c.nontrivial(n + m + k > 100);
    let e = Msg { method: "GET".into(), path: "/".into(), status: 200, query: Some((0..*m).map(|i| (format!("q{}", i), vec![Some("1".to_string())])).collect()), headers: (0..*k).map(|i| (format!("h{}", i), vec!["1".to_string()])).collect(), body: Body::Json(json!((0..*n).map(|i| i as u64).collect::<Vec<_>>())), json_type: 0 };
    let mut a = e.clone();
    if *hs { a.headers = Hd::new(); a.query = None; }
    a.body = Body::Json(json!((0..*n).map(|i| i as u64 + 1).collect::<Vec<_>>()));
    let s = SynchronousHttp { request: e.request(&Ruled::default()), ..SynchronousHttp::default() };
    let pact: Box<dyn Pact + Send + Sync + RefUnwindSafe> = Box::new(V4Pact { interactions: vec![s.boxed_v4()], ..V4Pact::default() });
    let rq = wait(match_request(s.request.clone(), a.request(&Ruled::default()), &pact, &s.boxed())).map_err(|e| e.to_string())?;
    judge_request(&request_model(&Ruled::default(), &e, &a), &rq)
  });
}

/// What a mismatch says about itself.
pub fn words(m: &Mismatch) -> R {
  let j = m.to_json();
  ensure_eq!(j["type"].as_str(), Some(m.mismatch_type()), "type in JSON");
  ensure!(!m.summary().is_empty() && !m.description().is_empty() && !m.ansi_description().is_empty(), "no words for {:?}", m);
  ensure_eq!(m.to_string(), m.description(), "display");
  let (e, a, name) = match m {
    Mismatch::MethodMismatch { expected, actual, .. } | Mismatch::PathMismatch { expected, actual, .. } | Mismatch::BodyTypeMismatch { expected, actual, .. } => (json!(expected), json!(actual), None),
    Mismatch::StatusMismatch { expected, actual, .. } => (json!(expected), json!(actual), None),
    Mismatch::QueryMismatch { parameter, expected, actual, .. } => (json!(expected), json!(actual), Some(("parameter", parameter))),
    Mismatch::HeaderMismatch { key, expected, actual, .. } | Mismatch::MetadataMismatch { key, expected, actual, .. } => (json!(expected), json!(actual), Some(("key", key))),
    Mismatch::BodyMismatch { path, expected, actual, .. } => { let t = |b: &Option<bytes::Bytes>| b.as_ref().map(|b| String::from_utf8_lossy(b).to_string()); (json!(t(expected)), json!(t(actual)), Some(("path", path))) }
  };
  ensure_eq!((&j["expected"], &j["actual"]), (&e, &a), "values in the JSON form of {:?}", m);
  if let Some((k, v)) = name { ensure_eq!(j[k].as_str(), Some(v.as_str()), "place in the JSON form"); }
  Ok(())
}
