//! Generation of whole requests, responses and messages.
use proptest::prelude::*;
use pvfw::{ensure, ensure_eq, H, R};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::panic::RefUnwindSafe;
use pact_matching::{generate_request, generate_response, match_interaction};
use pact_matching::generators::{apply_generators_to_async_message, apply_generators_to_sync_message, generate_message};
use pact_models::PactSpecification;
use pact_models::bodies::OptionalBody;
use pact_models::content_types::{ContentType, ContentTypeHint};
use pact_models::generators::{Generator, GeneratorCategory, Generators, GeneratorTestMode, UuidFormat};
use pact_models::http_parts::HttpPart;
use pact_models::interaction::Interaction;
use pact_models::matchingrules::{Category, MatchingRule, MatchingRuleCategory, MatchingRules, RuleList, RuleLogic};
use pact_models::message::Message;
use pact_models::pact::Pact;
use pact_models::path_exp::DocPath;
use pact_models::v4::async_message::AsynchronousMessage;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::v4::message_parts::MessageContents;
use pact_models::v4::pact::V4Pact;
use pact_models::v4::sync_message::SynchronousMessage;
use pact_models::v4::synch_http::SynchronousHttp;
use crate::bodies::wait;
use crate::g::B;
use crate::http::*;
use crate::jm::*;

/// Generators whose value is known beforehand.
#[derive(Clone, Debug)]
pub enum Gn { State(usize), Lit(String), Num(u16), Missing, Mock }
const STATES: [&str; 4] = ["one", "two", "three", "four"];
fn state(i: usize) -> Value { [json!("from state"), json!(7), json!(true), json!("1.5")][i % 4].clone() }
impl Gn {
  fn build(&self) -> Generator {
    match self { Gn::State(i) => Generator::ProviderStateGenerator(STATES[i % 4].into(), None), Gn::Lit(s) => Generator::Regex(s.clone()), Gn::Num(n) => Generator::RandomInt(*n as i32, *n as i32), Gn::Missing => Generator::ProviderStateGenerator("nowhere".into(), None), Gn::Mock => Generator::MockServerURL("http://x/p".into(), ".*(/p)$".into()) }
  }
  /// The value for a place that holds `old`, if the generator has one in this mode.
  fn value(&self, provider: bool, old: &Value) -> Option<Value> {
    match self {
      Gn::State(i) => if provider { Some(state(*i)) } else { None },
      Gn::Lit(s) => Some(json!(s)), Gn::Num(n) => Some(if old.is_string() { json!(n.to_string()) } else { json!(n) }),
      Gn::Missing => None, Gn::Mock => if provider { None } else { Some(json!("http://mock/p")) }
    }
  }
  fn text(&self, provider: bool) -> Option<String> { self.value(provider, &json!("")).map(|v| match v { Value::String(s) => s, o => o.to_string() }) }
}
fn gn() -> B<Gn> { prop_oneof![3 => (0usize..4).prop_map(Gn::State), 2 => "[a-z]{1,4}".prop_map(Gn::Lit), 2 => any::<u16>().prop_map(Gn::Num), 1 => Just(Gn::Missing), 1 => Just(Gn::Mock)].boxed() }
fn cx() -> HashMap<&'static str, Value> {
  let mut m: HashMap<&'static str, Value> = STATES.iter().enumerate().map(|(i, s)| (*s, state(i))).collect();
  m.insert("mockServer", json!({"url": "http://mock"}));
  m
}
fn mode(provider: bool) -> GeneratorTestMode { if provider { GeneratorTestMode::Provider } else { GeneratorTestMode::Consumer } }
fn key(k: &str) -> DocPath { let mut p = DocPath::root(); p.push_field(k); p }

/// Contents, how they are declared, and generators for places in them.
#[derive(Clone, Debug)]
struct Bg { doc: Value, how: u8, own: bool, hint: bool, gens: Vec<(u16, Gn)> }
const TYPES: [&str; 4] = ["application/json", "application/hal+json", "application/json;charset=utf-8", "text/plain"];
fn bg() -> B<Bg> { (prop_oneof![3 => doc(), 1 => big_doc()], prop_oneof![3 => Just(0u8), 2 => 0u8..6], any::<bool>(), any::<bool>(), prop::collection::vec((any::<u16>(), gn()), 0..4)).prop_map(|(doc, how, own, hint, gens)| Bg { doc, how, own, hint, gens }).boxed() }
impl Bg {
  fn ct(&self) -> Option<&'static str> { TYPES.get(self.how as usize).copied() }
  fn body(&self) -> OptionalBody {
    match self.how { 4 => OptionalBody::Missing, 5 => OptionalBody::Empty, _ => OptionalBody::Present(self.doc.to_string().into(), if self.own { Some(ContentType::parse(self.ct().unwrap()).unwrap()) } else { None }, if self.hint { Some(ContentTypeHint::TEXT) } else { None }) }
  }
  /// Generators at places none of which is inside another.
  fn places(&self) -> Vec<(Vec<Tok>, Gn)> {
    let ns = nodes(&self.doc);
    let mut out: Vec<(Vec<Tok>, Gn)> = vec![];
    for (w, g) in &self.gens {
      let p = &ns[*w as usize % ns.len()];
      if out.iter().any(|(q, _)| q.iter().zip(p).all(|(a, b)| a == b)) { continue; }
      out.push((p.clone(), g.clone()));
    }
    out
  }
  fn want(&self, provider: bool) -> Value {
    let mut d = self.doc.clone();
    if self.how < 3 { for (p, g) in self.places() { let at = at_mut(&mut d, &p).unwrap(); if let Some(v) = g.value(provider, at) { *at = v; } } }
    d
  }
  fn gens(&self) -> HashMap<DocPath, Generator> { self.places().iter().map(|(p, g)| (doc_path(p), g.build())).collect() }
  fn judge(&self, provider: bool, old: &OptionalBody, got: &OptionalBody) -> R {
    match (old, got) {
      (OptionalBody::Present(_, t, h), OptionalBody::Present(b, t2, h2)) => {
        let v: Value = serde_json::from_slice(b).map_err(|e| format!("the body cannot be read any more: {}", e))?;
        ensure_eq!(v, self.want(provider), "body");
        if let Some(t) = t { ensure_eq!(t2.as_ref().map(|t| t.to_string()), Some(t.to_string()), "content type of the body"); }
        ensure_eq!(h2, h, "hint about the content type");
      }
      (x, y) => ensure_eq!(y, x, "a body without contents")
    }
    Ok(())
  }
}
type Named = Vec<(String, Gn)>;
/// Generators for names, some of them there.
fn named(have: Vec<String>, picks: &[(u8, u16, Gn)], case: bool) -> Named {
  let mut out: Named = vec![];
  for (w, mask, g) in picks {
    let k = have.get(*w as usize % (have.len() + 1)).map(|k| if case { recase(k, *mask) } else { k.clone() }).unwrap_or("new".into());
    if !out.iter().any(|(o, _)| o.eq_ignore_ascii_case(&k)) { out.push((k, g.clone())); }
  }
  out
}
fn gmap(n: &Named) -> HashMap<DocPath, Generator> { n.iter().map(|(k, g)| (key(k), g.build())).collect() }
fn sets(v: Vec<(GeneratorCategory, HashMap<DocPath, Generator>)>) -> Generators { Generators { categories: v.into_iter().filter(|(_, m)| !m.is_empty()).collect() } }
fn headers_want(h: &Hd, n: &Named, provider: bool) -> Hd {
  let mut h = h.clone();
  for (k, g) in n { if let Some(v) = g.text(provider) { let k = h.keys().find(|x| x.eq_ignore_ascii_case(k)).cloned().unwrap_or(k.clone()); h.insert(k, vec![v]); } }
  h
}
fn heads(h: &Hd) -> Option<HashMap<String, Vec<String>>> { if h.is_empty() { None } else { Some(h.clone().into_iter().collect()) } }
fn back(h: &Option<HashMap<String, Vec<String>>>) -> Hd { h.clone().unwrap_or_default().into_iter().collect() }

pub fn p41(h: &mut H) {
  let picks = || prop::collection::vec((any::<u8>(), prop_oneof![1 => Just(0u16), 1 => any::<u16>()], gn()), 0..3);
  let hm = || hmap().prop_map(|mut h| { h.remove("Content-Type"); h });
  h.check("requests", 20000, "something changes", move || (("/[a-z]{0,3}", prop::option::of(gn())), (hm(), picks()), (prop::option::of(qmap()), picks()), bg(), any::<bool>()), |((path, pg), (hs, hp), (q, qp), b, provider), c| {
    let mut hs = hs.clone();
    if let (Some(t), false) = (b.ct(), b.own) { hs.insert("Content-Type".into(), vec![t.into()]); }
    let hg = named(hs.keys().filter(|k| *k != "Content-Type").cloned().collect(), hp, true);
    let none = Q::new();
    let q0 = q.as_ref().unwrap_or(&none);
    let qg = named(q0.keys().cloned().collect(), qp, false);
    let r = HttpRequest { method: "PUT".into(), path: path.clone(), query: q.as_ref().map(|q| q.clone().into_iter().collect()), headers: heads(&hs), body: b.body(),
      generators: sets(vec![(GeneratorCategory::PATH, pg.iter().map(|g| (DocPath::empty(), g.build())).collect()), (GeneratorCategory::HEADER, gmap(&hg)), (GeneratorCategory::QUERY, gmap(&qg)), (GeneratorCategory::BODY, b.gens())]), ..HttpRequest::default() };
    let got = wait(generate_request(&r, &mode(*provider), &cx()));
    c.nontrivial(got != r);
    let what = || format!("\n{:?}\ngave {:?}", r, got);
    ensure_eq!(got.path, pg.as_ref().and_then(|g| g.text(*provider)).unwrap_or(path.clone()), "path{}", what());
    ensure_eq!(back(&got.headers), headers_want(&hs, &hg, *provider), "headers{}", what());
    let mut want = q0.clone();
    for (k, g) in &qg { if let Some(v) = g.text(*provider) { match want.get_mut(k) { Some(l) => for x in l.iter_mut() { *x = Some(v.clone()); }, None => { want.insert(k.clone(), vec![Some(v)]); } } } }
    ensure_eq!(got.query.clone().unwrap_or_default().into_iter().collect::<Q>(), want, "query{}", what());
    b.judge(*provider, &r.body, &got.body).map_err(|m| m + &what())?;
    ensure_eq!(got.content_type().map(|t| t.to_string()), r.content_type().map(|t| t.to_string()), "content type of the request{}", what());
    ensure_eq!((&got.method, &got.matching_rules, &got.generators), (&r.method, &r.matching_rules, &r.generators), "the rest of the request");
    Ok(())
  });
  h.check("responses", 15000, "something changes", move || ((100u16..600, prop::option::of(prop_oneof![2 => (100u16..600).prop_map(Gn::Num), 1 => Just(Gn::State(1)), 1 => Just(Gn::Missing)])), (hm(), picks()), bg(), any::<bool>()), |((status, sg), (hs, hp), b, provider), c| {
    let mut hs = hs.clone();
    if let (Some(t), false) = (b.ct(), b.own) { hs.insert("Content-Type".into(), vec![t.into()]); }
    let hg = named(hs.keys().filter(|k| *k != "Content-Type").cloned().collect(), hp, true);
    let r = HttpResponse { status: *status, headers: heads(&hs), body: b.body(), generators: sets(vec![(GeneratorCategory::STATUS, sg.iter().map(|g| (DocPath::empty(), g.build())).collect()), (GeneratorCategory::HEADER, gmap(&hg)), (GeneratorCategory::BODY, b.gens())]), ..HttpResponse::default() };
    let got = wait(generate_response(&r, &mode(*provider), &cx()));
    c.nontrivial(got != r);
    let what = || format!("\n{:?}\ngave {:?}", r, got);
    ensure_eq!(got.status, sg.as_ref().and_then(|g| g.value(*provider, &json!(0))).and_then(|v| v.as_u64()).map(|n| n as u16).unwrap_or(*status), "status{}", what());
    ensure_eq!(back(&got.headers), headers_want(&hs, &hg, *provider), "headers{}", what());
    b.judge(*provider, &r.body, &got.body).map_err(|m| m + &what())?;
    ensure_eq!(got.content_type().map(|t| t.to_string()), r.content_type().map(|t| t.to_string()), "content type of the response{}", what());
    ensure_eq!((&got.matching_rules, &got.generators), (&r.matching_rules, &r.generators), "the rest of the response");
    Ok(())
  });
  let meta = || prop::collection::btree_map("[a-c]|Key", scalar(), 0..3);
  let part = move || (bg(), meta(), picks());
  type Part = (Bg, BTreeMap<String, Value>, Vec<(u8, u16, Gn)>);
  fn make((b, m, p): &Part) -> (MessageContents, Named) {
    let mut m = m.clone();
    let ng = named(m.keys().cloned().collect(), p, false);
    if let (Some(t), false) = (b.ct(), b.own) { m.insert("contentType".into(), json!(t)); }
    (MessageContents { contents: b.body(), metadata: m.into_iter().collect(), generators: sets(vec![(GeneratorCategory::METADATA, gmap(&ng)), (GeneratorCategory::BODY, b.gens())]), ..MessageContents::default() }, ng)
  }
  fn judge((b, _, _): &Part, old: &MessageContents, ng: &Named, provider: bool, got: &MessageContents) -> R {
    let what = || format!("\n{:?}\ngave {:?}", old, got);
    let mut want = old.metadata.clone();
    for (k, g) in ng { if let Some(v) = g.value(provider, old.metadata.get(k).unwrap_or(&Value::Null)) { want.insert(k.clone(), v); } }
    ensure_eq!(got.metadata, want, "metadata{}", what());
    b.judge(provider, &old.contents, &got.contents).map_err(|m| m + &what())?;
    ensure_eq!(got.message_content_type().map(|t| t.to_string()), old.message_content_type().map(|t| t.to_string()), "content type of the message{}", what());
    Ok(())
  }
  h.check("messages", 15000, "something changes", move || (part(), any::<bool>()), |(p, provider), c| {
    let (m, ng) = make(p);
    let v3 = Message { contents: m.contents.clone(), metadata: m.metadata.clone(), generators: m.generators.clone(), ..Message::default() };
    let got = wait(generate_message(&v3, &mode(*provider), &cx(), &vec![], &HashMap::new()));
    c.nontrivial(got != v3);
    judge(p, &m, &ng, *provider, &got.as_message_content())?;
    let a = AsynchronousMessage { contents: m.clone(), ..AsynchronousMessage::default() };
    let got = wait(apply_generators_to_async_message(&a, &mode(*provider), &cx(), &vec![], &HashMap::new()));
    judge(p, &m, &ng, *provider, &got)
  });
  h.check("synchronous messages", 8000, "there are responses", move || (part(), prop::collection::vec(part(), 0..3), any::<bool>()), |(rq, rs, provider), c| {
    c.nontrivial(!rs.is_empty());
    let (m, ng) = make(rq);
    let made: Vec<(MessageContents, Named)> = rs.iter().map(make).collect();
    let s = SynchronousMessage { request: m.clone(), response: made.iter().map(|(m, _)| m.clone()).collect(), ..SynchronousMessage::default() };
    let (q, r) = wait(apply_generators_to_sync_message(&s, &mode(*provider), &cx(), &vec![], &HashMap::new()));
    judge(rq, &m, &ng, *provider, &q)?;
    ensure_eq!(r.len(), rs.len(), "responses");
    for ((p, (m, ng)), got) in rs.iter().zip(&made).zip(&r) { judge(p, m, ng, *provider, got)?; }
    Ok(())
  });
  // what is generated satisfies the rule that goes with the generator
  h.check("generated values match", 15000, "there are three generators", move || (big_doc(), prop::collection::vec((any::<u16>(), 0u8..12, any::<bool>()), 1..7), (0u8..12, 0u8..12, 0u8..12), prop::option::of(qmap().prop_map(|mut q| { q.retain(|_, v| !v.is_empty()); q })), hm()), |(d, specs, (pk, hk, qk), q, hs), c| {
    let d = if d.is_object() || d.is_array() { d.clone() } else { json!([d]) };
    let ns = nodes(&d);
    let (mut rules, mut gens) = (HashMap::new(), HashMap::new());
    let mut used: Vec<Vec<Tok>> = vec![];
    for (w, kind, wild) in specs {
      let mut p = ns[*w as usize % ns.len()].clone();
      let mut copy = d.clone();
      if p.is_empty() || matches!(at_mut(&mut copy, &p), Some(Value::Array(_) | Value::Object(_))) { continue; }
      let kind_of = |v: &Value| match v { Value::Number(_) => 0, Value::String(_) => 1, Value::Bool(_) => 2, Value::Null => 3, _ => 4 };
      let k = kind_of(at_mut(&mut copy, &p).unwrap());
      if *wild { if let Some(Tok::I(_)) = p.last() {
        let parent = p[..p.len() - 1].to_vec();
        if let Some(Value::Array(l)) = at_mut(&mut copy, &parent) { if l.iter().any(|x| kind_of(x) != k) { continue; } }
        let l = p.len(); p[l - 1] = Tok::StarI;
      } }
      let clash = |a: &[Tok], b: &[Tok]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || matches!((x, y), (Tok::StarI, _) | (_, Tok::StarI)));
      if used.iter().any(|u| clash(u, &p)) { continue; }
      // the generators keep numbers and texts apart as the example has them
      let (r, g) = pair(match k { 0 => kind % 3, 1 => 3 + kind % 9, 2 => 6, _ => continue });
      rules.insert(doc_path(&p), RuleList { rules: vec![r], rule_logic: RuleLogic::And, cascaded: false });
      gens.insert(doc_path(&p), g);
      used.push(p);
    }
    c.nontrivial(gens.len() >= 3);
    let one = |r: MatchingRule| RuleList { rules: vec![r], rule_logic: RuleLogic::And, cascaded: false };
    let (text_kinds, mut mr, mut gs) = ([0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11], MatchingRules::default(), vec![]);
    let tk = |k: u8| text_kinds[k as usize % text_kinds.len()];
    let (r, g) = pair(tk(*pk));
    mr.rules.insert(Category::PATH, MatchingRuleCategory { name: Category::PATH, rules: HashMap::from([(DocPath::empty(), one(r))]) }); gs.push((GeneratorCategory::PATH, HashMap::from([(DocPath::empty(), g)])));
    if let Some(k) = hs.iter().filter(|(_, v)| !v.is_empty()).map(|(k, _)| k).next() { let (r, g) = pair(tk(*hk)); mr.rules.insert(Category::HEADER, MatchingRuleCategory { name: Category::HEADER, rules: HashMap::from([(key(k), one(r))]) }); gs.push((GeneratorCategory::HEADER, HashMap::from([(key(k), g)]))); }
    if let Some(k) = q.iter().flatten().map(|(k, _)| k).next() { let (r, g) = pair(tk(*qk)); mr.rules.insert(Category::QUERY, MatchingRuleCategory { name: Category::QUERY, rules: HashMap::from([(key(k), one(r))]) }); gs.push((GeneratorCategory::QUERY, HashMap::from([(key(k), g)]))); }
    mr.rules.insert(Category::BODY, MatchingRuleCategory { name: Category::BODY, rules });
    gs.push((GeneratorCategory::BODY, gens));
    let mut hs = hs.clone();
    hs.insert("Content-Type".into(), vec!["application/json".into()]);
    let rq = HttpRequest { path: "/a".into(), headers: heads(&hs), query: q.as_ref().map(|q| q.clone().into_iter().collect()), body: OptionalBody::Present(d.to_string().into(), None, None), matching_rules: mr.clone(), generators: sets(gs), ..HttpRequest::default() };
    let rs = HttpResponse { headers: rq.headers.clone(), body: rq.body.clone(), matching_rules: mr, generators: rq.generators.clone(), ..HttpResponse::default() };
    for provider in [true, false] {
      let a = SynchronousHttp { request: wait(generate_request(&rq, &mode(provider), &cx())), response: wait(generate_response(&rs, &mode(provider), &cx())), ..SynchronousHttp::default() };
      let e = SynchronousHttp { request: rq.clone(), response: rs.clone(), ..SynchronousHttp::default() };
      let got = wait(match_interaction(e.boxed(), a.boxed(), Box::new(V4Pact::default()) as Box<dyn Pact + Send + Sync + RefUnwindSafe>, &PactSpecification::V4)).map_err(|e| e.to_string())?;
      ensure!(got.is_empty(), "what was generated does not match: {:?}\nexpected {:?}\ngenerated {:?}", got, e, a);
    }
    Ok(())
  });
}
/// A rule and a generator for its values.
fn pair(kind: u8) -> (MatchingRule, Generator) {
  match kind {
    0 => (MatchingRule::Integer, Generator::RandomInt(-100, 100000)), 1 => (MatchingRule::Number, Generator::RandomInt(0, 5)), 2 => (MatchingRule::Decimal, Generator::RandomDecimal(6)),
    3 => (MatchingRule::Regex("[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}".into()), Generator::Uuid(Some(UuidFormat::LowerCaseHyphenated))),
    4 => (MatchingRule::Regex("[0-9A-Fa-f]{5}".into()), Generator::RandomHexadecimal(5)), 5 => (MatchingRule::Regex("[a-z]{2}[0-9]{1,3}x?".into()), Generator::Regex("[a-z]{2}[0-9]{1,3}x?".into())),
    6 => (MatchingRule::Boolean, Generator::RandomBoolean), 7 => (MatchingRule::Date("yyyy-MM-dd".into()), Generator::Date(Some("yyyy-MM-dd".into()), None)), 8 => (MatchingRule::Time("HH:mm:ss".into()), Generator::Time(Some("HH:mm:ss".into()), None)),
    9 => (MatchingRule::Timestamp("yyyy-MM-dd'T'HH:mm:ss".into()), Generator::DateTime(Some("yyyy-MM-dd'T'HH:mm:ss".into()), None)), 10 => (MatchingRule::NotEmpty, Generator::RandomString(3)), _ => (MatchingRule::Regex("[0-9]+".into()), Generator::RandomInt(3, 9))
  }
}

