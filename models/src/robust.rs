//! P25 malformed input, P26 deep merging and plain JSON readings, P27 format verification.
use std::collections::{BTreeMap, HashMap};
use proptest::prelude::*;
use pact_models::{Consumer, PactSpecification, Provider};
use pact_models::bodies::OptionalBody;
use pact_models::content_types::ContentType;
use pact_models::expression_parser::{contains_expressions, parse_expression, MapValueResolver};
use pact_models::generators::{generators_from_json, generate_value_from_context, Generator};
use pact_models::generators::datetime_expressions::{execute_date_expression, execute_datetime_expression, execute_time_expression};
use pact_models::headers::parse_header;
use pact_models::interaction::{http_interaction_from_json, message_interaction_from_json, Interaction};
use pact_models::json_utils::*;
use pact_models::matchingrules::{matchers_from_json, MatchingRule};
use pact_models::matchingrules::expressions::{is_matcher_def, parse_matcher_def};
use pact_models::message_pact::MessagePact;
use pact_models::pact::{determine_spec_version, load_pact_from_json, parse_meta_data, Pact, ReadWritePact};
use pact_models::path_exp::DocPath;
use pact_models::plugins::PluginData;
use pact_models::provider_states::ProviderState;
use pact_models::query_strings::*;
use pact_models::request::Request;
use pact_models::response::Response;
use pact_models::sync_interaction::RequestResponseInteraction;
use pact_models::sync_pact::RequestResponsePact;
use pact_models::time_utils::{generate_string, parse_pattern, to_chrono_pattern, validate_datetime};
use pact_models::v4::interaction::interaction_from_json;
use pact_models::v4::pact::V4Pact;
use pact_models::verify_json::{json_type_of, PactJsonVerifier, ResultLevel};
use pvfw::{ensure, ensure_eq, H};
use serde_json::{json, Map, Value};

use crate::g::*;
use crate::legacy::*;
use crate::pacts::*;
use crate::rules::*;

type V = PactSpecification;
const VERSIONS: [V; 6] = [V::Unknown, V::V1, V::V1_1, V::V2, V::V3, V::V4];

// ---------------------------------------------------------------- P25

/// A change to one node of a document.
#[derive(Clone, Debug)]
enum Change { Set(Value), Remove, Copy(prop::sample::Index), Rename(String), Text(String), Wrap }
fn change() -> B<Change> {
  let odd = prop::sample::select(vec![json!(null), json!(true), json!(0), json!(-1), json!(1e300), json!(u64::MAX), json!(i64::MIN), json!(1.5), json!(""), json!("x"), json!([]), json!([null]), json!([[]]), json!([""]), json!({}), json!({"": null}), json!({"match": null}), json!({"type": 1}), json!([{}])]);
  prop_oneof![5 => odd.prop_map(Change::Set), 2 => json_value().prop_map(Change::Set), 3 => Just(Change::Remove), 3 => any::<prop::sample::Index>().prop_map(Change::Copy), 2 => field().prop_map(Change::Rename),
    1 => prop::sample::select(vec!["", "match", "matchers", "generators", "type", "combine", "body", "content", "contentType", "encoded", "metadata", "contents", "pactSpecification", "interactions", "messages", "variants", "rules", "values", "min", "max", "expression", "format", "providerState"]).prop_map(|s| Change::Rename(s.to_string())),
    3 => text().prop_map(Change::Text), 1 => special().prop_map(Change::Text), 1 => Just(Change::Wrap)].boxed()
}
fn pointers(v: &Value, at: &str, out: &mut Vec<String>) {
  out.push(at.to_string());
  match v {
    Value::Array(a) => for (i, x) in a.iter().enumerate() { pointers(x, &format!("{}/{}", at, i), out) },
    Value::Object(m) => for (k, x) in m { pointers(x, &format!("{}/{}", at, k.replace('~', "~0").replace('/', "~1")), out) },
    _ => {}
  }
}
fn apply(doc: &mut Value, at: &prop::sample::Index, ch: &Change) {
  let mut all = vec![];
  pointers(doc, "", &mut all);
  let p = at.get(&all).clone();
  let target = doc.pointer(&p).cloned().unwrap();
  let parent = p.rfind('/').map(|i| (p[..i].to_string(), p[i + 1..].replace("~1", "/").replace("~0", "~")));
  let new = match ch {
    Change::Set(v) => v.clone(), Change::Copy(i) => doc.pointer(&all[i.index(all.len())]).cloned().unwrap(), Change::Wrap => json!([target]),
    Change::Text(s) => match &target { Value::String(t) => json!(format!("{}{}", t, s)), _ => json!(s) },
    Change::Remove | Change::Rename(_) => {
      if let Some((pp, key)) = parent {
        match doc.pointer_mut(&pp).unwrap() {
          Value::Array(a) => { a.remove(key.parse().unwrap()); }
          Value::Object(m) => { let v = m.remove(&key); if let (Change::Rename(n), Some(v)) = (ch, v) { m.insert(n.clone(), v); } }
          _ => {}
        }
      }
      return;
    }
  };
  if let Some(x) = doc.pointer_mut(&p) { *x = new; }
}
fn documents() -> B<(Value, &'static str)> {
  prop_oneof![
    1 => prop::sample::select(vec![V::V1, V::V1_1, V::V2]).prop_flat_map(|v| pact3(rr3(true)).prop_map(move |p| (p.json(v), "V1/V2"))),
    2 => pact3(rr3(false)).prop_map(|p| (p.json(V::V3), "V3 HTTP")), 2 => pact3(msg3()).prop_map(|p| (p.json(), "V3 messages")), 4 => pspec().prop_map(|p| (p.json(), "V4")),
  ].boxed()
}
fn touch(i: &dyn Interaction) {
  let _ = (i.type_of(), i.is_request_response(), i.is_message(), i.id(), i.description(), i.provider_states(), i.contents_for_verification(), i.is_v4(), i.matching_rules(), i.pending());
  let _ = (i.as_request_response(), i.as_message(), i.as_v4_http(), i.as_v4_async_message(), i.as_v4_sync_message());
  if let Some(v) = i.as_v4() { let _ = (v.to_json(), v.with_unique_key().key(), v.comments(), v.plugin_config(), v.interaction_markup()); }
}
/// Everything one does with a loaded pact.
fn exercise(p: &dyn Pact) {
  for v in VERSIONS { let _ = p.to_json(v); }
  let _ = (p.consumer(), p.provider(), p.metadata(), p.plugin_data(), p.requires_plugins(), p.specification_version());
  for i in p.interactions() { touch(i.as_ref()); }
  if let Ok(q) = p.as_request_response_pact() { let _ = (q.to_json(V::V3), q.to_json(V::V2), q.default_file_name()); let _ = q.merge(p); }
  if let Ok(q) = p.as_message_pact() { let _ = (q.to_json(V::V3), q.default_file_name()); let _ = q.merge(p); }
  if let Ok(q) = p.as_v4_pact() { let _ = (q.to_json(V::V4), q.default_file_name()); let _ = q.merge(p); }
}
fn broken_text() -> B<String> {
  let words = prop::sample::select(vec!["$", "$.", ".a", "[", "]", "['", "']", "[0]", "[*]", "*", "\\", "'", "\"", "${", "}", "$${", "a", "b:c", "é", "日", "\u{301}", "😀", " ", "  ", "\t", "\n", "%", "%2", "%C3", "%28", "+", "&", "=", ",", ";", "/", "-", "--", ":", "::", "1", "99999999999999999999", "-9223372036854775808",
    "0", "1.5", "1e999", "yyyy", "MM", "dd", "HH", "mm", "ss", "SSS", "SSSSSSSSSSSS", "XXX", "Z", "VV", "a", "G", "EEE", "'T'", "{", "#", "now", "today", "+ 1 day", "- 2 months", "next monday", "@", "@ noon", "@ 12 o'clock am", "matching(", "type,", "eachKey(", "eachValue(", "atLeast(", ")", "'x'", "notEmpty(", "fromProviderState(",
    "application/json", "text/plain;charset=", "image/", "multipart/form-data; boundary=", "<", "</a>", "<a>", "<?xml", "<!--", "&amp;", "&#x0;", "{\"a\":", "}", "[1,", "]", "null", "true", "\u{0}", "\u{feff}", "\u{7f}", "=?utf-8?", "Date", "Set-Cookie"]);
  prop_oneof![3 => prop::collection::vec(words, 0..8).prop_map(|w| w.concat()), 1 => text(), 1 => any::<String>()].boxed()
}

pub fn p25(h: &mut H) {
  h.assume("Memory is not bounded: texts that ask for a generated value of a huge length are left out. A matching definition that refers to another attribute is resolved before it is written: the code insists on it.");
  h.check("documents", 6_000, "pact documents of every version with one to four nodes replaced, removed, renamed, copied elsewhere or changed: loading gives a pact or an error, and whatever is loaded converts, merges and writes; non-trivial: the changed document still loads with an interaction",
    || (documents(), prop::collection::vec((any::<prop::sample::Index>(), change()), 1..5)), |((doc, kind), changes), c| {
    let mut doc = doc.clone();
    for (at, ch) in changes { apply(&mut doc, at, ch); }
    c.label(*kind);
    for strict in [true, false] { for v in [V::V1, V::V3, V::V4] {
      let _ = (RequestResponsePact::verify_json("/", &doc, strict, v), MessagePact::verify_json("/", &doc, strict, v), V4Pact::verify_json("/", &doc, strict, v));
    } }
    let _ = determine_spec_version("x", &parse_meta_data(&doc));
    match load_pact_from_json("x", &doc) { Ok(p) => { c.nontrivial(!p.interactions().is_empty()); exercise(p.as_ref()); } Err(_) => c.label("rejected") }
    for p in [RequestResponsePact::from_json(&"x".to_string(), &doc).map(|p| Box::new(p) as Box<dyn Pact>), MessagePact::from_json(&"x".to_string(), &doc).map(|p| Box::new(p) as Box<dyn Pact>), V4Pact::pact_from_json(&doc, "x").map(|p| Box::new(p) as Box<dyn Pact>)].into_iter().flatten() { exercise(p.as_ref()); }
    for list in ["interactions", "messages"] { if let Some(Value::Array(a)) = doc.get(list) { for i in a {
      if let Ok(i) = interaction_from_json("x", 0, i) { touch(i.as_ref()); }
      for v in VERSIONS {
        if let Ok(i) = http_interaction_from_json("x", i, &v) { touch(i.as_ref()); }
        if let Ok(i) = message_interaction_from_json("x", i, &v) { touch(i.as_ref()); }
        if let Ok(i) = RequestResponseInteraction::from_json(0, i, &v) { touch(&i); }
      }
    } } }
    Ok(())
  });
  h.check("parts", 3_000, "broken requests, responses, rules, generators, queries, headers and provider states; non-trivial: something is changed below the top", || {
    let part = prop_oneof![req().prop_map(|r| r.json()), res().prop_map(|r| r.json()), rr3(false).prop_map(|i| i.json(V::V3)["request"].clone()), rr3(true).prop_map(|i| i.json(V::V2)["request"].clone()), rules_spec(ALL_CATS, rule()).prop_map(|r| json!({"matchingRules": r.json()})), gens_spec(ALL_GCATS).prop_map(|r| json!({"generators": r.json()}))];
    (part, prop::collection::vec((any::<prop::sample::Index>(), change()), 1..4)) }, |(doc, changes), c| {
    let mut doc = doc.clone();
    for (at, ch) in changes { apply(&mut doc, at, ch); }
    c.nontrivial(doc.is_object());
    for v in VERSIONS {
      if let Ok(r) = Request::from_json(&doc, &v) { for w in VERSIONS { let _ = r.to_json(&w); } }
      if let Ok(r) = Response::from_json(&doc, &v) { for w in VERSIONS { let _ = r.to_json(&w); } }
      let _ = query_from_json(doc.get("query").unwrap_or(&doc), &v);
      if let Some(q) = v3_query_from_json(doc.get("query").unwrap_or(&doc), &v) { let _ = (query_to_json(q.clone(), &v), build_query_string(q)); }
    }
    if let Ok(m) = matchers_from_json(&doc, &None) { for v in VERSIONS { let _ = pact_models::matchingrules::matchers_to_json(&m, &v); } let _ = m.clone(); }
    if let Ok(g) = generators_from_json(&doc) { for v in VERSIONS { let _ = pact_models::generators::generators_to_json(&g, &v); } }
    if let Some(h) = headers_from_json(&doc) { let _ = headers_to_json(&h); }
    let _ = ProviderState::from_json(&doc);
    let mut all = vec![];
    pointers(&doc, "", &mut all);
    for p in all {
      let v = doc.pointer(&p).unwrap();
      if let Ok(r) = MatchingRule::from_json(v) { let _ = (r.to_json(), r.name(), r.values(), r.has_generators(), r.generators()); }
      if let Value::Object(m) = v { for t in ["RandomInt", "Uuid", "RandomDecimal", "RandomHexadecimal", "RandomString", "Regex", "Date", "Time", "DateTime", "RandomBoolean", "ProviderState", "MockServerURL", "ArrayContains", "x"] {
        if let Some(g) = Generator::from_map(t, m) { let _ = (g.to_json(), g.name(), g.values()); }
      } for t in ["equality", "regex", "type", "number", "min", "max", "timestamp", "datetime", "date", "time", "null", "include", "decimal", "boolean", "contentType", "content-type", "arrayContains", "array-contains", "values", "statusCode", "status-code", "notEmpty", "not-empty", "semver", "eachKey", "each-key", "eachValue", "each-value", "x"] {
        if let Ok(r) = MatchingRule::create(t, v) { let _ = (r.to_json(), r.name(), r.values(), r.generators()); }
      } }
    }
    Ok(())
  });
  h.check("definitions", 10_000, "matching definitions, whole and with characters removed or added: what is read can be written, named and merged; non-trivial: it is read", || (crate::exprs::definition(), prop::option::of((any::<prop::sample::Index>(), "[(),'$\\\\a-zé0-9.]{0,2}"))), |(d, m), c| {
    let mut cs: Vec<char> = d.chars().collect();
    if let Some((at, with)) = m { let i = at.index(cs.len()); cs.splice(i..i + 1, with.chars()); }
    let s: String = cs.into_iter().collect();
    let _ = is_matcher_def(&s);
    let Ok(d) = parse_matcher_def(&s) else { return Ok(()) };
    c.nontrivial(true);
    let _ = d.merge(&d);
    if s.contains('$') && format!("{:?}", d).contains("MatchingReference") { c.label("refers"); return Ok(()) }
    for r in d.rules.iter().filter_map(|r| r.clone().left()) { let _ = (r.name(), r.values(), r.to_json(), r.has_generators(), r.generators()); }
    Ok(())
  });
  h.check("texts", 40_000, "arbitrary and almost valid texts given to every parser of the library; non-trivial: one of them accepts", || (broken_text(), broken_text()), |(s, t), c| {
    let dt = chrono::DateTime::parse_from_rfc3339("2024-02-29T23:59:59+11:00").unwrap();
    let mut ok = 0;
    if let Ok(p) = DocPath::new(s) { ok += 1; let _ = (p.to_string(), p.clone().join(t.as_str()), p.matches_path_exactly(&["$", t]), p.path_weight(&["$", s, t]), p.first_field(), p.last_field(), p.parent(), p.is_wildcard(), p.as_json_pointer());
      let _ = resolve_path(&json!({"a": [1, {"b": null}], s.as_str(): {t.as_str(): 1}}), &p); }
    if decode_query(s).is_ok() { ok += 1; }
    let _ = encode_query(s);
    if let Some(q) = parse_query_string(s) { let _ = build_query_string(q); }
    let _ = (parse_header(t, s), parse_header("date", s), parse_header("accept", s));
    if let Ok(ct) = ContentType::parse(s.as_str()) { ok += 1; let _ = (ct.to_string(), ct.base_type(), ct.is_json(), ct.is_xml(), ct.is_text(), ct.is_binary(), ct.is_unknown(), ct.is_equivalent_to(&ContentType::parse(t.as_str()).unwrap_or_default())); }
    let _ = (pact_models::content_types::detect_content_type_from_string(s), pact_models::content_types::detect_content_type_from_bytes(s.as_bytes()));
    ok += execute_date_expression(&dt, s).is_ok() as u8 + execute_time_expression(&dt, s).is_ok() as u8 + execute_datetime_expression(&dt, s).is_ok() as u8;
    if let Ok(p) = parse_pattern(s) { ok += 1; let _ = (to_chrono_pattern(&p), generate_string(s)); }
    let _ = validate_datetime(t, s);
    ok += parse_matcher_def(s).is_ok() as u8;
    let _ = is_matcher_def(s);
    let ctx: HashMap<&str, Value> = [("a", json!(t)), ("b:c", json!([1]))].into_iter().collect();
    let _ = (contains_expressions(s), parse_expression(s, &MapValueResolver { context: ctx.clone() }), generate_value_from_context(s, &ctx, &None));
    let _ = (s.parse::<ContentType>(), PactSpecification::parse_version(s).is_ok(), PactSpecification::from(s.as_str()));
    let _ = pact_models::xml_utils::parse_bytes(s.as_bytes());
    let body = OptionalBody::Present(s.clone().into(), ContentType::parse(t.as_str()).ok(), None);
    let _ = (body.to_v4_json(), body.display_string(), body.content_type(), body.str_value());
    if let Ok(v) = serde_json::from_str::<Value>(s) { ok += 1; let _ = load_pact_from_json(t, &v); }
    c.nontrivial(ok > 0);
    Ok(())
  });
}

// ---------------------------------------------------------------- P26

/// Where two documents meet: objects merge by key, lists are joined, anything else is replaced.
fn merged(a: &Value, b: &Value) -> Value {
  if let (Some(x), Some(y)) = (a.as_array(), b.as_array()) { return Value::Array([x.as_slice(), y.as_slice()].concat()) }
  let (Some(x), Some(y)) = (a.as_object(), b.as_object()) else { return b.clone() };
  let mut keys: Vec<&String> = x.keys().chain(y.keys()).collect();
  keys.sort(); keys.dedup();
  Value::Object(keys.into_iter().map(|k| (k.clone(), match (x.get(k), y.get(k)) { (Some(p), Some(q)) => merged(p, q), (p, q) => p.or(q).unwrap().clone() })).collect())
}
fn alike() -> B<Value> {
  let leaf = prop_oneof![Just(Value::Null), any::<bool>().prop_map(Value::Bool), (0i64..3).prop_map(|n| json!(n)), "[ab]{0,1}".prop_map(|s| json!(s))];
  leaf.prop_recursive(4, 24, 4, |i| prop_oneof![1 => prop::collection::vec(i.clone(), 0..4).prop_map(Value::Array), 3 => prop::collection::btree_map("[abc]", i, 0..4).prop_map(|m| json!(m))]).boxed()
}

pub fn p26(h: &mut H) {
  h.check("merge", 60_000, "pairs of documents over few names, so that they meet at every depth; non-trivial: two objects share a name", || (prop_oneof![4 => alike(), 1 => json_value()], prop_oneof![4 => alike(), 1 => json_value()], alike()), |(a, b, d), c| {
    c.nontrivial(matches!((a.as_object(), b.as_object()), (Some(x), Some(y)) if x.keys().any(|k| y.contains_key(k))));
    ensure_eq!(json_deep_merge(a, b), merged(a, b), "merging {} into {}", b, a);
    ensure_eq!(json_deep_merge(&json!({}), &json!({"x": a})), json!({"x": a}), "merging into nothing");
    if let (true, true, true) = (a.is_object(), b.is_object(), d.is_object()) {
      ensure_eq!(json_deep_merge(a, &json!({})), a.clone(), "merging nothing into {}", a);
      // a later value replaces an earlier one of another type, so that the order of merging only matters between such
      let (l, r) = (json_deep_merge(&json_deep_merge(a, b), d), json_deep_merge(a, &json_deep_merge(b, d)));
      if !clash(a, b) && !clash(b, d) && !clash(a, d) { ensure_eq!(l, r, "merging {}, {} and {} in two orders", a, b, d); c.label("associative"); }
    }
    Ok(())
  });
  h.check("plugin_data", 20_000, "configurations of plugins merged one after another, and through JSON; non-trivial: a name is given twice", || (prop_oneof![ident(), text()], "[0-9.]{1,5}", prop::collection::vec(prop::collection::btree_map("[abc]", alike(), 0..4), 1..4)), |(name, version, configs), c| {
    let mut p = PluginData { name: name.clone(), version: version.clone(), configuration: HashMap::new() };
    let mut want = json!({});
    for cfg in configs {
      c.nontrivial(cfg.keys().any(|k| want.get(k).is_some()));
      p.merge(&cfg.clone().into_iter().collect());
      want = merged(&want, &json!(cfg));
    }
    ensure_eq!(json!(p.configuration), want, "configuration");
    let j = p.to_json().map_err(|e| e.to_string())?;
    ensure_eq!(j, json!({"name": name, "version": version, "configuration": want}), "JSON form");
    ensure_eq!(serde_json::from_value::<PluginData>(j).map_err(|e| e.to_string())?, p, "read back");
    Ok(())
  });
  h.check("readings", 40_000, "JSON values read as text, as a count and as numbers of 16 and 32 bits; non-trivial: a number", || prop_oneof![2 => json_value(), 2 => prop_oneof![any::<i64>().prop_map(|n| json!(n)), any::<u64>().prop_map(|n| json!(n)), (0u64..70000).prop_map(|n| json!(n)), (-10i64..10).prop_map(|n| json!(n)), prop::sample::select(vec![json!(1e300), json!(-1e300), json!(65535), json!(65536), json!(2147483647), json!(2147483648i64), json!(-2147483649i64)])], 1 => "-?[0-9]{1,22}".prop_map(|s| json!(s))], |v, c| {
    c.nontrivial(v.is_number());
    let want = match v { Value::String(s) => s.clone(), Value::Null => String::new(), v => v.to_string() };
    ensure_eq!(json_to_string(v), want, "{} as text", v);
    ensure_eq!(get_field_as_string("x", json!({"x": v}).as_object().unwrap()), Some(want), "field as text");
    let m = json!({"x": v});
    let m = m.as_object().unwrap();
    let int: Option<i128> = v.as_i64().map(|n| n as i128).or(v.as_u64().map(|n| n as i128));
    // whole numbers are limited to the range; what is no whole number of the type gives the default
    let i32_want = match int { Some(n) if n <= i64::MAX as i128 => n.clamp(i32::MIN as i128, i32::MAX as i128) as i32, _ => 7 };
    let u16_want = match int { Some(n) if n >= 0 => n.min(u16::MAX as i128) as u16, _ => 7 };
    ensure_eq!(i32::json_to_number(m, "x", 7), i32_want, "{} as i32", v);
    ensure_eq!(u16::json_to_number(m, "x", 7), u16_want, "{} as u16", v);
    ensure_eq!((i32::json_to_number(m, "y", 7), u16::json_to_number(m, "y", 7)), (7, 7), "a missing field");
    match v {
      Value::Number(_) if int.is_some() => ensure_eq!(json_to_num(Some(v.clone())), int.filter(|n| *n >= 0).map(|n| n as usize), "{} as a count", v),
      Value::String(s) => ensure_eq!(json_to_num(Some(v.clone())), s.parse::<u64>().ok().map(|n| n as usize), "{} as a count", v),
      Value::Number(_) => {}
      _ => ensure_eq!(json_to_num(Some(v.clone())), None, "{} as a count", v),
    }
    ensure_eq!(pact_models::json_utils::is_empty(v), matches!(v.to_string().as_str(), "null" | "\"\"" | "[]" | "{}"), "{} is empty", v);
    Ok(())
  });
}
fn clash(a: &Value, b: &Value) -> bool {
  match (a, b) { (Value::Object(x), Value::Object(y)) => x.iter().any(|(k, v)| y.get(k).is_some_and(|w| clash(v, w))), (Value::Array(_), Value::Array(_)) => false, (Value::Object(_) | Value::Array(_), _) | (_, Value::Object(_) | Value::Array(_)) => true, _ => false }
}

// ---------------------------------------------------------------- P27

type Found = std::collections::BTreeSet<(String, String)>;
fn found(r: Vec<pact_models::verify_json::PactFileVerificationResult>) -> Found { r.into_iter().map(|r| (r.path, r.level.to_string())).collect() }
/// One thing wrong with a request/response document, with the place and the level of the report.
#[derive(Clone, Debug)]
enum Wrong { Whole(Value), Missing(u8), Party(u8, Value), Name(u8, Value), NoName(u8), ExtraParty(u8, String), Extra(String), List(Value), Item(prop::sample::Index, Value), Description(prop::sample::Index, Value), NoDescription(prop::sample::Index),
  ExtraItem(prop::sample::Index, String), States(prop::sample::Index, Value), State(prop::sample::Index, Value), NoStateName(prop::sample::Index), StateName(prop::sample::Index, Value), Params(prop::sample::Index, Value), ExtraState(prop::sample::Index, String),
  Metadata(Value), Spec(Value), Version(Value), BadVersion(String), NoVersion, OldSpec, OldVersion }
fn wrong() -> B<Wrong> {
  use Wrong::*;
  let i = || any::<prop::sample::Index>();
  let not = |f: fn(&Value) -> bool| prop::sample::select([json!(null), json!(true), json!(1), json!("x"), json!([]), json!([1]), json!({}), json!({"a": 1})].into_iter().filter(|v| !f(v)).collect::<Vec<_>>());
  let extra = || prop_oneof![4 => "[a-z]{1,4}".prop_map(|s| format!("x-{}", s)), 1 => prop::sample::select(vec!["Consumer", "consumers", "interaction", "pending", "comments", "key", "type"]).prop_map(|s| s.to_string())];
  prop_oneof![
    not(Value::is_object).prop_map(Whole), (0u8..3).prop_map(Missing), (0u8..2, not(Value::is_object)).prop_map(|(p, v)| Party(p, v)), (0u8..2, not(Value::is_string)).prop_map(|(p, v)| Name(p, v)), (0u8..2).prop_map(NoName), (0u8..2, extra()).prop_map(|(p, v)| ExtraParty(p, v)),
    extra().prop_map(Extra), not(Value::is_array).prop_map(List), (i(), not(Value::is_object)).prop_map(|(i, v)| Item(i, v)), (i(), not(Value::is_string)).prop_map(|(i, v)| Description(i, v)), i().prop_map(NoDescription), (i(), extra()).prop_map(|(i, v)| ExtraItem(i, v)),
    (i(), not(Value::is_array)).prop_map(|(i, v)| States(i, v)), (i(), not(|v| v.is_object() || v.is_string())).prop_map(|(i, v)| State(i, v)), i().prop_map(NoStateName), (i(), not(Value::is_string)).prop_map(|(i, v)| StateName(i, v)), (i(), not(Value::is_object)).prop_map(|(i, v)| Params(i, v)), (i(), extra()).prop_map(|(i, v)| ExtraState(i, v)),
    not(Value::is_object).prop_map(Metadata), not(Value::is_object).prop_map(Spec), not(|v| v.is_string() || v.is_null()).prop_map(Version), prop::sample::select(vec!["", "x", "v", "one"]).prop_map(|s| BadVersion(s.to_string())), Just(NoVersion), Just(OldSpec), Just(OldVersion),
  ].boxed()
}
const PARTIES: [&str; 2] = ["consumer", "provider"];

pub fn p27(h: &mut H) {
  h.assume("Only the request/response format is described in detail by the code; of message and V4 documents it is checked that they are objects.");
  h.check("written", 3_000, "documents the library writes for pacts of every version; non-trivial: an interaction with a provider state", || (prop_oneof![pact3(rr3(false)).prop_map(|p| (p, V::V3)), (pact3(rr3(true)), prop::sample::select(vec![V::V1, V::V1_1, V::V2]))], pact3(msg3()), pspec(), any::<bool>()), |((p, v), m, v4, strict), c| {
    c.nontrivial(p.items.iter().any(|i| !i.states.is_empty()));
    let doc = p.build(*v).to_json(*v).map_err(|e| e.to_string())?;
    let mut want = Found::new();
    if p.items.is_empty() { want.insert(("/interactions".into(), "WARNING".into())); }
    ensure_eq!(found(RequestResponsePact::verify_json("/", &doc, *strict, *v)), want, "{}", doc);
    ensure_eq!(found(MessagePact::verify_json("/", &m.build().to_json(V::V3).map_err(|e| e.to_string())?, *strict, V::V3)), Found::new(), "message pact");
    ensure_eq!(found(V4Pact::verify_json("/", &v4.build().to_json(V::V4).map_err(|e| e.to_string())?, *strict, V::V4)), Found::new(), "V4 pact");
    Ok(())
  });
  h.check("deprecated", 20_000, "one interaction with its provider state under each name the formats have had, with at most one thing wrong in the state, checked for every version, strictly or not; non-trivial: something is wrong",
    || (0u8..3, prop::sample::select(vec![V::V1, V::V1_1, V::V2, V::V3, V::V4]), any::<bool>(), prop::option::weighted(0.7, wrong().prop_filter("state", |w| matches!(w, Wrong::State(..) | Wrong::NoStateName(_) | Wrong::StateName(..) | Wrong::Params(..) | Wrong::ExtraState(..)))), any::<bool>(), "/[a-z0-9/]{0,6}"), |(name, v, strict, w, text, at), c| {
    c.nontrivial(w.is_some());
    let soft = if *strict { "ERROR" } else { "WARNING" };
    let mut want = Found::new();
    let place = format!("{}/providerStates/0", at);
    let mut state = json!({"name": "s", "params": {"a": 1}});
    match w {
      Some(Wrong::State(_, x)) => { state = x.clone(); want.insert((place, "ERROR".into())); }
      Some(Wrong::NoStateName(_)) => { state.as_object_mut().unwrap().remove("name"); want.insert((place, "ERROR".into())); }
      Some(Wrong::StateName(_, x)) => { state["name"] = x.clone(); want.insert((place, "ERROR".into())); }
      Some(Wrong::Params(_, x)) => { state["params"] = x.clone(); want.insert((place, "ERROR".into())); }
      Some(Wrong::ExtraState(_, x)) => { state[x.as_str()] = json!(1); want.insert((place, soft.into())); }
      _ => if *text { state = json!("s") }
    }
    let mut doc = json!({"description": "d", "request": {}, "response": {}});
    match name { 0 => doc["providerStates"] = json!([state]), 1 => doc["providerState"] = state, _ => doc["provider_state"] = state }
    if *name == 2 || *name == 1 && *v >= V::V3 { want.insert((at.clone(), "WARNING".into())); }
    ensure_eq!(found(RequestResponseInteraction::verify_json(at, &doc, *strict, *v)), want, "{} strict {} {:?}", doc, strict, v);
    Ok(())
  });
  h.check("wrong", 20_000, "V3 documents with one thing wrong, checked strictly or not: exactly that is reported, where it is, with its level and the type that was found; non-trivial: inside an interaction", || (pact3(rr3(false)), wrong(), any::<bool>()), |(p, w, strict), c| {
    let mut p = p.clone();
    if p.items.is_empty() { return Ok(()) }
    for i in &mut p.items { if i.states.is_empty() { i.states.push(StateSpec { name: "s".into(), params: BTreeMap::new() }); } }
    let mut doc = p.json(V::V3);
    let soft = if *strict { "ERROR" } else { "WARNING" };
    let n = p.items.len();
    let at = |doc: &Value, i: &prop::sample::Index| -> (String, String) { let k = i.index(n); let j = i.index(doc["interactions"][k]["providerStates"].as_array().unwrap().len()); (format!("/interactions/{}", k), format!("/interactions/{}/providerStates/{}", k, j)) };
    fn put(doc: &mut Value, at: &str, v: Option<Value>) { let (p, k) = at.rsplit_once('/').unwrap(); match doc.pointer_mut(p).unwrap() { Value::Object(m) => { match v { Some(v) => { m.insert(k.to_string(), v); } None => { m.remove(k); } } } Value::Array(a) => a[k.parse::<usize>().unwrap()] = v.unwrap(), _ => unreachable!() } }
    c.nontrivial(matches!(w, Wrong::Item(..) | Wrong::Description(..) | Wrong::NoDescription(_) | Wrong::ExtraItem(..) | Wrong::States(..) | Wrong::State(..) | Wrong::NoStateName(_) | Wrong::StateName(..) | Wrong::Params(..) | Wrong::ExtraState(..)));
    // (place, level, the type a message has to name)
    let (place, level, ty): (String, &str, Option<String>) = match w {
      Wrong::Whole(v) => { doc = v.clone(); ("/".into(), "ERROR", Some(json_type_of(v))) }
      Wrong::Missing(k) => { let name = ["consumer", "provider", "interactions"][*k as usize]; put(&mut doc, &format!("/{}", name), None); (format!("/{}", name), if *k == 2 { "WARNING" } else { soft }, None) }
      Wrong::Party(k, v) => { let a = format!("/{}", PARTIES[*k as usize]); put(&mut doc, &a, Some(v.clone())); (a, "ERROR", Some(json_type_of(v))) }
      Wrong::Name(k, v) => { let a = format!("/{}/name", PARTIES[*k as usize]); put(&mut doc, &a, Some(v.clone())); (a, "ERROR", Some(json_type_of(v))) }
      Wrong::NoName(k) => { let a = format!("/{}/name", PARTIES[*k as usize]); put(&mut doc, &a, None); (a, soft, None) }
      Wrong::ExtraParty(k, x) => { let a = format!("/{}", PARTIES[*k as usize]); put(&mut doc, &format!("{}/{}", a, x), Some(json!(1))); (a, soft, None) }
      Wrong::Extra(x) => { put(&mut doc, &format!("/{}", x), Some(json!(1))); (format!("/{}", x), soft, None) }
      Wrong::List(v) => { put(&mut doc, "/interactions", Some(v.clone())); ("/interactions".into(), "ERROR", Some(json_type_of(v))) }
      Wrong::Item(i, v) => { let (a, _) = at(&doc, i); put(&mut doc, &a, Some(v.clone())); (a, "ERROR", Some(json_type_of(v))) }
      Wrong::Description(i, v) => { let a = at(&doc, i).0 + "/description"; put(&mut doc, &a, Some(v.clone())); (a, "ERROR", Some(json_type_of(v))) }
      Wrong::NoDescription(i) => { let (a, _) = at(&doc, i); put(&mut doc, &format!("{}/description", a), None); (a, soft, None) }
      Wrong::ExtraItem(i, x) => { let (a, _) = at(&doc, i); put(&mut doc, &format!("{}/{}", a, x), Some(json!(1))); (a, soft, None) }
      Wrong::States(i, v) => { let (a, _) = at(&doc, i); put(&mut doc, &format!("{}/providerStates", a), Some(v.clone())); (a, "ERROR", Some(json_type_of(v))) }
      Wrong::State(i, v) => { let (_, a) = at(&doc, i); put(&mut doc, &a, Some(v.clone())); (a, "ERROR", Some(json_type_of(v))) }
      Wrong::NoStateName(i) => { let (_, a) = at(&doc, i); put(&mut doc, &format!("{}/name", a), None); (a, "ERROR", None) }
      Wrong::StateName(i, v) => { let (_, a) = at(&doc, i); put(&mut doc, &format!("{}/name", a), Some(v.clone())); (a, "ERROR", Some(json_type_of(v))) }
      Wrong::Params(i, v) => { let (_, a) = at(&doc, i); put(&mut doc, &format!("{}/params", a), Some(v.clone())); (a, "ERROR", Some(json_type_of(v))) }
      Wrong::ExtraState(i, x) => { let (_, a) = at(&doc, i); put(&mut doc, &format!("{}/{}", a, x), Some(json!(1))); (a, soft, None) }
      Wrong::Metadata(v) => { put(&mut doc, "/metadata", Some(v.clone())); ("/metadata".into(), "ERROR", Some(json_type_of(v))) }
      Wrong::Spec(v) => { put(&mut doc, "/metadata/pactSpecification", Some(v.clone())); ("/metadata/pactSpecification".into(), "ERROR", Some(json_type_of(v))) }
      Wrong::Version(v) => { put(&mut doc, "/metadata/pactSpecification/version", Some(v.clone())); ("/metadata/pactSpecification/version".into(), "ERROR", Some(json_type_of(v))) }
      Wrong::BadVersion(s) => { put(&mut doc, "/metadata/pactSpecification/version", Some(json!(s))); ("/metadata/pactSpecification/version".into(), "ERROR", None) }
      Wrong::NoVersion => { put(&mut doc, "/metadata/pactSpecification/version", None); ("/metadata/pactSpecification".into(), "WARNING", None) }
      Wrong::OldSpec => { let s = doc["metadata"]["pactSpecification"].clone(); put(&mut doc, "/metadata/pactSpecification", None); put(&mut doc, "/metadata/pact-specification", Some(s)); ("/metadata".into(), "WARNING", None) }
      Wrong::OldVersion => { put(&mut doc, "/metadata/pactSpecificationVersion", Some(json!("3"))); ("/metadata".into(), "WARNING", None) }
    };
    let r = RequestResponsePact::verify_json("/", &doc, *strict, V::V3);
    if let Some(ty) = ty { ensure!(r.len() == 1 && r[0].message.contains(&format!("got {}", ty)), "{:?} does not name the type {} that was found", r, ty); }
    let parts: Vec<(String, ResultLevel)> = r.iter().map(|r| (r.path.clone(), r.level.clone())).collect();
    ensure_eq!(parts.iter().map(|(p, l)| (p.clone(), l.to_string())).collect::<Vec<_>>(), vec![(place, level.to_string())], "{:?} in {}", w, doc);
    for (r, what) in [(MessagePact::verify_json("/", &doc, *strict, V::V3), "message"), (V4Pact::verify_json("/", &doc, *strict, V::V4), "V4")] {
      ensure_eq!(found(r), if doc.is_object() { Found::new() } else { [("/".to_string(), "ERROR".to_string())].into_iter().collect() }, "{} document", what);
    }
    let direct = Consumer::verify_json("/p", &doc["consumer"], *strict, V::V3).len() + Provider::verify_json("/p", &doc["provider"], *strict, V::V3).len();
    if let Wrong::Party(..) | Wrong::Name(..) | Wrong::NoName(_) | Wrong::ExtraParty(..) = w { ensure_eq!(direct, 1, "participants checked on their own"); }
    Ok(())
  });
}
