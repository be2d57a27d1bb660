//! P10 query strings, P11 headers, P12 content types.
use std::collections::{BTreeMap, HashMap};
use proptest::prelude::*;
use pact_models::PactSpecification;
use pact_models::bodies::OptionalBody;
use pact_models::content_types::{detect_content_type_from_bytes, detect_content_type_from_string, ContentType, ContentTypeHint};
use pact_models::headers::parse_header;
use pact_models::http_parts::HttpPart;
use pact_models::json_utils::{headers_from_json, headers_to_json};
use pact_models::message::Message;
use pact_models::query_strings::*;
use pact_models::request::Request;
use pact_models::response::Response;
use pact_models::v4::http_parts::{HttpRequest, HttpResponse};
use pact_models::v4::message_parts::MessageContents;
use pvfw::{ensure, ensure_eq, H};
use serde_json::{json, Value};

use crate::g::*;
use crate::pacts::{distinct, header_name, TYPES, Kind};

type V = PactSpecification;
type Q = HashMap<String, Vec<Option<String>>>;

// ---------------------------------------------------------------- P10

/// Percent-encodes a text in one of the many ways that mean the same; `how` chooses per character.
fn encode(s: &str, how: &[u8]) -> String {
  let mut out = String::new();
  for (i, c) in s.chars().enumerate() {
    let h = how.get(i % how.len().max(1)).copied().unwrap_or(0);
    let plain = c.is_ascii_alphanumeric() || "-_.~!$'()*,;:@/?".contains(c) || (h & 8 != 0 && !c.is_ascii());
    if plain && h & 1 == 0 { out.push(c); }
    else if c == ' ' && h & 2 == 0 { out.push('+'); }
    else { for b in c.to_string().bytes() { out += &if h & 4 == 0 { format!("%{:02x}", b) } else { format!("%{:02X}", b) }; } }
  }
  out
}
/// Texts whose encoding is right; see the known finding on the others.
pub fn encodable() -> B<String> { text().prop_map(|s| s.chars().filter(|c| c.is_ascii() || format!("{:x}", *c as u32).len() % 2 == 1).collect()).boxed() }
fn how() -> B<Vec<u8>> { prop::collection::vec(0u8..16, 1..5).boxed() }
/// Form-encoding as the WHATWG URL standard defines it, for a decoded text.
fn reference_decode(s: &str) -> Option<String> {
  let b = s.as_bytes();
  let (mut out, mut i) = (vec![], 0);
  while i < b.len() {
    let hex = |c: u8| (c as char).to_digit(16);
    if b[i] == b'%' && i + 2 < b.len() + 0 && hex(b[i + 1]).is_some() && hex(b[i + 2]).is_some() { out.push((hex(b[i + 1]).unwrap() * 16 + hex(b[i + 2]).unwrap()) as u8); i += 3; }
    else if b[i] == b'+' { out.push(b' '); i += 1; } else { out.push(b[i]); i += 1; }
  }
  String::from_utf8(out).ok()
}

pub fn p10(h: &mut H) {
  h.assume("Names of parameters are not empty (the existing tests drop them) and a parameter has at least one value; a percent sign that starts no escape is followed by letters or digits.");
  h.check("decode", 60_000, "texts percent-encoded in every equivalent way; non-trivial: something is escaped", || (text(), how()), |(s, how), c| {
    let e = encode(s, how);
    c.nontrivial(&e != s);
    ensure_eq!(decode_query(&e), Ok(s.clone()), "decoding {:?}", e);
    Ok(())
  });
  h.check("encode", 40_000, "arbitrary texts; non-trivial: not only letters and digits", || encodable(), |s, c| {
    c.nontrivial(!s.chars().all(|c| c.is_ascii_alphanumeric()));
    let e = encode_query(s);
    ensure!(e.chars().all(|c| c.is_ascii() && c > ' ' && !"&=#\"<>".contains(c)), "encoded text {:?} has characters with a meaning in a query", e);
    ensure_eq!(reference_decode(&e), Some(s.clone()), "{:?} does not decode to the text under the URL standard", e);
    ensure_eq!(decode_query(&e), Ok(s.clone()), "decoding the encoded text {:?}", e);
    Ok(())
  });
  h.pinned("encode_even_code_point", "❤é", || { let s = "❤é";
    let e = encode_query(s);
    ensure_eq!(reference_decode(&e), Some(s.to_string()), "{:?} does not decode to the text under the URL standard", e);
    Ok(())
  });
  h.check("malformed", 100_000, "texts with percent signs that start no escape; non-trivial: such a sign", || prop::collection::vec(prop_oneof![2 => "[a-f0-9]{1,4}".prop_map(|s| (s.clone(), s)), 1 => Just(("+".to_string(), " ".to_string())), 1 => Just(("%41".to_string(), "A".to_string())),
    1 => "%[g-z][a-zé]".prop_map(|s| (s.clone(), s)), 1 => "%[a-f0-9][g-zß]".prop_map(|s| (s.clone(), s))], 0..6).prop_flat_map(|v| (Just(v), prop::sample::select(vec!["", "%", "%a", "%x", "%é", "%%"]))), |(parts, tail), c| {
    let s: String = parts.iter().map(|p| p.0.as_str()).collect::<String>() + tail;
    let want: String = parts.iter().map(|p| p.1.as_str()).collect::<String>() + tail;
    c.nontrivial(!tail.is_empty() || parts.iter().any(|p| p.0.starts_with('%') && p.0 == p.1));
    ensure_eq!(decode_query(&s), Ok(want), "decoding {:?}", s);
    Ok(())
  });
  h.check("bytes", 20_000, "escapes of arbitrary bytes; non-trivial: not UTF-8", || prop::collection::vec(prop_oneof![any::<u8>(), 0x80u8..=0xff], 0..5), |b, c| {
    let s: String = b.iter().map(|b| format!("%{:02x}", b)).collect();
    c.nontrivial(String::from_utf8(b.clone()).is_err());
    ensure_eq!(decode_query(&s).ok(), String::from_utf8(b.clone()).ok(), "decoding {}", s);
    if !s.is_empty() { let q = parse_query_string(&format!("a={}", s)).unwrap_or_default(); ensure_eq!(q["a"], vec![Some(String::from_utf8(b.clone()).unwrap_or(s.clone()))], "value that is {}", s); }
    Ok(())
  });
  h.check("parse", 30_000, "lists of parameters written as a query string, with empty parts between; non-trivial: a repeated parameter", || (prop::collection::vec((prop_oneof![4 => ident(), 1 => text()], prop::option::of(prop_oneof![encodable(), ident()]), how(), any::<bool>()), 0..6)), |params, c| {
    let mut want: Q = HashMap::new();
    let mut parts = vec![];
    for (k, v, h, gap) in params {
      let k = if k.is_empty() { "x" } else { k };
      if *gap { parts.push(String::new()); }
      let eq = if h[0] & 1 == 1 { "=" } else { "%3D" };
      parts.push(match v { None => encode(k, h), Some(v) => format!("{}={}", encode(k, h), encode(v, h).replace("%3d", if eq == "=" { "=" } else { "%3d" })) });
      want.entry(k.to_string()).or_default().push(v.clone());
    }
    c.nontrivial(want.values().any(|v| v.len() > 1));
    let s = parts.join("&");
    let got = parse_query_string(&s);
    if s.is_empty() { ensure_eq!(got, None, "an empty query"); } else { ensure_eq!(got.clone(), Some(want.clone()), "parsing {:?}", s); }
    ensure_eq!(query_from_json(&json!(s), &V::V2), got.clone(), "V2 JSON form");
    ensure_eq!(v3_query_from_json(&json!(s), &V::V3), got, "V3 JSON form of a text");
    // writing
    let built = build_query_string(want.clone());
    ensure_eq!(parse_query_string(&built).unwrap_or_default(), want.clone(), "parsing the written form {:?}", built);
    let names: Vec<String> = built.split('&').filter(|s| !s.is_empty()).map(|p| reference_decode(p.split('=').next().unwrap()).unwrap_or_default()).collect();
    let mut sorted: Vec<String> = want.iter().flat_map(|(k, v)| v.iter().map(|_| k.clone())).collect();
    sorted.sort();
    ensure_eq!(names, sorted, "the written query is not in order: {}", built);
    let again: Q = { let mut v: Vec<_> = want.iter().collect(); v.sort(); v.reverse(); v.into_iter().map(|(k, v)| (k.clone(), v.clone())).collect() };
    ensure_eq!(build_query_string(again), built, "the written query depends on the order of the map");
    for v in [V::V1, V::V1_1, V::V2] { ensure_eq!(query_to_json(want.clone(), &v), json!(built), "JSON form {:?}", v); }
    for v in [V::V3, V::V4] {
      let j = query_to_json(want.clone(), &v);
      ensure_eq!(j, json!(want.clone().into_iter().collect::<BTreeMap<_, _>>()), "JSON form {:?}", v);
      ensure_eq!(v3_query_from_json(&j, &v), Some(want.clone()), "loading the JSON form");
    }
    Ok(())
  });
  h.check("json", 20_000, "query objects with values of every JSON kind; non-trivial: a value that is not a text", || json_map(5), |m, c| {
    let mut want: Q = HashMap::new();
    for (k, v) in m {
      c.nontrivial(!v.is_string());
      want.insert(k.clone(), match v { Value::String(s) => vec![Some(s.clone())], Value::Array(a) => a.iter().map(|v| match v { Value::String(s) => Some(s.clone()), Value::Null => None, v => Some(v.to_string()) }).collect(), _ => vec![] });
    }
    let j = Value::Object(m.clone().into_iter().collect());
    for v in [V::V3, V::V4] { ensure_eq!(v3_query_from_json(&j, &v), Some(want.clone()), "query {}", j); }
    for v in [V::V1, V::V2] { ensure_eq!(query_from_json(&j, &v), None, "an object as a V2 query"); }
    for x in m.values().filter(|x| !x.is_object() && !x.is_string()) { ensure_eq!(v3_query_from_json(x, &V::V3), None, "query {}", x); ensure_eq!(query_from_json(x, &V::V2), None, "query {}", x); }
    Ok(())
  });
}

// ---------------------------------------------------------------- P11

const SINGLE: &[&str] = &["date", "accept-datetime", "if-modified-since", "if-unmodified-since", "expires", "retry-after", "last-modified", "set-cookie", "user-agent"];
fn case(s: &str, bits: u16) -> String { s.chars().enumerate().map(|(i, c)| if bits >> (i % 16) & 1 == 1 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() }
fn any_header() -> B<String> {
  (prop_oneof![2 => header_name(), 2 => prop::sample::select(SINGLE).prop_map(|s| s.to_string()), 1 => prop::sample::select(vec!["accept", "content-type", "x-date", "dates", "allow", "cookie", "etag"]).prop_map(|s| s.to_string())], any::<u16>()).prop_map(|(s, b)| case(&s, b)).boxed()
}
fn value_part() -> B<String> { prop_oneof![3 => "[a-zA-Z0-9;=./*-]{0,8}", 1 => "[a-z][a-z :\"]{0,8}", 1 => "[é€日]{1,2}"].boxed() }

pub fn p11(h: &mut H) {
  h.assume("No two names of one header map differ only in case (a map the library itself never makes).");
  h.check("parse_header", 40_000, "header values of several parts with white space around; non-trivial: more than one part", || (any_header(), prop::collection::vec((value_part(), "[ \t]{0,2}", "[ \t]{0,2}"), 0..5)), |(name, parts), c| {
    let text = parts.iter().map(|(v, a, b)| format!("{}{}{}", a, v, b)).collect::<Vec<_>>().join(",");
    c.nontrivial(parts.len() > 1);
    let got = parse_header(name, &text);
    let want = if SINGLE.contains(&name.to_lowercase().as_str()) { vec![text.trim().to_string()] } else if parts.is_empty() { vec![String::new()] } else { parts.iter().map(|p| p.0.trim().to_string()).collect() };
    ensure_eq!(got.clone(), want, "{}: {:?}", name, text);
    ensure_eq!(parse_header(name, &got.join(", ")), got.clone(), "splitting is not stable");
    ensure_eq!(parse_header(&name.to_uppercase(), &text), got, "depends on the case of the name");
    Ok(())
  });
  h.check("json", 20_000, "header objects of every JSON kind; non-trivial: a text of several values", || (prop::collection::vec((any_header(), prop_oneof![3 => prop::collection::vec(value_part(), 1..4).prop_map(|v| json!(v.join(", "))), 3 => prop::collection::vec(prop_oneof![3 => value_part().prop_map(|s| json!(s)), 1 => json_scalar()], 0..4).prop_map(|v| json!(v)), 1 => json_scalar()]), 0..5), any::<bool>()), |(m, none), c| {
    let m: BTreeMap<String, Value> = distinct(m.clone()).into_iter().collect();
    let as_text = |v: &Value| match v { Value::String(s) => s.clone(), v => v.to_string() };
    let want: HashMap<String, Vec<String>> = m.iter().map(|(k, v)| (k.clone(), match v {
      Value::String(s) if SINGLE.contains(&k.to_lowercase().as_str()) => vec![s.trim().to_string()],
      Value::String(s) => s.split(',').map(|s| s.trim().to_string()).collect(), Value::Array(a) => a.iter().map(as_text).collect(), v => vec![v.to_string()] })).collect();
    c.nontrivial(m.values().any(|v| v.as_str().map(|s| s.contains(',')).unwrap_or(false)));
    let j = if *none { json!({"path": "/"}) } else { json!({"headers": m}) };
    let want = if *none { None } else { Some(want) };
    ensure_eq!(headers_from_json(&j), want.clone(), "headers of {}", j);
    for x in [json!({"headers": null}), json!({"headers": [1]}), json!({"headers": "a"})] { ensure_eq!(headers_from_json(&x), None, "headers of {}", x); }
    if let Some(w) = &want {
      let written = headers_to_json(w);
      ensure_eq!(written, json!(w.iter().map(|(k, v)| (k.clone(), v.join(", "))).collect::<BTreeMap<_, _>>()), "written headers");
    }
    for (v, spec) in [(V::V1, "V1"), (V::V2, "V2"), (V::V3, "V3")] {
      ensure_eq!(Request::from_json(&j, &v).map_err(|e| e.to_string())?.headers, want.clone(), "headers of a {} request", spec);
      ensure_eq!(Response::from_json(&j, &v).map_err(|e| e.to_string())?.headers, want.clone(), "headers of a {} response", spec);
    }
    ensure_eq!(HttpRequest::from_json(&j).map_err(|e| e.to_string())?.headers, want.clone(), "headers of a V4 request");
    ensure_eq!(HttpResponse::from_json(&j).map_err(|e| e.to_string())?.headers, want, "headers of a V4 response");
    Ok(())
  });
  h.check("access", 20_000, "histories of header changes on requests and responses of both forms, read back under names of any case; non-trivial: a header is replaced under another case",
    || prop::collection::vec((prop_oneof![prop::sample::select(vec!["a", "x-b", "accept"]).prop_map(|s| s.to_string()), header_name()], any::<u16>(), prop::collection::vec(value_part(), 0..3), any::<bool>()), 0..8), |ops, c| {
    let (mut r3, mut s3, mut r4, mut s4) = (Request::default(), Response::default(), HttpRequest::default(), HttpResponse::default());
    let (mut r5, mut s5) = (HttpRequest::default(), HttpResponse::default());
    let mut model: BTreeMap<String, (String, Vec<String>)> = BTreeMap::new();
    for (name, bits, vals, _) in ops {
      let name = case(name, *bits);
      if model.get(&name.to_lowercase()).map(|m| m.0 != name).unwrap_or(false) { c.nontrivial(true); }
      let v: Vec<&str> = vals.iter().map(|s| s.as_str()).collect();
      r3.add_header(&name, v.clone()); s3.add_header(&name, v.clone());
      r4.add_header(&name, v.clone()); s4.add_header(&name, v.clone());
      r5.set_header(name.as_str(), &v); s5.set_header(name.as_str(), &v);
      let e = model.entry(name.to_lowercase()).or_insert((name.clone(), vec![]));
      e.1 = vals.clone();
    }
    let names: Vec<String> = model.keys().cloned().collect();
    let set: HashMap<String, Vec<String>> = model.values().cloned().collect();
    for (what, h) in [("request", &r5.headers), ("response", &s5.headers)] { ensure_eq!(h.clone().unwrap_or_default(), set.clone(), "headers of a {} after set_header", what); }
    for (what, p) in [("V3 request", &r3 as &dyn HttpPart), ("V3 response", &s3), ("V4 request", &r4), ("V4 response", &s4), ("set V4 request", &r5), ("set V4 response", &s5)] {
      for n in names.iter().map(|s| s.as_str()).chain(["x-absent"]) {
        for bits in [0, 0xffff, 0x5555] {
          let n2 = case(n, bits);
          ensure_eq!(p.lookup_header_value(&n2), model.get(n).map(|m| m.1.join(", ")), "{}: value of {}", what, n2);
          ensure_eq!(p.has_header(&n2), model.contains_key(n), "{}: has {}", what, n2);
        }
      }
      ensure_eq!(p.headers().as_ref().map(|h| h.len()).unwrap_or(0), model.len(), "{}: number of headers", what);
    }
    Ok(())
  });
}

// ---------------------------------------------------------------- P12

#[derive(Debug, Clone)]
struct Type { main: String, sub: String, suffix: Option<String>, attrs: BTreeMap<String, String> }
fn type_spec() -> B<Type> {
  let main = prop_oneof![4 => Just("application".to_string()), 2 => Just("text".to_string()), 1 => prop::sample::select(vec!["image", "audio", "video", "font", "multipart", "message", "x-y"]).prop_map(|s| s.to_string())];
  let sub = prop_oneof![4 => prop::sample::select(vec!["json", "xml", "plain", "html", "octet-stream", "graphql", "x-www-form-urlencoded", "vnd.api", "hal", "soap", "csv", "pdf", "form-data", "jsonp", "json-patch", "x-json", "svg", "protobuf"]).prop_map(|s| s.to_string()), 1 => "[a-z][a-z0-9.-]{0,7}"];
  let suffix = prop::option::of(prop::sample::select(vec!["json", "xml", "zip", "html"]).prop_map(|s| s.to_string()));
  let attr = (prop_oneof![3 => Just("charset".to_string()), 2 => prop::sample::select(vec!["boundary", "q", "version", "x"]).prop_map(|s| s.to_string()), 1 => "[a-z][a-z0-9-]{0,5}"],
    prop_oneof![3 => prop::sample::select(vec!["utf-8", "1.0", "utf-16", "a"]).prop_map(|s| s.to_string()), 2 => "[a-z0-9!#$%&'*+.^_`|~-]{1,8}", 2 => "[a-z0-9][a-z0-9 :/=,;()@?<>\\[\\]]{0,8}"]);
  (main, sub, suffix, prop::collection::vec(attr, 0..3)).prop_map(|(main, sub, suffix, attrs)| Type { main, sub, suffix, attrs: attrs.into_iter().collect() }).boxed()
}
fn is_token(s: &str) -> bool { !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || "!#$%&'*+.^_`|~-".contains(c)) }
impl Type {
  fn build(&self) -> ContentType { ContentType { main_type: self.main.clone(), sub_type: self.sub.clone(), suffix: self.suffix.clone(), attributes: self.attrs.clone() } }
  fn essence(&self) -> String { format!("{}/{}{}", self.main, self.sub, self.suffix.as_ref().map(|s| format!("+{}", s)).unwrap_or_default()) }
  fn text(&self, bits: u16, space: &str, quote: bool) -> String {
    let mut s = case(&self.essence(), bits);
    for (k, v) in &self.attrs { s += &format!(";{}{}={}", space, case(k, bits), if is_token(v) && (!quote || v == "utf-8") { v.clone() } else { format!("\"{}\"", v) }); }
    s
  }
  fn json(&self) -> bool { self.main == "application" && (self.sub.starts_with("json") || self.suffix.as_deref() == Some("json") || self.sub == "graphql") }
  fn xml(&self) -> bool { (self.main == "application" || self.main == "text") && (self.sub == "xml" || self.suffix.as_deref() == Some("xml")) }
  fn form(&self) -> bool { self.main == "application" && self.sub == "x-www-form-urlencoded" }
  fn is_text(&self) -> bool { self.main == "text" || self.json() || self.xml() || self.form() }
}

/// A document of a known kind: text and what it has to be detected as.
fn document() -> B<(String, &'static str)> {
  let ws = "[ \\n\\t]{0,3}";
  prop_oneof![
    3 => (ws, prop::collection::vec((ident(), json_value()), 0..4)).prop_map(|(w, v)| (format!("{}{}", w, Value::Object(v.into_iter().collect())), "application/json")),
    2 => (ws, prop::collection::vec(json_value(), 0..4)).prop_map(|(w, v)| (format!("{}{}", w, json!(v)), "application/json")),
    1 => (ws, prop_oneof![Just(json!(null)), any::<bool>().prop_map(|b| json!(b)), any::<u32>().prop_map(|n| json!(n)), "[a-z]{0,6}".prop_map(|s| json!(s))]).prop_map(|(w, v)| (format!("{}{}", w, v), "application/json")),
    2 => (ws, "<\\?xml version=\"1.[01]\"( encoding=\"UTF-8\")?\\?>\n?<[a-z]{1,6}/>").prop_map(|(w, s)| (w + &s, "application/xml")),
    2 => (ws, "<[a-z]{5,8}( [a-z]=\"[a-z]{0,4}\")?>[a-z ]{0,8}</x>").prop_map(|(w, s)| (w + &s, "application/xml")),
    2 => (ws, prop::sample::select(vec!["<html>", "<HTML>", "<!DOCTYPE html>", "<!doctype html><html>", "<Html><body>"]), "[a-z <>]{0,20}").prop_map(|(w, a, b)| (w + a + &b, "text/html")),
    2 => "[g-mo-su-z][a-zA-Z ,.<>é日]{0,40}".prop_map(|s| (s, "text/plain")),
    1 => (ws, "[(#*=+.,;:!?&%$@~|_-][a-zA-Z ,.<>é日{}\\[\\]]{0,40}").prop_map(|(w, s)| (w + &s, "text/plain")),
  ].boxed()
}

pub fn p12(h: &mut H) {
  h.assume("Attribute values have no quotes or backslashes and are lower case; a content type header has one value; charset=\"utf-8\" is not quoted when other attributes follow (the mime crate takes it apart wrongly).");
  h.check("parse", 30_000, "content types written with any case, spacing and quoting; non-trivial: has attributes", || (type_spec(), any::<u16>(), "[ ]{0,2}", any::<bool>()), |(t, bits, space, quote), c| {
    c.nontrivial(!t.attrs.is_empty());
    c.label_if(t.attrs.values().any(|v| !is_token(v)), "quoted");
    let s = t.text(*bits, space, *quote);
    let p = ContentType::parse(s.as_str()).map_err(|e| format!("{:?}: {}", s, e))?;
    ensure_eq!(p.clone(), t.build(), "parsing {:?}", s);
    for q in [ContentType::from(s.as_str()), ContentType::from(s.clone()), ContentType::from(&s), s.parse::<ContentType>().map_err(|e| e.to_string())?] { ensure_eq!(q, p.clone(), "other ways of parsing {:?}", s); }
    ensure!(p == s.as_str() && p == *s.as_str(), "comparing with {:?}", s);
    let shown = p.to_string();
    ensure_eq!(ContentType::parse(shown.as_str()).ok(), Some(p.clone()), "parsing the printed form {:?}", shown);
    let into: String = (&p).into();
    ensure_eq!(into, shown.clone(), "text form");
    if t.attrs.values().all(|v| is_token(v)) { ensure_eq!(shown, format!("{}{}", t.essence(), t.attrs.iter().map(|(k, v)| format!(";{}={}", k, v)).collect::<String>()), "printed form"); }
    Ok(())
  });
  h.check("classes", 30_000, "content types; non-trivial: JSON, XML or another text type", || (type_spec(), type_spec()), |(t, o), c| {
    let p = t.build();
    c.nontrivial(t.is_text());
    ensure_eq!((p.is_json(), p.is_xml(), p.is_text(), p.is_form_urlencoded()), (t.json(), t.xml(), t.is_text(), t.form()), "classes of {}", p);
    ensure_eq!(p.is_strict_xml(), t.xml() && t.sub == "xml", "strict XML {}", p);
    ensure_eq!(p.is_binary(), match t.main.as_str() { "audio" | "font" | "image" | "video" => true, "text" => false, _ => !t.is_text() }, "binary {}", p);
    ensure!(!p.is_unknown() && ContentType::default().is_unknown(), "unknown");
    let b = p.base_type();
    ensure!(b.attributes.is_empty() && b.suffix.is_none() && b.base_type() == b && b.main_type == t.main && b.sub_type == *t.suffix.as_ref().unwrap_or(&t.sub), "base type {} of {}", b, p);
    // equivalence
    let o = o.build();
    let bare = Type { attrs: BTreeMap::new(), ..t.clone() }.build();
    ensure!(p.is_equivalent_to(&p) && bare.is_equivalent_to(&p), "{} is not equivalent to itself", p);
    if o.main_type != p.main_type || o.sub_type != p.sub_type { ensure_eq!(p.is_equivalent_to(&o), p.is_strict_xml() && o.is_strict_xml() && (p.attributes.is_empty() || p.attributes == o.attributes), "{} and {}", p, o); }
    let mut other = p.clone();
    other.attributes.insert("charset".into(), "other".into());
    ensure_eq!(p.is_equivalent_to(&other), p.attributes.is_empty(), "{} and {}", p, other);
    Ok(())
  });
  h.check("invalid", 10_000, "texts that are no content type; non-trivial: every case", || prop_oneof!["[a-z]{0,8}", "/[a-z]{1,4}", "[a-z]{1,4}/[a-z]{1,4}; =", "[a-z]{1,4} /[a-z]{1,4}", "[a-z]{1,4}/[a-z]{1,4};[a-z]{1,4}"], |s, c| {
    c.nontrivial(true);
    if let Ok(t) = ContentType::parse(s.as_str()) { return Err(format!("{:?} is parsed as {:?}", s, t)); }
    ensure_eq!(ContentType::from(s.as_str()), ContentType::default(), "from {:?}", s);
    Ok(())
  });
  h.check("detect", 40_000, "documents of known kinds with leading white space; non-trivial: every case", || document(), |(s, want), c| {
    c.nontrivial(true);
    c.label(*want);
    ensure_eq!(detect_content_type_from_string(s).map(|c| c.to_string()), Some(want.to_string()), "detected from the text");
    ensure_eq!(detect_content_type_from_bytes(s.as_bytes()).map(|c| c.to_string()), Some(want.to_string()), "detected from the bytes");
    Ok(())
  });
  h.check("detect_bytes", 20_000, "arbitrary bytes; non-trivial: not UTF-8", || prop_oneof![prop::collection::vec(any::<u8>(), 0..70), (prop::collection::vec(any::<char>(), 0..40).prop_map(|v| v.into_iter().collect::<String>().into_bytes()))], |b, c| {
    let got = detect_content_type_from_bytes(b);
    // what the first 32 bytes hold, up to the last whole character
    let head = &b[..b.len().min(32)];
    let valid = match std::str::from_utf8(head) { Ok(_) => true, Err(e) => b.len() > 32 && e.error_len().is_none() };
    c.nontrivial(!valid);
    ensure_eq!(got.is_some(), valid, "detected {:?}", got);
    if let Ok(s) = std::str::from_utf8(b) { if b.len() <= 32 { ensure_eq!(got, detect_content_type_from_string(s), "text and bytes"); } }
    Ok(())
  });
  h.check("part", 25_000, "parts whose type is declared by the body, a header or metadata, or to be detected; non-trivial: two of them disagree", || (document(), prop::option::of(prop::sample::select(TYPES)), prop::option::of(prop_oneof![4 => prop::sample::select(TYPES).prop_map(|t| t.0.to_string()), 1 => Just("not a type".to_string())]), prop::sample::select(vec!["Content-Type", "content-type", "CONTENT-TYPE"]),
    prop::sample::select(vec!["contentType", "content-type", "ContentType", "Content-Type"]), prop::option::of(prop_oneof![Just(ContentTypeHint::TEXT), Just(ContentTypeHint::BINARY), Just(ContentTypeHint::DEFAULT)])), |((doc, detected), own, header, hname, mname, hint), c| {
    let body = OptionalBody::Present(doc.clone().into(), own.map(|t| ContentType::parse(t.0).unwrap()), *hint);
    let headers = header.as_ref().map(|v| [(hname.to_string(), vec![v.clone()]), ("X-A".to_string(), vec!["text/css".to_string()])].into_iter().collect::<HashMap<_, _>>());
    let declared = header.as_ref().filter(|h| h.contains('/')).cloned();
    let want = own.map(|t| t.0.to_string()).or(declared).unwrap_or(detected.to_string());
    c.nontrivial(&want != detected);
    let md: HashMap<String, Value> = header.iter().map(|v| (mname.to_string(), json!(v))).collect();
    let got = [
      ("V3 request", Request { body: body.clone(), headers: headers.clone(), ..Default::default() }.content_type()),
      ("V3 response", Response { body: body.clone(), headers: headers.clone(), ..Default::default() }.content_type()),
      ("V3 message", Message { contents: body.clone(), metadata: md.clone(), ..Default::default() }.message_content_type()),
      ("V3 message part", HttpPart::content_type(&Message { contents: body.clone(), metadata: md.clone(), ..Default::default() })),
      ("V4 request", HttpRequest { body: body.clone(), headers: headers.clone(), ..Default::default() }.content_type()),
      ("V4 response", HttpResponse { body: body.clone(), headers: headers.clone(), ..Default::default() }.content_type()),
      ("V4 message", MessageContents { contents: body.clone(), metadata: md.clone(), ..Default::default() }.message_content_type()),
      ("V4 message part", HttpPart::content_type(&MessageContents { contents: body.clone(), metadata: md.clone(), ..Default::default() })),
    ];
    for (what, t) in got { ensure_eq!(t.map(|t| t.to_string()), Some(want.clone()), "content type of a {}", what); }
    // the text of the body
    let kind = own.map(|t| t.1);
    let text = match hint { Some(h) => *h == ContentTypeHint::TEXT, None => matches!(kind, Some(Kind::Json) | Some(Kind::Text)) };
    ensure_eq!(body.value_as_string(), if text { Some(doc.clone()) } else { None }, "text of the body");
    let shown = if text { doc.clone() } else { let b = doc.as_bytes(); let hex: String = b.iter().take(32).map(|b| format!("{:02X}", b)).collect(); format!("{}{} ({} bytes)", hex, if b.len() > 32 { "..." } else { "" }, b.len()) };
    ensure_eq!(body.display_string(), shown, "displayed body");
    ensure_eq!(body.value().map(|b| b.to_vec()), Some(doc.clone().into_bytes()), "bytes of the body");
    ensure!(body.is_present() && body.has_content_type() == own.is_some(), "presence");
    let t = ContentType::parse("image/png").unwrap();
    ensure_eq!(body.with_content_type(Some(t.clone())).content_type(), Some(t.clone()), "with_content_type");
    ensure_eq!(body.with_content_type_if_not_set(Some(t.clone())).content_type().map(|t| t.to_string()), Some(own.map(|o| o.0.to_string()).unwrap_or("image/png".into())), "with_content_type_if_not_set");
    let mut b2 = body.clone(); b2.set_content_type(&t);
    ensure_eq!(b2.content_type(), Some(t.clone()), "set_content_type");
    for e in [OptionalBody::Missing, OptionalBody::Null, OptionalBody::Empty] { let mut f = e.with_content_type(Some(t.clone())); f.set_content_type(&t); ensure!(f == e && f.content_type().is_none() && f.display_string().is_empty() && f.value().is_none() && f.value_as_string().is_none() && !f.is_present(), "body {:?}", e); }
    Ok(())
  });
}
