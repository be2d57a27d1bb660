//! XML and form bodies described with JSON.
use std::collections::BTreeMap;

use pact_models::path_exp::DocPath;
use proptest::prelude::*;
use pvfw::{ensure_eq, Case, H, R};
use serde_json::{json, Map, Value};

use crate::common::*;
use crate::g;
use crate::intjson::*;

#[derive(Debug, Clone)]
pub enum Attr { Plain(Value), Match(Spec, Made, Value) }
#[derive(Debug, Clone)]
pub struct El { name: String, attrs: Vec<(String, Attr)>, kids: Vec<Kid>, rule: Option<(Spec, Made)>, examples: Option<u64> }
#[derive(Debug, Clone)]
pub enum Kid { El(El), Text(Value, Option<(Spec, Made)>) }

/// A document as it is read: name, attributes and children, adjacent texts together
type Tree = Value;

fn add(found: &mut Found, path: &str, spec: &Spec, made: &Made) {
  if let Some(r) = spec.rules() { if !r.is_empty() { found.rules.entry(path.into()).or_default().extend(r) } }
  if let Spec::Expr(_, _, Some(g), _) = spec { found.gens.insert(path.into(), g.clone()); }
  if let Some((_, Some(g))) = made { found.gens.insert(path.into(), g.clone()); }
}
fn string(v: &Value) -> String { v.as_str().map(String::from).unwrap_or(v.to_string()) }
fn embed(o: &mut Map<String, Value>, spec: &Spec, made: &Made) {
  if let Some((a, _)) = made { o.extend(a.clone()); }
  spec.write(o);
}
impl El {
  fn json(&self) -> Value {
    let mut o = Map::new();
    o.insert("name".into(), json!(self.name));
    if !self.attrs.is_empty() {
      o.insert("attributes".into(), json!(self.attrs.iter().map(|(k, a)| (k.clone(), match a {
        Attr::Plain(v) => v.clone(),
        Attr::Match(s, m, v) => { let mut o = Map::new(); embed(&mut o, s, m); o.insert("value".into(), v.clone()); json!(o) }
      })).collect::<Map<_, _>>()));
    }
    if !self.kids.is_empty() {
      o.insert("children".into(), json!(self.kids.iter().map(|k| match k {
        Kid::El(e) => e.json(),
        Kid::Text(v, None) => json!({ "content": v }),
        Kid::Text(v, Some((s, m))) => {
          let mut rule = Map::new();
          let mut o = obj(json!({ "content": v }));
          // the kind of generator is given beside the rule, what it needs with the rule
          if let Some((a, _)) = m { for (k, v) in a { if k == "pact:generator:type" { o.insert(k.clone(), v.clone()); } else { rule.insert(k.clone(), v.clone()); } } }
          s.write(&mut rule);
          o.insert("matcher".into(), json!(rule));
          json!(o)
        }
      }).collect::<Vec<_>>()));
    }
    match &self.rule {
      None => { if let Some(n) = self.examples { o.insert("examples".into(), json!(n)); } json!(o) }
      Some((s, m)) => {
        let mut outer = Map::new();
        embed(&mut outer, s, m);
        outer.insert("value".into(), json!(o));
        if let Some(n) = self.examples { outer.insert("examples".into(), json!(n)); }
        json!(outer)
      }
    }
  }
  fn eval(&self, parent: &DocPath, found: &mut Found) -> Tree {
    let mut path = parent.clone();
    path.push_field(self.name.clone());
    if let Some((s, m)) = &self.rule { add(found, &path_name(&path), s, m) }
    let mut attrs = BTreeMap::new();
    for (k, a) in &self.attrs {
      attrs.insert(k.clone(), match a {
        Attr::Plain(v) => string(v),
        Attr::Match(s, m, v) => { let mut p = path.clone(); p.push_field(format!("@{}", k)); add(found, &path_name(&p), s, m); string(v) }
      });
    }
    let mut kids: Vec<Value> = vec![];
    for k in &self.kids {
      match k {
        Kid::El(e) => { let t = e.eval(&path, found); for _ in 0..e.examples.unwrap_or(1) { kids.push(t.clone()) } }
        Kid::Text(v, r) => {
          if let Some((s, m)) = r { let mut p = path.clone(); p.push_field("#text"); add(found, &path_name(&p), s, m) }
          push_text(&mut kids, &string(v));
        }
      }
    }
    json!([self.name, attrs, kids])
  }
  fn count(&self) -> usize {
    self.rule.is_some() as usize + self.attrs.iter().filter(|a| matches!(a.1, Attr::Match(..))).count() + self.kids.iter().map(|k| match k { Kid::El(e) => e.count(), Kid::Text(_, r) => r.is_some() as usize }).sum::<usize>()
  }
}
/// Paths are compared by what they mean, not by how they are written
fn path_name(p: &DocPath) -> String { json!(p.tokens().iter().map(|t| format!("{:?}", t)).collect::<Vec<_>>()).to_string() }
fn push_text(kids: &mut Vec<Value>, t: &str) {
  if t.is_empty() { return }
  match kids.last_mut() { Some(Value::String(s)) => s.push_str(t), _ => kids.push(json!(t)) }
}
fn read(e: sxd_document::dom::Element) -> Tree {
  let mut kids = vec![];
  for c in e.children() {
    match c { sxd_document::dom::ChildOfElement::Element(e) => kids.push(read(e)), sxd_document::dom::ChildOfElement::Text(t) => push_text(&mut kids, t.text()), _ => kids.push(json!("?")) }
  }
  json!([e.name().local_part(), e.attributes().iter().map(|a| (a.name().local_part().to_string(), a.value().to_string())).collect::<BTreeMap<_, _>>(), kids])
}

fn xml_name() -> BoxedStrategy<String> { prop_oneof![6 => "[a-c]{1,2}", 1 => prop::sample::select(vec!["x-y", "a.b", "A_1", "é", "_a"]).prop_map(String::from)].boxed() }
fn xml_text() -> BoxedStrategy<Value> {
  prop_oneof![4 => "[a-z0-9 <>&'\"é]{1,8}".prop_map(|s| json!(s)), 1 => (-99i64..999).prop_map(|n| json!(n)), 1 => any::<bool>().prop_map(|b| json!(b))].boxed()
}
fn ruled() -> BoxedStrategy<(Spec, Made)> { spec().prop_filter("a rule", |s| !matches!(s, Spec::Bad(Value::Null))).prop_flat_map(|s| { let g = generator(&s); (Just(s), g) }).boxed() }
fn element(kids: BoxedStrategy<Vec<Kid>>) -> BoxedStrategy<El> {
  let attr = prop_oneof![1 => xml_text().prop_map(Attr::Plain), 1 => (ruled(), xml_text()).prop_map(|((s, m), v)| Attr::Match(s, m, v))];
  (xml_name(), prop::collection::btree_map(xml_name(), attr, 0..3), kids, prop::option::weighted(0.4, ruled()), prop::option::weighted(0.3, 0u64..4))
    .prop_map(|(name, attrs, kids, rule, examples)| El { name, attrs: attrs.into_iter().collect(), kids, rule, examples }).boxed()
}
fn kid() -> BoxedStrategy<Kid> {
  let text = || (xml_text(), prop::option::weighted(0.5, ruled())).prop_map(|(v, r)| Kid::Text(v, r));
  text().prop_recursive(4, 40, 4, move |inner| prop_oneof![1 => text(), 4 => element(prop::collection::vec(inner, 0..4).boxed()).prop_map(Kid::El)]).boxed()
}

fn xml(root: &El, w: Where, ty: &str, extra: bool, case: &mut Case) -> R {
  let mut doc = obj(json!({ "root": root.json() }));
  if extra { doc.insert("version".into(), json!("1.0")); doc.insert("charset".into(), json!("UTF-8")); }
  let text = json!(doc).to_string();
  let mut found = Found::default();
  let want = root.eval(&DocPath::root(), &mut found);
  case.nontrivial(root.count() >= 2);
  case.label_if(text.contains("examples"), "number of examples given");
  let got = put(w, Some(ty), &text)?;
  let body = got["body"][0].as_str().ok_or_else(|| format!("no text body: {}", got["body"]))?;
  ensure_eq!(got["body"][1], json!(ty), "content type");
  let parsed = sxd_document::parser::parse(body).map_err(|e| format!("no XML: {:?} {}", e, body))?;
  let doc = parsed.as_document();
  let root = doc.root().children().into_iter().find_map(|c| c.element()).ok_or("no root element")?;
  ensure_eq!(read(root), want, "document {}", body);
  let by_path = |v: &Value| -> Map<String, Value> { v.as_object().unwrap().iter().map(|(k, v)| (path_name(&DocPath::new(k.strip_prefix("body ").unwrap_or(k)).unwrap()), v.clone())).collect() };
  compare("rules", &json!(by_path(&got["rules"])), &json!(found.rules.iter().map(|(p, r)| (p.clone(), json!(["And", r]))).collect::<Map<_, _>>()))?;
  compare("generators", &json!(by_path(&got["generators"])), &json!(found.gens))
}

fn decode(s: &str) -> Vec<(String, String)> {
  let one = |s: &str| {
    let (b, mut out, mut i) = (s.as_bytes(), vec![], 0);
    while i < b.len() {
      if b[i] == b'%' { out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap()); i += 3 } else { out.push(if b[i] == b'+' { b' ' } else { b[i] }); i += 1 }
    }
    String::from_utf8(out).unwrap()
  };
  s.split('&').filter(|p| !p.is_empty()).map(|p| { let (k, v) = p.split_once('=').unwrap_or((p, "")); (one(k), one(v)) }).collect()
}
fn form(tree: &T, w: Where, case: &mut Case) -> R {
  let text = tree.json().to_string();
  let mut found = Found::default();
  let example = tree.example("$", false, false, &mut found);
  let mut params = vec![];
  // what can not be in a form has no rules and no generators either
  let drop = |p: DocPath, found: &mut Found| {
    let below = |k: &String| DocPath::new(k).unwrap().tokens().starts_with(p.tokens());
    found.rules.retain(|k, _| !below(k));
    found.gens.retain(|k, _| !below(k));
  };
  let mut dropped = false;
  for (k, v) in example.as_object().unwrap_or(&Map::new()) {
    let mut path = DocPath::root();
    path.push_field(k.clone());
    match v {
      Value::String(_) | Value::Number(_) => params.push((k.clone(), string(v))),
      Value::Array(a) => for (i, v) in a.iter().enumerate() {
        if v.is_string() || v.is_number() { params.push((k.clone(), string(v))) } else { dropped = true; let mut p = path.clone(); p.push_index(i); drop(p, &mut found) }
      },
      _ => { dropped = true; drop(path, &mut found) }
    }
  }
  case.nontrivial(tree.matchers() >= 2);
  case.label_if(dropped && !found.rules.is_empty(), "some values can not be in a form");
  let got = put(w, Some("application/x-www-form-urlencoded"), &text)?;
  let body = got["body"][0].as_str().ok_or_else(|| format!("no text body: {}", got["body"]))?;
  ensure_eq!(decode(body), params, "form {}", body);
  compare("rules", &got["rules"], &json!(found.dump_rules("body")))?;
  compare("generators", &got["generators"], &json!(found.dump_gens("body")))
}

pub fn p52(h: &mut H) {
  let place = || prop::sample::select(WHERE[..5].to_vec());
  h.check("xml", 12000, "at least two rules in the document", || (element(prop::collection::vec(kid(), 0..4).boxed()), place(), prop::sample::select(vec!["application/xml", "text/xml", "application/problem+xml"]), any::<bool>()),
    |(t, w, ty, extra), case| xml(t, *w, ty, *extra, case));
  let value = || prop_oneof![3 => tree(), 1 => g::ident().prop_map(|s| T::Leaf(json!(s)))];
  h.check("form", 15000, "at least two rules in the form", move || (prop_oneof![6 => members(value().boxed()), 1 => document()].prop_filter("recognised as JSON", |t| { let t = t.json().to_string(); t.starts_with('[') || t[2..].starts_with(|c: char| c.is_ascii_alphanumeric()) }), place()), |(t, w), case| form(t, *w, case));
  h.assume("names of XML elements have no namespace prefix; rules of any element of a list stay when only some elements can be in the form");
}
