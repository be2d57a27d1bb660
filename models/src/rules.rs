//! Generators, reference printers and canonical dumps for matching rules and value generators; P15, P16, P18.
use std::collections::{BTreeMap, HashMap};
use proptest::prelude::*;
use itertools::Either;
use pact_models::{HttpStatus, PactSpecification};
use pact_models::expression_parser::DataType;
use pact_models::generators::{Generator, GeneratorCategory, Generators, UuidFormat, generators_from_json, generators_to_json};
use pact_models::matchingrules::{Category, MatchingRule, MatchingRuleCategory, MatchingRules, RuleList, RuleLogic, matchers_from_json, matchers_to_json};
use pact_models::matchingrules::expressions::{MatchingRuleDefinition, ValueType};
use pact_models::path_exp::{DocPath, PathToken};
use pvfw::{ensure, ensure_eq, H, R};
use serde_json::{json, Map, Value};

use crate::g::*;
use crate::paths::{print, reference_weight, tokens};

pub type Tokens = Vec<PathToken>;

// ---------------------------------------------------------------- generators

pub fn data_type() -> B<DataType> {
  prop_oneof![Just(DataType::STRING), Just(DataType::INTEGER), Just(DataType::DECIMAL), Just(DataType::FLOAT), Just(DataType::RAW), Just(DataType::BOOLEAN)].boxed()
}

pub fn uuid_format() -> B<UuidFormat> {
  prop_oneof![Just(UuidFormat::Simple), Just(UuidFormat::LowerCaseHyphenated), Just(UuidFormat::UpperCaseHyphenated), Just(UuidFormat::Urn)].boxed()
}

/// Any generator that has a JSON form.
pub fn generator() -> B<Generator> {
  let opt = || prop::option::of(text());
  prop_oneof![
    (any::<i32>(), any::<i32>()).prop_map(|(a, b)| Generator::RandomInt(a, b)),
    prop::option::of(uuid_format()).prop_map(Generator::Uuid),
    any::<u16>().prop_map(Generator::RandomDecimal),
    any::<u16>().prop_map(Generator::RandomHexadecimal),
    any::<u16>().prop_map(Generator::RandomString),
    text().prop_map(Generator::Regex),
    (opt(), opt()).prop_map(|(a, b)| Generator::Date(a, b)),
    (opt(), opt()).prop_map(|(a, b)| Generator::Time(a, b)),
    (opt(), opt()).prop_map(|(a, b)| Generator::DateTime(a, b)),
    Just(Generator::RandomBoolean),
    (text(), prop::option::of(data_type())).prop_map(|(a, b)| Generator::ProviderStateGenerator(a, b)),
    (text(), text()).prop_map(|(a, b)| Generator::MockServerURL(a, b)),
  ].boxed()
}

fn dt_name(d: &DataType) -> &'static str {
  match d { DataType::STRING => "STRING", DataType::INTEGER => "INTEGER", DataType::DECIMAL => "DECIMAL", DataType::FLOAT => "FLOAT",
    DataType::RAW => "RAW", DataType::BOOLEAN => "BOOLEAN" }
}

/// Reference JSON form of a generator.
pub fn gen_json(g: &Generator) -> Value {
  let fe = |t: &str, f: &Option<String>, e: &Option<String>| {
    let mut m = Map::new();
    m.insert("type".into(), json!(t));
    if let Some(f) = f { m.insert("format".into(), json!(f)); }
    if let Some(e) = e { m.insert("expression".into(), json!(e)); }
    Value::Object(m)
  };
  match g {
    Generator::RandomInt(a, b) => json!({"type": "RandomInt", "min": a, "max": b}),
    Generator::Uuid(None) => json!({"type": "Uuid"}),
    Generator::Uuid(Some(f)) => json!({"type": "Uuid", "format": match f { UuidFormat::Simple => "simple", UuidFormat::LowerCaseHyphenated => "lower-case-hyphenated",
      UuidFormat::UpperCaseHyphenated => "upper-case-hyphenated", UuidFormat::Urn => "URN" }}),
    Generator::RandomDecimal(d) => json!({"type": "RandomDecimal", "digits": d}),
    Generator::RandomHexadecimal(d) => json!({"type": "RandomHexadecimal", "digits": d}),
    Generator::RandomString(d) => json!({"type": "RandomString", "size": d}),
    Generator::Regex(r) => json!({"type": "Regex", "regex": r}),
    Generator::Date(f, e) => fe("Date", f, e),
    Generator::Time(f, e) => fe("Time", f, e),
    Generator::DateTime(f, e) => fe("DateTime", f, e),
    Generator::RandomBoolean => json!({"type": "RandomBoolean"}),
    Generator::ProviderStateGenerator(e, None) => json!({"type": "ProviderState", "expression": e}),
    Generator::ProviderStateGenerator(e, Some(d)) => json!({"type": "ProviderState", "expression": e, "dataType": dt_name(d)}),
    Generator::MockServerURL(e, r) => json!({"type": "MockServerURL", "example": e, "regex": r}),
    Generator::ArrayContains(v) => json!({"type": "ArrayContains", "variants": variants_json(v)}),
  }
}

fn variants_json(variants: &[(usize, MatchingRuleCategory, HashMap<DocPath, Generator>)]) -> Value {
  Value::Array(variants.iter().map(|(i, r, g)| {
    let mut v = json!({"index": i, "rules": cat_dump(r)});
    if !g.is_empty() { v["generators"] = Value::Object(g.iter().map(|(p, g)| (print(p.tokens()), gen_json(g))).collect()); }
    v
  }).collect())
}

// ---------------------------------------------------------------- rules

pub fn http_status() -> B<HttpStatus> {
  prop_oneof![Just(HttpStatus::Information), Just(HttpStatus::Success), Just(HttpStatus::Redirect), Just(HttpStatus::ClientError),
    Just(HttpStatus::ServerError), Just(HttpStatus::NonError), Just(HttpStatus::Error),
    prop::collection::vec(any::<u16>(), 0..4).prop_map(HttpStatus::StatusCodes)].boxed()
}

fn num() -> B<usize> { prop_oneof![5 => 0usize..20, 1 => any::<usize>()].boxed() }

/// Rules without nesting.
pub fn simple_rule() -> B<MatchingRule> {
  prop_oneof![
    Just(MatchingRule::Equality), text().prop_map(MatchingRule::Regex), Just(MatchingRule::Type),
    num().prop_map(MatchingRule::MinType), num().prop_map(MatchingRule::MaxType),
    (num(), num()).prop_map(|(a, b)| MatchingRule::MinMaxType(a, b)),
    text().prop_map(MatchingRule::Timestamp), text().prop_map(MatchingRule::Time), text().prop_map(MatchingRule::Date),
    text().prop_map(MatchingRule::Include), Just(MatchingRule::Number), Just(MatchingRule::Integer), Just(MatchingRule::Decimal),
    Just(MatchingRule::Null), text().prop_map(MatchingRule::ContentType), Just(MatchingRule::Values), Just(MatchingRule::Boolean),
    http_status().prop_map(MatchingRule::StatusCode), Just(MatchingRule::NotEmpty), Just(MatchingRule::Semver),
  ].boxed()
}

fn with_nesting(inner: B<MatchingRule>) -> B<MatchingRule> {
  let def = (text(), prop::collection::vec(inner.clone(), 0..3), prop::option::of(generator()), any::<bool>())
    .prop_map(|(value, rules, generator, key)| {
      let d = MatchingRuleDefinition { value, value_type: ValueType::Unknown, rules: rules.into_iter().map(Either::Left).collect(), generator, expression: String::new() };
      if key { MatchingRule::EachKey(d) } else { MatchingRule::EachValue(d) }
    });
  let gens = prop::collection::vec((tokens(2), generator()), 0..3)
    .prop_map(|v| v.into_iter().map(|(t, g)| (DocPath::from_tokens(t), g)).collect::<HashMap<_, _>>());
  let arr = prop::collection::vec((0usize..5, cat_spec(inner, tokens(2).boxed(), 0), gens), 0..3)
    .prop_map(|v| MatchingRule::ArrayContains(v.into_iter().map(|(i, c, g)| (i, c.build(Category::BODY), g)).collect()));
  prop_oneof![def, arr].boxed()
}

/// Every kind of rule, nested at most twice.
pub fn rule() -> B<MatchingRule> {
  let d1 = prop_oneof![4 => simple_rule(), 1 => with_nesting(simple_rule())].boxed();
  prop_oneof![8 => simple_rule(), 2 => with_nesting(d1)].boxed()
}

/// Reference JSON form of a rule.
pub fn rule_json(r: &MatchingRule) -> Value {
  let def = |t: &str, d: &MatchingRuleDefinition| {
    let mut v = json!({"match": t, "rules": d.rules.iter().map(|r| match r { Either::Left(r) => rule_json(r), Either::Right(r) => json!({"reference": r.name}) }).collect::<Vec<_>>()});
    if !d.value.is_empty() { v["value"] = json!(d.value); }
    if let Some(g) = &d.generator { v["generator"] = gen_json(g); }
    v
  };
  match r {
    MatchingRule::Equality => json!({"match": "equality"}),
    MatchingRule::Regex(s) => json!({"match": "regex", "regex": s}),
    MatchingRule::Type => json!({"match": "type"}),
    MatchingRule::MinType(n) => json!({"match": "type", "min": n}),
    MatchingRule::MaxType(n) => json!({"match": "type", "max": n}),
    MatchingRule::MinMaxType(a, b) => json!({"match": "type", "min": a, "max": b}),
    MatchingRule::Timestamp(f) => json!({"match": "datetime", "format": f}),
    MatchingRule::Time(f) => json!({"match": "time", "format": f}),
    MatchingRule::Date(f) => json!({"match": "date", "format": f}),
    MatchingRule::Include(s) => json!({"match": "include", "value": s}),
    MatchingRule::Number => json!({"match": "number"}),
    MatchingRule::Integer => json!({"match": "integer"}),
    MatchingRule::Decimal => json!({"match": "decimal"}),
    MatchingRule::Null => json!({"match": "null"}),
    MatchingRule::ContentType(s) => json!({"match": "contentType", "value": s}),
    MatchingRule::ArrayContains(v) => json!({"match": "arrayContains", "variants": variants_json(v)}),
    MatchingRule::Values => json!({"match": "values"}),
    MatchingRule::Boolean => json!({"match": "boolean"}),
    MatchingRule::StatusCode(s) => json!({"match": "statusCode", "status": status_json(s)}),
    MatchingRule::NotEmpty => json!({"match": "notEmpty"}),
    MatchingRule::Semver => json!({"match": "semver"}),
    MatchingRule::EachKey(d) => def("eachKey", d),
    MatchingRule::EachValue(d) => def("eachValue", d),
  }
}

pub fn status_json(s: &HttpStatus) -> Value {
  match s {
    HttpStatus::Information => json!("info"), HttpStatus::Success => json!("success"), HttpStatus::Redirect => json!("redirect"),
    HttpStatus::ClientError => json!("clientError"), HttpStatus::ServerError => json!("serverError"),
    HttpStatus::StatusCodes(c) => json!(c), HttpStatus::NonError => json!("nonError"), HttpStatus::Error => json!("error"),
  }
}

pub fn logic_json(l: RuleLogic) -> Value { json!(match l { RuleLogic::And => "AND", RuleLogic::Or => "OR" }) }

#[derive(Debug, Clone)]
pub struct ListSpec { pub logic: RuleLogic, pub rules: Vec<MatchingRule> }
impl ListSpec {
  pub fn json(&self) -> Value { json!({"combine": logic_json(self.logic), "matchers": self.rules.iter().map(rule_json).collect::<Vec<_>>()}) }
  pub fn build(&self) -> RuleList { RuleList { rules: self.rules.clone(), rule_logic: self.logic, cascaded: false } }
}

pub fn logic() -> B<RuleLogic> { prop_oneof![3 => Just(RuleLogic::And), 1 => Just(RuleLogic::Or)].boxed() }

pub fn list_spec(rule: B<MatchingRule>) -> B<ListSpec> {
  (logic(), prop::collection::vec(rule, 1..4)).prop_map(|(logic, rules)| ListSpec { logic, rules }).boxed()
}

/// Rules by path, paths distinct as printed.
#[derive(Debug, Clone, Default)]
pub struct CatSpec(pub Vec<(Tokens, ListSpec)>);
impl CatSpec {
  pub fn build(&self, name: Category) -> MatchingRuleCategory {
    let mut c = MatchingRuleCategory::empty(name);
    for (t, l) in &self.0 { for r in &l.rules { c.add_rule(DocPath::from_tokens(t.clone()), r.clone(), l.logic); } }
    c
  }
  pub fn dump(&self) -> Value { Value::Object(self.0.iter().map(|(t, l)| (print(t), l.json())).collect()) }
}

pub fn cat_spec(rule: B<MatchingRule>, path: B<Tokens>, min: usize) -> B<CatSpec> {
  prop::collection::vec((path, list_spec(rule)), min..4).prop_map(|mut v| {
    let mut seen = std::collections::BTreeSet::new();
    v.retain(|(t, _)| seen.insert(print(t)));
    CatSpec(v)
  }).boxed()
}

/// Canonical form of a category, keyed by path expression rebuilt from the tokens.
pub fn cat_dump(c: &MatchingRuleCategory) -> Value {
  Value::Object(c.rules.iter().map(|(p, l)| (print(p.tokens()),
    json!({"combine": logic_json(l.rule_logic), "matchers": l.rules.iter().map(rule_json).collect::<Vec<_>>()}))).collect())
}

/// Canonical form of a rule set (categories without rules are left out).
pub fn rules_dump(r: &MatchingRules) -> Value {
  Value::Object(r.rules.iter().filter(|(_, c)| !c.rules.is_empty()).map(|(k, c)| (cat_name(k).to_string(), cat_dump(c))).collect())
}

pub fn cat_name(c: &Category) -> &'static str {
  match c { Category::METHOD => "method", Category::PATH => "path", Category::HEADER => "header", Category::QUERY => "query", Category::BODY => "body",
    Category::STATUS => "status", Category::CONTENTS => "contents", Category::METADATA => "metadata" }
}

#[derive(Debug, Clone, Default)]
pub struct RulesSpec(pub BTreeMap<Category, CatSpec>);
impl RulesSpec {
  pub fn build(&self) -> MatchingRules {
    let mut m = MatchingRules::default();
    for (k, c) in &self.0 { m.rules.insert(k.clone(), c.build(k.clone())); }
    m
  }
  pub fn is_empty(&self) -> bool { self.0.values().all(|c| c.0.is_empty()) }
  pub fn dump(&self) -> Value { Value::Object(self.0.iter().filter(|(_, c)| !c.0.is_empty()).map(|(k, c)| (cat_name(k).to_string(), c.dump())).collect()) }
  /// Expected V3/V4 JSON.
  pub fn json(&self) -> Value {
    Value::Object(self.0.iter().filter(|(_, c)| !c.0.is_empty()).map(|(k, c)| (cat_name(k).to_string(), match k {
      Category::PATH => c.0[0].1.json(),
      Category::HEADER | Category::QUERY => Value::Object(c.0.iter().map(|(t, l)| (match &t[1] { PathToken::Field(f) => f.clone(), _ => unreachable!() }, l.json())).collect()),
      _ => c.dump(),
    })).collect())
  }
}

pub fn field_path(names: B<String>) -> B<Tokens> { names.prop_map(|f| vec![PathToken::Root, PathToken::Field(f)]).boxed() }

/// Rule sets over the given categories.
pub fn rules_spec(cats: &'static [Category], rule: B<MatchingRule>) -> B<RulesSpec> {
  prop::collection::vec((prop::sample::select(cats), any::<u8>()), 0..4)
    .prop_flat_map(move |cats| {
      let rule = rule.clone();
      cats.into_iter().map(|(c, _)| {
        let path = match c {
          Category::METHOD | Category::PATH | Category::STATUS => Just(vec![]).boxed(),
          Category::HEADER | Category::QUERY => field_path(field()),
          _ => tokens(4),
        };
        cat_spec(rule.clone(), path, 1).prop_map(move |s| (c.clone(), s))
      }).collect::<Vec<_>>()
    }).prop_map(|v| RulesSpec(v.into_iter().collect())).boxed()
}

pub const HTTP_CATS: &[Category] = &[Category::METHOD, Category::PATH, Category::HEADER, Category::QUERY, Category::BODY, Category::BODY, Category::STATUS];
pub const MSG_CATS: &[Category] = &[Category::BODY, Category::METADATA];
pub const ALL_CATS: &[Category] = &[Category::METHOD, Category::PATH, Category::HEADER, Category::QUERY, Category::BODY, Category::STATUS, Category::CONTENTS, Category::METADATA];

// ---------------------------------------------------------------- generator sets

#[derive(Debug, Clone, Default)]
pub struct GensSpec(pub BTreeMap<GeneratorCategory, Vec<(Tokens, Generator)>>);

pub fn gcat_name(c: &GeneratorCategory) -> &'static str {
  match c { GeneratorCategory::METHOD => "method", GeneratorCategory::PATH => "path", GeneratorCategory::HEADER => "header", GeneratorCategory::QUERY => "query",
    GeneratorCategory::BODY => "body", GeneratorCategory::STATUS => "status", GeneratorCategory::METADATA => "metadata" }
}

impl GensSpec {
  pub fn build(&self) -> Generators {
    let mut g = Generators::default();
    for (c, v) in &self.0 { for (t, x) in v { g.add_generator_with_subcategory(c, DocPath::from_tokens(t.clone()), x.clone()); } }
    g
  }
  pub fn is_empty(&self) -> bool { self.0.values().all(|c| c.is_empty()) }
  pub fn dump(&self) -> Value {
    Value::Object(self.0.iter().map(|(c, v)| (gcat_name(c).to_string(), Value::Object(v.iter().map(|(t, g)| (print(t), gen_json(g))).collect()))).collect())
  }
  pub fn json(&self) -> Value {
    Value::Object(self.0.iter().map(|(c, v)| (gcat_name(c).to_string(), match c {
      GeneratorCategory::PATH | GeneratorCategory::METHOD | GeneratorCategory::STATUS => gen_json(&v[0].1),
      GeneratorCategory::HEADER | GeneratorCategory::QUERY => Value::Object(v.iter().map(|(t, g)| (match &t[1] { PathToken::Field(f) => f.clone(), _ => unreachable!() }, gen_json(g))).collect()),
      _ => Value::Object(v.iter().map(|(t, g)| (print(t), gen_json(g))).collect()),
    })).collect())
  }
}

pub fn gens_dump(g: &Generators) -> Value {
  Value::Object(g.categories.iter().filter(|(_, v)| !v.is_empty())
    .map(|(c, v)| (gcat_name(c).to_string(), Value::Object(v.iter().map(|(p, g)| (print(p.tokens()), gen_json(g))).collect()))).collect())
}

pub const HTTP_GCATS: &[GeneratorCategory] = &[GeneratorCategory::METHOD, GeneratorCategory::PATH, GeneratorCategory::HEADER, GeneratorCategory::QUERY, GeneratorCategory::BODY, GeneratorCategory::STATUS];
pub const MSG_GCATS: &[GeneratorCategory] = &[GeneratorCategory::BODY, GeneratorCategory::METADATA];
pub const ALL_GCATS: &[GeneratorCategory] = &[GeneratorCategory::METHOD, GeneratorCategory::PATH, GeneratorCategory::HEADER, GeneratorCategory::QUERY, GeneratorCategory::BODY, GeneratorCategory::STATUS, GeneratorCategory::METADATA];

pub fn gens_spec(cats: &'static [GeneratorCategory]) -> B<GensSpec> {
  prop::collection::vec(prop::sample::select(cats), 0..3).prop_flat_map(|cats| cats.into_iter().map(|c| {
    let path = match c {
      GeneratorCategory::METHOD | GeneratorCategory::PATH | GeneratorCategory::STATUS => Just(vec![]).boxed(),
      GeneratorCategory::HEADER | GeneratorCategory::QUERY => field_path(field()),
      _ => tokens(4),
    };
    prop::collection::vec((path, generator()), 1..4).prop_map(move |mut v| {
      let mut seen = std::collections::BTreeSet::new();
      v.retain(|(t, _)| seen.insert(print(t)));
      (c, v)
    })
  }).collect::<Vec<_>>()).prop_map(|v| GensSpec(v.into_iter().collect())).boxed()
}

// ---------------------------------------------------------------- checks

fn err<T>(r: anyhow::Result<T>, what: &str) -> Result<T, String> { r.map_err(|e| format!("{}: {:?}", what, e)) }

fn has_array_contains(r: &MatchingRule) -> bool { matches!(r, MatchingRule::ArrayContains(_)) }

pub fn p16(h: &mut H) {
  h.assume("Rule lists are non-empty and header/query rules are keyed by a plain field path, as every producer in the code base makes them.");
  h.check("rule_json", 20_000, "every rule kind with random attributes, nested; non-trivial: a rule with attributes", rule, |r, c| {
    let want = rule_json(r);
    c.nontrivial(want.as_object().unwrap().len() > 1);
    c.label(want["match"].as_str().unwrap());
    ensure_eq!(r.to_json(), want, "to_json");
    let back = err(MatchingRule::from_json(&want), "from_json of its own JSON")?;
    ensure_eq!(rule_json(&back), want, "reloaded rule");
    ensure!(&back == r, "reloaded rule is not equal to the original: {:?} / {:?}", back, r);
    let text: Value = serde_json::from_str(&r.to_json().to_string()).map_err(|e| e.to_string())?;
    ensure_eq!(rule_json(&err(MatchingRule::from_json(&text), "from text")?), want, "reloaded from text");
    let mut alias = want.clone();
    let t = alias.as_object_mut().unwrap().remove("match").unwrap();
    alias["pact:matcher:type"] = t;
    ensure_eq!(rule_json(&err(MatchingRule::from_json(&alias), "pact:matcher:type form")?), want, "pact:matcher:type form");
    Ok(())
  });
  h.check("create", 20_000, "create(name, values) rebuilds the rule (array-contains excluded); non-trivial: a rule with attributes",
    || prop_oneof![6 => simple_rule(), 1 => with_nesting(simple_rule()).prop_filter("no variants", |r| !has_array_contains(r))], |r, c| {
    let values = Value::Object(r.values().into_iter().map(|(k, v)| (k.to_string(), v)).collect());
    c.nontrivial(!values.as_object().unwrap().is_empty());
    c.label(r.name());
    let back = err(MatchingRule::create(&r.name(), &values), "create")?;
    ensure_eq!(rule_json(&back), rule_json(r), "created from name {} and values {}", r.name(), values);
    // attributes of the JSON form are the values
    if !matches!(r, MatchingRule::ArrayContains(_)) {
      let mut j = rule_json(r); j.as_object_mut().unwrap().remove("match");
      ensure_eq!(values, j, "values() and the JSON attributes");
    }
    Ok(())
  });
  h.pinned("array-contains-values", "ArrayContains rule recreated from name() and values()", || {
    let mut cat = MatchingRuleCategory::empty("body");
    cat.add_rule(DocPath::root(), MatchingRule::Type, RuleLogic::And);
    let r = MatchingRule::ArrayContains(vec![(0, cat, HashMap::new())]);
    let values = Value::Object(r.values().into_iter().map(|(k, v)| (k.to_string(), v)).collect());
    let back = err(MatchingRule::create(&r.name(), &values), "create")?;
    ensure_eq!(rule_json(&back), rule_json(&r), "array-contains");
    Ok(())
  });
  h.check("legacy_forms", 10_000, "older spellings of rules load as the rule they stand for; non-trivial: all", || (text(), num(), num(), any::<bool>()), |(s, a, b, as_text), c| {
    c.nontrivial(true);
    let n = |x: &usize| if *as_text { json!(x.to_string()) } else { json!(x) };
    for (j, want) in [
      (json!({"regex": s}), MatchingRule::Regex(s.clone())),
      (json!({"min": n(a)}), MatchingRule::MinType(*a)),
      (json!({"max": n(a)}), MatchingRule::MaxType(*a)),
      (json!({"timestamp": s}), MatchingRule::Timestamp(s.clone())),
      (json!({"time": s}), MatchingRule::Time(s.clone())),
      (json!({"date": s}), MatchingRule::Date(s.clone())),
      (json!({"match": "type", "min": n(a)}), MatchingRule::MinType(*a)),
      (json!({"match": "type", "max": n(a)}), MatchingRule::MaxType(*a)),
      (json!({"match": "type", "max": n(a), "min": n(b)}), MatchingRule::MinMaxType(*b, *a)),
      (json!({"match": "min", "min": n(a)}), MatchingRule::MinType(*a)),
      (json!({"match": "max", "max": n(a)}), MatchingRule::MaxType(*a)),
      (json!({"match": "timestamp", "timestamp": s}), MatchingRule::Timestamp(s.clone())),
      (json!({"match": "timestamp", "format": s}), MatchingRule::Timestamp(s.clone())),
      (json!({"match": "date", "date": s}), MatchingRule::Date(s.clone())),
      (json!({"match": "time", "time": s}), MatchingRule::Time(s.clone())),
      (json!({"match": "datetime"}), MatchingRule::Timestamp(String::new())),
      (json!({"match": "date"}), MatchingRule::Date(String::new())),
      (json!({"match": "time"}), MatchingRule::Time(String::new())),
      (json!({"match": "real"}), MatchingRule::Decimal),
      (json!({"match": "content-type", "value": s}), MatchingRule::ContentType(s.clone())),
      (json!({"match": "not-empty"}), MatchingRule::NotEmpty),
      (json!({"match": "statusCode"}), MatchingRule::StatusCode(HttpStatus::Success)),
    ] {
      let got = err(MatchingRule::from_json(&j), &j.to_string())?;
      ensure_eq!(rule_json(&got), rule_json(&want), "{}", j);
    }
    for bad in [json!({}), json!(s), json!({"match": format!("x{}", s)}), json!({"match": "regex"}), json!({"match": "include"}), json!({"match": "min"}), json!({"match": "max"}),
      json!({"match": "contentType"}), json!({"match": "arrayContains"}), json!({"match": "arrayContains", "variants": s}), json!({"match": "statusCode", "status": format!("x{}", s)}),
      json!({"match": "eachKey", "rules": s}), json!({"match": "eachValue", "rules": [s]}), json!([]), Value::Null] {
      ensure!(MatchingRule::from_json(&bad).is_err(), "{} was accepted", bad);
    }
    Ok(())
  });
  h.check("v3_v4_sets", 8_000, "random rule sets over all categories, written and read back; non-trivial: at least two lists", || (rules_spec(ALL_CATS, rule()), any::<bool>()), |(s, v4), c| {
    c.nontrivial(s.0.values().map(|c| c.0.len()).sum::<usize>() > 1);
    for k in s.0.keys() { c.label(cat_name(k)); }
    let m = s.build();
    let ver = if *v4 { PactSpecification::V4 } else { PactSpecification::V3 };
    let got = matchers_to_json(&m, &ver);
    ensure_eq!(got, s.json(), "JSON form");
    let back = err(matchers_from_json(&json!({"matchingRules": got}), &None), "reading back")?;
    ensure_eq!(rules_dump(&back), s.dump(), "read back");
    ensure_eq!(matchers_to_json(&back, &ver), got, "written again");
    // the deprecated attribute and lower case combination names are read the same way
    let lower: Value = serde_json::from_str(&got.to_string().replace("\"combine\":\"OR\"", "\"combine\":\"or\"")).map_err(|e| e.to_string())?;
    let back = err(matchers_from_json(&json!({"requestMatchingRules": lower}), &Some("requestMatchingRules".into())), "deprecated name")?;
    ensure_eq!(rules_dump(&back), s.dump(), "deprecated name");
    ensure_eq!(m.is_empty(), s.is_empty(), "is_empty");
    ensure_eq!(m.is_not_empty(), !s.is_empty(), "is_not_empty");
    Ok(())
  });
  h.check("v2_sets", 10_000, "single rules per path written in V2 form and read back; non-trivial: at least two rules",
    || {
      let names = || "[a-zA-Z][a-zA-Z0-9-]{0,6}".boxed();
      let one = |p: B<Tokens>| prop::collection::vec((p, rule()), 0..3).prop_map(|v| { let mut seen = std::collections::BTreeSet::new();
        CatSpec(v.into_iter().filter(|(t, _)| seen.insert(print(t))).map(|(t, r)| (t, ListSpec { logic: RuleLogic::And, rules: vec![r] })).collect()) });
      (one(Just(vec![]).boxed()), one(field_path(names())), one(field_path(names())), one(tokens(4)))
    }, |(p, hd, q, b), c| {
    let s = RulesSpec([(Category::PATH, p.clone()), (Category::HEADER, hd.clone()), (Category::QUERY, q.clone()), (Category::BODY, b.clone())].into_iter().collect());
    let mut want = Map::new();
    for (_, l) in &p.0 { want.insert("$.path".into(), rule_json(&l.rules[0])); }
    for (t, l) in &hd.0 { want.insert(format!("$.headers{}", &print(t)[1..]), rule_json(&l.rules[0])); }
    for (t, l) in &q.0 { want.insert(format!("$.query{}", &print(t)[1..]), rule_json(&l.rules[0])); }
    for (t, l) in &b.0 { want.insert(format!("$.body{}", &print(t)[1..]), rule_json(&l.rules[0])); }
    c.nontrivial(want.len() > 1);
    let m = s.build();
    for ver in [PactSpecification::V1, PactSpecification::V1_1, PactSpecification::V2] {
      let got = matchers_to_json(&m, &ver);
      ensure_eq!(got, Value::Object(want.clone()), "V2 JSON form");
    }
    let back = err(matchers_from_json(&json!({"matchingRules": want}), &None), "reading back")?;
    ensure_eq!(rules_dump(&back), s.dump(), "read back");
    Ok(())
  });
  h.check("algebra", 10_000, "add_rules, merge, rename keep every rule; non-trivial: both sets non-empty", || (rules_spec(ALL_CATS, simple_rule()), rules_spec(ALL_CATS, simple_rule())), |(a, b), c| {
    c.nontrivial(!a.is_empty() && !b.is_empty());
    let mut m = a.build();
    m.merge(&b.build());
    let mut want = a.clone();
    for (k, cat) in &b.0 {
      let e = want.0.entry(k.clone()).or_default();
      for (t, l) in &cat.0 {
        if let Some((_, x)) = e.0.iter_mut().find(|(u, _)| u == t) { x.rules.extend(l.rules.clone()); } else { e.0.push((t.clone(), l.clone())); }
      }
    }
    ensure_eq!(rules_dump(&m), want.dump(), "merge");
    let r = a.build().rename("body", "contents");
    if !a.0.contains_key(&Category::CONTENTS) {
      let mut w = a.clone();
      if let Some(x) = w.0.remove(&Category::BODY) { w.0.insert(Category::CONTENTS, x); }
      ensure_eq!(rules_dump(&r), w.dump(), "rename");
      for (k, v) in &r.rules { ensure_eq!(&v.name, k, "renamed category name"); }
    }
    ensure!(a.build() == a.build(), "equality is reflexive");
    ensure_eq!(a.build() == b.build(), a.dump() == b.dump(), "equality follows the content\n a: {}\n b: {}", a.dump(), b.dump());
    for (k, cat) in &a.0 {
      let built = cat.build(k.clone());
      for (t, l) in &cat.0 {
        let rl = &built.rules[&DocPath::from_tokens(t.clone())];
        let u = rl.remove_duplicates();
        let mut seen = std::collections::BTreeSet::new();
        let uniq: Vec<Value> = l.rules.iter().map(rule_json).filter(|j| seen.insert(j.to_string())).collect();
        ensure_eq!(u.rules.iter().map(rule_json).collect::<Vec<_>>(), uniq, "remove_duplicates");
        ensure_eq!(u.rule_logic, l.logic, "remove_duplicates keeps the logic");
        let both = rl.and_rules(&u);
        ensure_eq!(both.rules.len(), rl.rules.len() + u.rules.len(), "and_rules");
        ensure_eq!(rl.filter(|r| r.is_type_matcher()).rules.len(), rl.rules.iter().filter(|r| rule_json(r)["match"] == "type").count(), "filter");
        ensure_eq!(rl.type_matcher_defined(), rl.rules.iter().any(|r| rule_json(r)["match"] == "type"), "type_matcher_defined");
        ensure_eq!(rl.has_non_type_matchers(), rl.rules.iter().any(|r| rule_json(r)["match"] != "type"), "has_non_type_matchers");
        let _ = rl.generate_description(true);
      }
    }
    Ok(())
  });
}

pub fn p18(h: &mut H) {
  h.check("generator_json", 20_000, "every serialisable generator kind with random attributes; non-trivial: has attributes", generator, |g, c| {
    let want = gen_json(g);
    c.nontrivial(want.as_object().unwrap().len() > 1);
    c.label(g.name());
    let got = g.to_json().ok_or("no JSON form")?;
    ensure_eq!(got, want, "to_json");
    ensure_eq!(want["type"], json!(g.name()), "name");
    let back = Generator::from_map(&g.name(), want.as_object().unwrap()).ok_or("own JSON form was not read")?;
    ensure_eq!(gen_json(&back), want, "read back");
    ensure!(&back == g, "read back but not equal: {:?} {:?}", back, g);
    let back = err(Generator::create(&g.name(), &got), "create")?;
    ensure_eq!(gen_json(&back), want, "create");
    Ok(())
  });
  h.check("sets", 12_000, "random generator sets over all categories, written and read back; non-trivial: at least two generators", || gens_spec(ALL_GCATS), |s, c| {
    c.nontrivial(s.0.values().map(|v| v.len()).sum::<usize>() > 1);
    let g = s.build();
    for ver in [PactSpecification::V3, PactSpecification::V4] {
      let got = generators_to_json(&g, &ver);
      ensure_eq!(got, s.json(), "JSON form");
      let back = err(generators_from_json(&json!({"generators": got})), "reading back")?;
      ensure_eq!(gens_dump(&back), s.dump(), "read back");
      ensure_eq!(generators_to_json(&back, &ver), got, "written again");
    }
    ensure_eq!(generators_to_json(&g, &PactSpecification::V2), Value::Null, "there are no generators before V3");
    ensure_eq!(g.is_empty(), s.is_empty(), "is_empty");
    Ok(())
  });
  h.check("values", 10_000, "create(name, values) rebuilds the generator; non-trivial: has attributes", generator, |g, c| {
    let values = Value::Object(g.values().into_iter().map(|(k, v)| (k.to_string(), v)).collect());
    c.nontrivial(!values.as_object().unwrap().is_empty());
    c.label(g.name());
    let back = err(Generator::create(&g.name(), &values), "create")?;
    ensure_eq!(gen_json(&back), gen_json(g), "created from name {} and values {}", g.name(), values);
    Ok(())
  });
  h.check("algebra", 10_000, "add_generators: later ones win, nothing else is lost; equality follows content; non-trivial: both non-empty", || (gens_spec(ALL_GCATS), gens_spec(ALL_GCATS)), |(a, b), c| {
    c.nontrivial(!a.is_empty() && !b.is_empty());
    let mut g = a.build(); g.add_generators(b.build());
    let mut want = a.clone();
    for (k, v) in &b.0 {
      let e = want.0.entry(*k).or_default();
      for (t, x) in v { if let Some(y) = e.iter_mut().find(|(u, _)| u == t) { y.1 = x.clone(); } else { e.push((t.clone(), x.clone())); } }
    }
    ensure_eq!(gens_dump(&g), want.dump(), "add_generators");
    ensure_eq!(a.build() == b.build(), a.dump() == b.dump(), "equality follows the content");
    ensure!(a.build() == a.build(), "equality is reflexive");
    Ok(())
  });
}

fn small_tokens() -> B<Tokens> {
  let t = prop_oneof![5 => "[a-c]".prop_map(PathToken::Field), 3 => (0usize..3).prop_map(PathToken::Index), 2 => Just(PathToken::Star), 2 => Just(PathToken::StarIndex)];
  prop::collection::vec(t, 0..4).prop_map(|mut v| { v.insert(0, PathToken::Root); v }).boxed()
}

fn marked(v: Vec<Tokens>) -> Vec<(Tokens, String)> {
  let mut seen = std::collections::BTreeSet::new();
  v.into_iter().filter(|t| seen.insert(print(t))).enumerate().map(|(i, t)| (t, format!("r{}", i))).collect()
}

pub fn p15(h: &mut H) {
  let strat = || prop_oneof![
      3 => (prop::collection::vec(small_tokens(), 0..7), prop::collection::vec(prop_oneof!["[a-c]", "[0-2]"], 0..4), 0usize..5),
      // a deep concrete path and rule paths made from it: prefixes with some elements replaced by wildcards
      1 => (prop::collection::vec(prop_oneof!["[a-c]", "[0-2]"], 1..12), prop::collection::vec((any::<prop::sample::Index>(), any::<u32>(), any::<u32>()), 1..6), 0usize..5).prop_map(|(frags, specs, cat)| {
        let paths = specs.into_iter().map(|(len, keep, keep2)| {
          let n = len.index(frags.len() + 1);
          let mut t: Tokens = frags[..n].iter().enumerate().map(|(i, f)| if (keep & keep2) >> i & 1 == 1 { match f.parse() { Ok(k) => PathToken::Index(k), _ => PathToken::Field(f.clone()) } }
            else if keep2 >> i & 3 == 0 && f.parse::<usize>().is_ok() { PathToken::StarIndex } else { PathToken::Star }).collect();
          t.insert(0, PathToken::Root);
          t
        }).collect();
        (paths, frags, cat)
      }),
    ].prop_map(|(paths, frags, cat): (Vec<Tokens>, Vec<String>, usize)| { let mut f = vec!["$".to_string()]; f.extend(frags); (marked(paths), f, cat) });
  h.check("most_specific", 60_000, "random rule paths in a small vocabulary and a concrete path; non-trivial: at least two rule paths match", strat, |(paths, frags, cat), c| {
    let cat = [Category::BODY, Category::METADATA, Category::HEADER, Category::QUERY, Category::CONTENTS][*cat].clone();
    let path: Vec<&str> = frags.iter().map(|s| s.as_str()).collect();
    let build = |order: Vec<&(Tokens, String)>| {
      let mut m = MatchingRuleCategory::empty(cat.clone());
      for (t, r) in order { m.add_rule(DocPath::from_tokens(t.clone()), MatchingRule::Regex(r.clone()), RuleLogic::And); }
      m
    };
    let m = build(paths.iter().collect());
    let hits: Vec<(usize, &(Tokens, String))> = paths.iter().map(|p| (reference_weight(&p.0, frags) * p.0.len(), p)).filter(|(w, _)| *w > 0).collect();
    c.nontrivial(hits.len() > 1);
    c.label(format!("{} matching", hits.len().min(4)));
    let best = hits.iter().map(|(w, _)| *w).max();
    let winners: Vec<&&(Tokens, String)> = hits.iter().filter(|(w, _)| Some(*w) == best).map(|(_, p)| p).collect();
    c.label_if(winners.len() > 1, "tie");
    let got = m.select_best_matcher(&path);
    ensure_eq!(got.is_empty(), hits.is_empty(), "select_best_matcher finds rules exactly when a path matches {:?}", path);
    let chosen = |l: &RuleList| -> Option<String> { if let [MatchingRule::Regex(r)] = l.rules.as_slice() { Some(r.clone()) } else { None } };
    if !hits.is_empty() {
      let ch = chosen(&got).ok_or("not one rule")?;
      let w = winners.iter().find(|w| w.1 == ch);
      ensure!(w.is_some(), "chose {} for {:?}, heaviest are {:?}", ch, path, winners);
      if cat == Category::BODY || cat == Category::METADATA {
        ensure_eq!(got.cascaded, w.unwrap().0.len() != path.len(), "cascaded flag for {:?}", path);
      }
      // the choice depends on the rules, not on hash order or insertion order
      for _ in 0..3 {
        ensure_eq!(chosen(&build(paths.iter().rev().collect()).select_best_matcher(&path)), Some(ch.clone()), "chosen rule depends on construction order for {:?}", path);
      }
    }
    let mut names: Vec<String> = m.resolve_matchers_for_path(&path).rules.values().filter_map(chosen).collect();
    names.sort();
    let mut want: Vec<String> = hits.iter().map(|(_, p)| p.1.clone()).collect();
    want.sort();
    ensure_eq!(names, want, "resolve_matchers_for_path {:?}", path);
    ensure_eq!(m.matcher_is_defined(&path), !hits.is_empty(), "matcher_is_defined {:?}", path);
    let mut all = MatchingRules::default();
    all.add_rules(cat.clone(), m.clone());
    let pv: Vec<&str> = path.clone();
    ensure_eq!(all.matcher_is_defined(cat.clone(), &pv), !hits.is_empty(), "MatchingRules::matcher_is_defined");
    if cat == Category::BODY {
      ensure_eq!(chosen(&all.resolve_body_matchers_by_path(&pv)), chosen(&got), "resolve_body_matchers_by_path");
      let wild = hits.iter().any(|(_, (t, _))| t.len() == path.len() && matches!(t.last(), Some(PathToken::Star)));
      ensure_eq!(all.wildcard_matcher_is_defined(cat.clone(), &pv), wild, "wildcard_matcher_is_defined {:?}", path);
    }
    Ok(())
  });
  h.check("flat_categories", 5_000, "method, path and status rules apply whatever path is asked; non-trivial: all", || (rule(), 0usize..3, prop::collection::vec("[a-c]", 0..3)), |(r, k, f), c| {
    c.nontrivial(true);
    let cat = [Category::PATH, Category::METHOD, Category::STATUS][*k].clone();
    let mut m = MatchingRuleCategory::empty(cat.clone());
    m.add_rule(DocPath::empty(), r.clone(), RuleLogic::And);
    let path: Vec<&str> = f.iter().map(|s| s.as_str()).collect();
    ensure_eq!(m.select_best_matcher(&path).rules.iter().map(rule_json).collect::<Vec<_>>(), vec![rule_json(r)], "rule");
    ensure!(m.matcher_is_defined(&path), "defined");
    Ok(())
  });
  h.check("deep", 2_000, "documents nested far deeper than the weights fit a machine word still find their rule; non-trivial: more than 60 levels", || (1usize..400, any::<bool>()), |(n, star), c| {
    c.nontrivial(*n > 60);
    let mut frags = vec!["$".to_string()]; frags.extend((0..*n).map(|i| if i % 2 == 0 { "a".to_string() } else { "0".to_string() }));
    let path: Vec<&str> = frags.iter().map(|s| s.as_str()).collect();
    let mut t: Tokens = frags[1..].iter().map(|f| match f.parse() { Ok(k) => PathToken::Index(k), _ => PathToken::Field(f.clone()) }).collect();
    t.insert(0, PathToken::Root);
    if *star { *t.last_mut().unwrap() = PathToken::Star; }
    let p = DocPath::from_tokens(t.clone());
    ensure!(p.matches_path(&path) && p.matches_path_exactly(&path), "{} levels: not matched", n);
    let mut m = MatchingRuleCategory::empty("body");
    m.add_rule(p, MatchingRule::Type, RuleLogic::And);
    let got = m.select_best_matcher(&path);
    ensure!(got.rules.len() == 1 && !got.cascaded, "{} levels: rule not selected", n);
    Ok(())
  });
  h.check("kinds", 10_000, "type/values classification of the rules that apply to a path; non-trivial: a rule applies", || (cat_spec(rule(), small_tokens(), 0), prop::collection::vec(prop_oneof!["[a-c]", "[0-2]"], 0..4)), |(s, f), c| {
    let mut frags = vec!["$".to_string()]; frags.extend(f.clone());
    let path: Vec<&str> = frags.iter().map(|s| s.as_str()).collect();
    let mut all = MatchingRules::default();
    all.add_rules("body", s.build(Category::BODY));
    let hits: Vec<&ListSpec> = s.0.iter().filter(|(t, _)| reference_weight(t, &frags) > 0).map(|(_, l)| l).collect();
    c.nontrivial(!hits.is_empty());
    let is = |names: &[&str]| hits.iter().any(|l| l.rules.iter().any(|r| names.contains(&rule_json(r)["match"].as_str().unwrap())));
    ensure_eq!(all.type_matcher_defined("body", &path), is(&["type"]), "type_matcher_defined");
    let res = all.resolve_matchers("body", &path).ok_or("no category")?;
    ensure_eq!(res.values_matcher_defined(), is(&["values", "eachValue"]), "values_matcher_defined");
    ensure!(all.resolve_matchers("header", &path).is_none(), "other categories stay empty");
    for l in hits { for r in &l.rules {
      let j = rule_json(r);
      let m = j["match"].as_str().unwrap();
      ensure_eq!(r.can_cascade(), !["values", "eachValue", "eachKey"].contains(&m), "can_cascade of {}", m);
      ensure_eq!(r.is_length_type_matcher(), m == "type" && j.as_object().unwrap().len() > 1, "is_length_type_matcher of {}", j);
      ensure_eq!(rule_json(&r.for_single_item()), if m == "type" { json!({"match": "type"}) } else { j.clone() }, "for_single_item");
    } }
    Ok(())
  });
}
