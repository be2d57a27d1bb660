//! Shared generators.
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

pub type B<T> = BoxedStrategy<T>;

/// Plain identifiers, short, from a small alphabet so that collisions happen.
pub fn ident() -> B<String> {
  prop_oneof![
    5 => "[a-d]{1,2}",
    2 => "[aAbB]{1,2}",
    2 => "[a-zA-Z_][a-zA-Z0-9_]{0,7}",
  ].boxed()
}

/// Field names of every syntactic class path expressions have to cope with (never empty).
pub fn field() -> B<String> {
  prop_oneof![
    6 => ident(),
    2 => "[a-z][a-z0-9:#@-]{0,6}",
    1 => "[#@][a-z]{1,5}",
    1 => "[0-9]{1,3}",
    1 => Just("*".to_string()),
    1 => Just("[*]".to_string()),
    1 => prop::sample::select(vec!["matchers", "combine", "type", "body", "path", "headers", "query"]).prop_map(|s| s.to_string()),
    2 => "[a-z ./\\[\\]~*$'\\\\\"!-]{1,6}",
    1 => "[a-zé€ßЖ日😀]{1,4}",
    1 => "\\PC{1,6}",
  ].boxed()
}

/// Texts that mean something in JSON, numbers, paths, queries, encodings, or are nothing but white space.
pub fn special() -> B<String> {
  prop::sample::select(vec![" ", "  ", "\n", "\t ", "null", "true", "false", "0", "-1", "1.5", "1e3", "007", "{}", "[]", "{", "\"", "\"\"", "\"a\"", "'", "\\", "\\n", "%", "%20", "%zz", "+", "&", "=", "a=b&c",
    "$", "$.a", "$['a']", "*", "[*]", "${a}", "#", "/", "//", "..", ",", ", ", ";", "a, b", "application/json", "=?", "YWJj", "NaN", "undefined", "\u{feff}", "\u{0}", "é", "ß", "İ", "日本", "😀", "2020-01-01"])
    .prop_map(|s| s.to_string()).boxed()
}

/// Any printable and unprintable text.
pub fn text() -> B<String> {
  prop_oneof![
    1 => special(),
    4 => "[a-zA-Z0-9 ]{0,12}",
    2 => "\\PC{0,12}",
    1 => "[a-z\\n\\r\\t\"'\\\\/<>&{}\\[\\]:,;=+%#?é€😀]{0,16}",
    1 => any::<String>().prop_map(|s| s.chars().take(16).collect()),
  ].boxed()
}

/// JSON values whose numbers survive a text round trip exactly.
pub fn json_scalar() -> B<serde_json::Value> {
  use serde_json::{json, Value};
  prop_oneof![
    1 => Just(Value::Null), 2 => any::<bool>().prop_map(Value::Bool),
    3 => (-1000i64..1000).prop_map(|n| json!(n)), 1 => any::<i64>().prop_map(|n| json!(n)), 1 => any::<u64>().prop_map(|n| json!(n)),
    2 => (-8000i32..8000).prop_map(|n| json!(n as f64 / 8.0)), 4 => text().prop_map(Value::String), 2 => ident().prop_map(Value::String),
  ].boxed()
}

pub fn json_value() -> B<serde_json::Value> {
  use serde_json::Value;
  json_scalar().prop_recursive(4, 24, 4, |inner| prop_oneof![
    prop::collection::vec(inner.clone(), 0..4).prop_map(Value::Array),
    prop::collection::vec((field(), inner), 0..4).prop_map(|v| Value::Object(v.into_iter().collect())),
  ]).boxed()
}

/// JSON objects (sometimes empty).
pub fn json_map(max: usize) -> B<std::collections::BTreeMap<String, serde_json::Value>> {
  prop::collection::vec((field(), json_value()), 0..max).prop_map(|v| v.into_iter().collect()).boxed()
}
