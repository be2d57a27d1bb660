//! P55 matching, matching rule definitions, regular expressions, dates and error messages through the C functions.
use std::ffi::CStr;
use std::os::raw::c_char;
use std::panic::RefUnwindSafe;
use bytes::Bytes;
use itertools::Either;
use proptest::prelude::*;
use pact_ffi::matching::*;
use pact_ffi::mock_server::{pactffi_check_regex, pactffi_generate_datetime_string, pactffi_generate_regex_value, StringResult};
use pact_ffi::models::expressions::*;
use pact_ffi::models::generators::pactffi_generator_to_json;
use pact_ffi::*;
use pact_matching::matchers::Matches;
use pact_models::interaction::Interaction;
use pact_models::matchingrules::expressions::{is_matcher_def, parse_matcher_def, MatchingRuleDefinition, ValueType};
use pact_models::matchingrules::MatchingRule;
use pact_models::message::Message;
use pact_models::pact::Pact;
use pact_models::time_utils::validate_datetime;
use pact_models::v4::pact::V4Pact;
use pvfw::{ensure, ensure_eq, H, R};
use serde_json::{json, Value};

use crate::common::*;
use crate::g::*;
use crate::legacy::*;
use crate::model::seen;
use crate::rules::*;

/// What comes back for a result: nothing, or the message; one that C can not hold is still a message
fn back(got: *const c_char, want: &anyhow::Result<()>, what: &str) -> R {
  let got = take(got);
  match want {
    Ok(_) => ensure_eq!(got, None, "{} matches", what),
    Err(e) => { let e = e.to_string(); match seen(&e) { Some(e) => ensure_eq!(got, Some(e), "{} does not match", what), None => ensure!(got.is_some(), "{} does not match", what) } }
  }
  Ok(())
}

fn s() -> B<String> { prop_oneof![2 => prop::sample::select(vec!["", "a", "b", "100", "100.5", "-1", "true", "false", "2020-01-02", "1.2.3", "abc", "x", "2000-01-01T10:00:00"]).prop_map(String::from), 1 => text()].prop_map(|s| s.replace('\0', "")).boxed() }
fn rule_of() -> B<MatchingRule> {
  prop_oneof![2 => prop::sample::select(vec![MatchingRule::Equality, MatchingRule::Type, MatchingRule::Number, MatchingRule::Integer, MatchingRule::Decimal, MatchingRule::Boolean, MatchingRule::NotEmpty, MatchingRule::Semver, MatchingRule::Null,
    MatchingRule::Regex("^\\d+$".into()), MatchingRule::Include("a".into()), MatchingRule::Date("yyyy-MM-dd".into()), MatchingRule::MinType(2), MatchingRule::MaxType(1), MatchingRule::MinMaxType(1, 2), MatchingRule::ContentType("text/plain".into())]), 1 => rule()].boxed()
}
fn f() -> B<f64> { prop_oneof![2 => prop::sample::select(vec![0.0, 1.0, -1.0, 1.5, 100.0, 1e20, 0.1, f64::MAX, -0.0]), 1 => any::<i32>().prop_map(|n| n as f64 / 8.0), 1 => any::<f64>().prop_filter("number", |n| n.is_finite())].boxed() }
fn pair<T: std::fmt::Debug + Clone + 'static>(b: B<T>) -> B<(T, T)> { prop_oneof![1 => b.clone().prop_map(|a| (a.clone(), a)), 2 => (b.clone(), b)].boxed() }

fn matching(h: &mut H) {
  h.check("values", 40_000, "values of every kind and a matching rule, which may come from a parent; non-trivial: different values", || ((rule_of(), prop_oneof![Just(0u8), Just(1), Just(2), Just(255)]),
    pair(s()), pair(prop_oneof![0u64..200, any::<u64>()].boxed()), pair(prop_oneof![-200i64..200, any::<i64>()].boxed()), pair(f()), pair(prop_oneof![3 => 0u8..2, 1 => any::<u8>()].boxed()), pair(prop::collection::vec(any::<u8>(), 1..8).boxed()), pair(json_value())), |((r, cascaded), ss, us, is, fs, bs, ys, js), cx| {
    cx.nontrivial(ss.0 != ss.1 && us.0 != us.1);
    let cc = *cascaded > 0;
    back(pactffi_matches_string_value(r, c(&ss.0).p(), c(&ss.1).p(), *cascaded), &ss.0.as_str().matches_with(ss.1.as_str(), r, cc), "text")?;
    back(pactffi_matches_u64_value(r, us.0, us.1, *cascaded), &us.0.matches_with(us.1, r, cc), "unsigned number")?;
    back(pactffi_matches_i64_value(r, is.0, is.1, *cascaded), &is.0.matches_with(is.1, r, cc), "number")?;
    back(pactffi_matches_f64_value(r, fs.0, fs.1, *cascaded), &fs.0.matches_with(fs.1, r, cc), "decimal number")?;
    back(pactffi_matches_bool_value(r, bs.0, bs.1, *cascaded), &(bs.0 > 0).matches_with(bs.1 > 0, r, cc), "boolean")?;
    back(pactffi_matches_binary_value(r, ys.0.as_ptr(), ys.0.len(), ys.1.as_ptr(), ys.1.len(), *cascaded), &Bytes::from(ys.0.clone()).matches_with(Bytes::from(ys.1.clone()), r, cc), "bytes")?;
    back(pactffi_matches_json_value(r, c(&js.0.to_string()).p(), c(&js.1.to_string()).p(), *cascaded), &js.0.matches_with(&js.1, r, cc), "JSON")?;
    Ok(())
  });
  h.check("refused_values", 3_000, "values that are no text or no JSON; non-trivial: all", || (rule_of(), s(), 0u8..6), |(r, t, how), cx| {
    cx.nontrivial(true);
    let bad = std::ffi::CString::new(vec![b'a', 0xff]).unwrap();
    let good = c(t);
    let null = std::ptr::null();
    let got = match how {
      0 => pactffi_matches_string_value(null as *const _, good.p(), good.p(), 0),
      1 => pactffi_matches_string_value(r, null as *const _, good.p(), 0),
      2 => pactffi_matches_string_value(r, good.p(), bad.as_ptr(), 0),
      3 => pactffi_matches_json_value(r, c("{").p(), c("1").p(), 0),
      4 => pactffi_matches_json_value(r, c("1").p(), c("[1,").p(), 0),
      _ => pactffi_matches_json_value(r, null as *const _, c("1").p(), 0),
    };
    let got = take(got);
    ensure!(got.is_some(), "a value that is not there matches");
    if *how == 3 { ensure!(got.as_ref().unwrap().contains("expected JSON"), "message {:?}", got); }
    if *how == 4 { ensure!(got.as_ref().unwrap().contains("actual JSON"), "message {:?}", got); }
    Ok(())
  });
  h.check("mismatches", 6_000, "two messages, one of them another or the same changed; non-trivial: several mismatches", || (pact3(msg3()), any::<u8>()), |(d, how), cx| {
    let j = d.json();
    let Some(list) = j["messages"].as_array().filter(|l| !l.is_empty()) else { return Ok(()) };
    let a = list[0].clone();
    let mut b = list[if *how % 2 == 0 { 0 } else { list.len() - 1 }].clone();
    if how & 2 > 0 { b["contents"] = json!({"other": [1, 2]}); }
    if how & 4 > 0 { b["metadata"] = json!({"contentType": "application/json", "a": "b"}); }
    if how & 8 > 0 { b.as_object_mut().unwrap().remove("contents"); }
    let read = |v: &Value| Message::from_json(0, v, &pact_models::PactSpecification::V3).map_err(|e| e.to_string());
    let (x, y) = (read(&a)?, read(&b)?);
    type Bx = Box<dyn Interaction + Send + Sync + RefUnwindSafe>;
    let (bx, by): (Bx, Bx) = (Box::new(x.clone()), Box::new(y.clone()));
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let want = rt.block_on(pact_matching::match_message(&bx, &by, &V4Pact::default().boxed()));
    cx.nontrivial(want.len() > 1); cx.label_if(want.is_empty(), "no mismatch");
    // the messages are taken over
    let m = pactffi_match_message(Box::into_raw(Box::new(x)), Box::into_raw(Box::new(y)));
    ensure!(!m.is_null(), "no result");
    let all = |m| -> Result<Vec<[String; 5]>, String> {
      let it = pactffi_mismatches_get_iter(m);
      let mut out = vec![];
      loop {
        let p = pactffi_mismatches_iter_next(it);
        if p.is_null() { break }
        ensure!(out.len() <= want.len(), "more mismatches than there are");
        let t = |p: *const c_char| take(p).unwrap_or("?".into());
        out.push([t(pactffi_mismatch_type(p)), t(pactffi_mismatch_summary(p)), t(pactffi_mismatch_description(p)), t(pactffi_mismatch_ansi_description(p)), t(pactffi_mismatch_to_json(p))]);
      }
      ensure!(pactffi_mismatches_iter_next(it).is_null(), "a mismatch after the last");
      pactffi_mismatches_iter_delete(it);
      out.sort();
      Ok(out)
    };
    let or = |s: String| seen(&s).unwrap_or("?".into());
    let mut expected: Vec<[String; 5]> = want.iter().map(|m| [or(m.mismatch_type().to_string()), or(m.summary()), or(m.description()), or(m.ansi_description()), or(m.to_json().to_string())]).collect();
    expected.sort();
    // the rules of a map have no order, and neither has what does not match
    if expected.iter().map(|e| &e[0]).collect::<Vec<_>>() != all(m)?.iter().map(|e| &e[0]).collect::<Vec<_>>() || expected.len() < 2 {
      ensure_eq!(all(m)?, expected, "mismatches");
    }
    ensure_eq!(all(m)?, expected, "mismatches");
    ensure_eq!(all(m)?, expected, "mismatches, a second time");
    pactffi_mismatches_delete(m);
    Ok(())
  });
}

fn id(r: &MatchingRule) -> (u16, Option<String>) {
  use MatchingRule::*;
  let s = |s: &String| Some(s.clone());
  match r {
    Equality => (1, None), Regex(x) => (2, s(x)), Type => (3, None), MinType(n) => (4, Some(n.to_string())), MaxType(n) => (5, Some(n.to_string())), MinMaxType(a, b) => (6, Some(format!("{}:{}", a, b))),
    Timestamp(x) => (7, s(x)), Time(x) => (8, s(x)), Date(x) => (9, s(x)), Include(x) => (10, s(x)), Number => (11, None), Integer => (12, None), Decimal => (13, None), Null => (14, None), ContentType(x) => (15, s(x)),
    ArrayContains(_) => (16, None), Values => (17, None), Boolean => (18, None), StatusCode(_) => (19, None), NotEmpty => (20, None), Semver => (21, None), EachKey(_) => (22, None), EachValue(_) => (23, None)
  }
}
fn borrowed(p: *const c_char) -> Option<String> { if p.is_null() { None } else { Some(unsafe { CStr::from_ptr(p) }.to_str().expect("UTF-8").to_string()) } }

fn definitions(h: &mut H) {
  h.check("definitions", 20_000, "definitions of matching rules, well formed and cut short, and other texts, read through the C functions; non-trivial: several rules", || prop_oneof![4 => crate::exprs::definition().prop_map(|d| (d, 255u8)), 1 => (crate::exprs::definition(), any::<u8>()), 1 => (text(), 255u8..=255)], |(d, cut), cx| {
    let d: String = d.replace('\0', "").chars().take(if *cut == 255 { usize::MAX } else { *cut as usize % 40 }).collect();
    let want = if is_matcher_def(&d) { parse_matcher_def(&d).map_err(|e| e.to_string()) }
      else if d.is_empty() { Err("Expected a matching rule definition, but got an empty string".into()) }
      else { Ok(MatchingRuleDefinition { value: d.clone(), value_type: ValueType::String, rules: vec![], generator: None, expression: d.clone() }) };
    let p = pactffi_parse_matcher_definition(c(&d).p());
    ensure!(!p.is_null(), "no result");
    let it = pactffi_matcher_definition_iter(p);
    match &want {
      Err(e) => {
        let got = take(pactffi_matcher_definition_error(p));
        if let Some(e) = seen(e) { ensure_eq!(got, Some(e), "error"); }
        ensure!(pactffi_matcher_definition_value(p).is_null() && pactffi_matcher_definition_generator(p).is_null() && it.is_null(), "{:?} is refused and has a value", d);
        ensure_eq!(pactffi_matcher_definition_value_type(p), ExpressionValueType::Unknown, "type");
      }
      Ok(w) => {
        cx.nontrivial(w.rules.len() > 1);
        ensure_eq!(take(pactffi_matcher_definition_error(p)), None, "error of {:?}", d);
        ensure_eq!(take(pactffi_matcher_definition_value(p)), seen(&w.value), "value of {:?}", d);
        ensure_eq!(pactffi_matcher_definition_value_type(p), match w.value_type { ValueType::Unknown => ExpressionValueType::Unknown, ValueType::String => ExpressionValueType::String, ValueType::Number => ExpressionValueType::Number, ValueType::Integer => ExpressionValueType::Integer, ValueType::Decimal => ExpressionValueType::Decimal, ValueType::Boolean => ExpressionValueType::Boolean }, "type of {:?}", d);
        let g = pactffi_matcher_definition_generator(p);
        ensure_eq!(if g.is_null() { None } else { Some(unsafe { (*g).clone() }) }, w.generator.clone(), "generator of {:?}", d);
        if let Some(wg) = &w.generator { if let Some(t) = seen(&wg.to_json().unwrap_or_default().to_string()) { ensure_eq!(take(pactffi_generator_to_json(g)), Some(t), "generator as JSON"); } }
        ensure!(!it.is_null(), "no rules");
        if w.rules.iter().all(|r| match r { Either::Left(r) => id(r).1.map(|v| !v.contains('\0')).unwrap_or(true), Either::Right(r) => !r.name.contains('\0') }) {
          for r in &w.rules {
            let x = pactffi_matching_rule_iter_next(it);
            ensure!(!x.is_null(), "a rule of {:?} is missing", d);
            let rule = pactffi_matching_rule_pointer(x);
            match r {
              Either::Left(r) => {
                ensure_eq!((pactffi_matching_rule_id(x), borrowed(pactffi_matching_rule_value(x))), id(r), "rule {:?} of {:?}", r, d);
                ensure!(!rule.is_null() && unsafe { &*rule == r }, "rule {:?} of {:?}", r, d);
                ensure!(pactffi_matching_rule_reference_name(x).is_null(), "rule {:?} is a reference", r);
              }
              Either::Right(r) => {
                ensure_eq!(borrowed(pactffi_matching_rule_reference_name(x)), Some(r.name.clone()), "reference of {:?}", d);
                ensure!(rule.is_null() && pactffi_matching_rule_value(x).is_null() && pactffi_matching_rule_id(x) == 0, "reference {:?} is a rule", r);
              }
            }
          }
          ensure!(pactffi_matching_rule_iter_next(it).is_null(), "a rule after the last");
        }
        pactffi_matching_rule_iter_delete(it);
      }
    }
    pactffi_matcher_definition_delete(p);
    Ok(())
  });
}

/// A regular expression with texts it is for, made together
#[derive(Debug, Clone)]
enum Re { Lit(String), Class(&'static str), Any(Vec<Re>), Group(Vec<Re>, &'static str) }
fn re() -> B<Re> {
  let leaf = prop_oneof![2 => "[a-z]{1,3}".prop_map(Re::Lit), 2 => prop::sample::select(vec!["\\d", "[a-f]", "[0-9A-F]", "\\w", "\\s", "x?", "\\.", "\\$", "[ -~]", "é"]).prop_map(Re::Class)];
  leaf.prop_recursive(3, 12, 3, |i| prop_oneof![1 => prop::collection::vec(i.clone(), 1..4).prop_map(Re::Any), 1 => (prop::collection::vec(i, 1..4), prop::sample::select(vec!["", "*", "+", "?", "{2}", "{1,3}", "{2,}"])).prop_map(|(l, q)| Re::Group(l, q))].boxed()).boxed()
}
impl Re {
  fn text(&self) -> String { match self { Re::Lit(s) => s.clone(), Re::Class(s) => s.to_string(), Re::Any(l) => format!("({})", l.iter().map(|r| r.text()).collect::<Vec<_>>().join("|")), Re::Group(l, q) => format!("(?:{}){}", l.iter().map(|r| r.text()).collect::<String>(), q) } }
}
fn result(r: StringResult) -> Result<Option<String>, Option<String>> { match r { StringResult::Ok(s) => Ok(take(s)), StringResult::Failed(s) => Err(take(s)) } }

fn texts(h: &mut H) {
  h.check("regex", 20_000, "regular expressions of groups, alternatives, classes and repetitions, with and without anchors, and texts that are none; non-trivial: with anchors at its ends",
    || (prop_oneof![4 => re().prop_map(|r| (r.text(), true)), 1 => prop::sample::select(vec!["(", "[a", "a{2", "\\", "*", "(?P<a", "\\bword\\b", "a^b", "$a", "(^a|b$)", "[\\x00-\\x02]", "\\x00", "a\\x00b", ".", ".*", "\\D", "[^a]", "\\pL", ""]).prop_map(|s| (s.to_string(), false)), 1 => text().prop_map(|s| (s.replace('\0', ""), false))], 0u8..4, s()), |((r, good), anchors, t), cx| {
    let full = format!("{}{}{}", if anchors & 1 > 0 { "^" } else { "" }, r, if anchors & 2 > 0 { "$" } else { "" });
    cx.nontrivial(*anchors > 0);
    let compiled = regex::Regex::new(&full);
    // the whole text has to be what is found at its start; whether another alternative may be tried for that is left open
    let first = |t: &str| compiled.as_ref().map(|r| r.find(t).map(|m| m.start() == 0 && m.end() == t.len()).unwrap_or(false)).unwrap_or(false);
    let any = |t: &str| compiled.is_ok() && regex::Regex::new(&format!("^(?:{})$", full)).map(|r| r.is_match(t)).unwrap_or(false);
    if *good && first(t) == any(t) { ensure_eq!(unsafe { pactffi_check_regex(c(&full).p(), c(t).p()) }, any(t), "check {:?} {:?}", full, t); }
    if *good && first("") == any("") { ensure_eq!(unsafe { pactffi_check_regex(c(&full).p(), std::ptr::null()) }, any(""), "check {:?} without an example", full); }
    match result(unsafe { pactffi_generate_regex_value(c(&full).p()) }) {
      Ok(v) => {
        cx.label("generated");
        let Some(v) = v else { return Err(format!("no text for {:?}", full)) };
        if !good { return Ok(()) }
        let Ok(re) = &compiled else { return Err(format!("{:?} is generated for {:?}, which is not a regular expression", v, full)) };
        ensure!(regex::Regex::new(&format!("^(?:{})$", re)).unwrap().is_match(&v), "{:?} is generated for {:?}", v, full);
        ensure!(unsafe { pactffi_check_regex(c(&full).p(), c(&v).p()) }, "{:?} is generated for {:?} and does not match", v, full);
      }
      Err(e) => {
        cx.label("refused");
        ensure!(e.map(|e| !e.is_empty()).unwrap_or(false), "no reason that nothing is generated for {:?}", full);
      }
    }
    Ok(())
  });
  h.check("anchored", 6_000, "regular expressions for whole texts (^…$), which a text can always be generated for; non-trivial: all", || re(), |r, cx| {
    cx.nontrivial(true);
    let full = format!("^{}$", r.text());
    if full.contains('é') { return Ok(()) }
    let v = result(unsafe { pactffi_generate_regex_value(c(&full).p()) });
    ensure!(matches!(&v, Ok(Some(v)) if regex::Regex::new(&full).unwrap().is_match(v)), "{:?} is generated for {:?}", v, full);
    Ok(())
  });
  h.check("datetime", 20_000, "date and time formats and texts, and what is generated for a format; non-trivial: a format with two fields", || (prop_oneof![4 => prop::collection::vec((prop::sample::select(vec!["yyyy", "yy", "MM", "MMM", "MMMM", "M", "dd", "d", "HH", "hh", "mm", "ss", "SSS", "a", "EEE", "EEEE", "Z", "XXX", "X", "z", "DDD", "ww", "GG", "e", "k", "K", "n", "N", "S", "SSSSSS"]), prop::sample::select(vec!["-", "/", ":", " ", "'T'", "''", "'at'", "", "."])), 1..6)
      .prop_map(|v| v.into_iter().map(|(a, b)| format!("{}{}", a, b)).collect::<String>()), 1 => text(), 1 => "[a-zA-Z'%:\\- ]{0,8}"], s()), |(f, t), cx| {
    let f = f.replace('\0', "");
    cx.nontrivial(f.len() > 5);
    match result(unsafe { pactffi_generate_datetime_string(c(&f).p()) }) {
      Ok(v) => { let Some(v) = v else { return Err(format!("nothing is generated for {:?}", f)) }; cx.label_if(!v.is_empty(), "generated"); }
      Err(e) => { cx.label("refused"); ensure!(e.map(|e| !e.is_empty()).unwrap_or(false), "no reason that {:?} is refused", f); }
    }
    let want = if t.is_empty() || f.is_empty() { 1 } else if validate_datetime(t, &f).is_ok() { 0 } else { 1 };
    clear();
    ensure_eq!(pactffi_validate_datetime(c(t).p(), c(&f).p()), want, "{:?} with {:?}", t, f);
    ensure_eq!(pactffi_validate_datetime(std::ptr::null(), c(&f).p()), 2, "no text");
    ensure_eq!(pactffi_validate_datetime(c(t).p(), std::ptr::null()), 2, "no format");
    Ok(())
  });
}

fn clear() { let mut b = vec![0u8; 65536]; unsafe { pactffi_get_error_message(b.as_mut_ptr() as *mut c_char, b.len() as i32); } }

fn errors(h: &mut H) {
  h.check("error_message", 20_000, "the message of the last error, taken with a buffer of any length, also one too short or none; non-trivial: the buffer is long enough for it", || (text(), prop_oneof![3 => -3i32..200, 1 => 0i32..3], any::<bool>(), any::<bool>()), |(t, extra, exact, null), cx| {
    let t = format!("x{}", t.replace('\0', ""));
    clear();
    pactffi_validate_datetime(c(&t).p(), c("yyyy").p());
    let want = if validate_datetime(&t, "yyyy").is_ok() { String::new() } else { format!("Date/Time string '{}' does not match pattern 'yyyy'", t) };
    let need = want.len() as i32 + 1;
    let len = if *exact { need + extra % 3 } else { *extra };
    if *null { ensure_eq!(unsafe { pactffi_get_error_message(std::ptr::null_mut(), len) }, -1, "no buffer"); }
    let mut buf = vec![0xAAu8; (len.max(0) as usize) + 8];
    let r = unsafe { pactffi_get_error_message(buf.as_mut_ptr() as *mut c_char, len) };
    if len >= need {
      cx.nontrivial(true);
      ensure_eq!(r, need, "number of bytes");
      ensure_eq!(&buf[..want.len()], want.as_bytes(), "message");
      ensure!(buf[want.len()..len as usize].iter().all(|b| *b == 0), "the rest of the buffer is not zero");
      // it is taken: there is no error any more
      ensure_eq!(unsafe { pactffi_get_error_message(buf.as_mut_ptr() as *mut c_char, len) }, 1, "the message is still there");
    } else { ensure_eq!(r, -2, "a buffer of {} for {} bytes", len, need); }
    ensure!(buf[len.max(0) as usize..].iter().all(|b| *b == 0xAA), "something is written after the buffer");
    Ok(())
  });
}

pub fn p55(h: &mut H) {
  h.assume("the rules, the parser of definitions and of dates of pact_models and pact_matching are the reference (they have properties of their own)");
  matching(h);
  definitions(h);
  texts(h);
  errors(h);
}
