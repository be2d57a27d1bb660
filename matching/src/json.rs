//! Matching of JSON bodies and of single values.
use proptest::prelude::*;
use pvfw::{ensure, ensure_eq, Case, H, R};
use serde_json::{json, Value};
use pact_matching::json::match_json;
use pact_matching::matchers::{match_values, Matches};
use pact_models::path_exp::DocPath;
use crate::g::B;
use crate::jm::*;

fn run(rules: &Rules, name: &str, strict: bool, e: &Value, a: &Value) -> Result<Found, String> {
  let (ex, ac) = (body(e.to_string()), body(a.to_string()));
  match match_json(&ex, &ac, &ctx(rules, name, strict)) {
    Ok(()) => Ok(Found::new()),
    Err(m) => { ensure!(!m.is_empty(), "a failure without mismatches"); found(&m) }
  }
}

fn against_model(rules: &Rules, cat: &str, strict: bool, e: &Value, a: &Value, c: &mut Case) -> R {
  let want = M { rules, strict }.cmp(&[], e, a);
  c.label(if want.ok() { "match" } else { "mismatch" });
  if want.ambiguous { c.label("ambiguous rules (not judged)"); return Ok(()); }
  c.nontrivial(if rules.is_empty() { nodes(e).len() > 2 } else { want.used > 0 });
  agree(&want, &run(rules, cat, strict, e, a)?).map_err(|m| format!("{} (expected {}, actual {})", m, e, a))
}

fn cat(v4: bool) -> &'static str { if v4 { "content" } else { "body" } }

/// JSON bodies without rules.
pub fn p31(h: &mut H) {
  h.check("structure", 60000, "the expected document has more than two nodes",
    || (big_doc(), edits(4), any::<bool>()),
    |(e, ed, strict), c| against_model(&vec![], "body", *strict, e, &apply(e, ed), c));
  h.check("unrelated", 20000, "the expected document has more than two nodes",
    || (doc(), doc(), any::<bool>()), |(e, a, strict), c| against_model(&vec![], "body", *strict, e, a, c));
  h.check("layout", 15000, "the document has more than two nodes", || (big_doc(), big_doc(), any::<bool>(), any::<u64>()),
    |(e, a, strict, seed), c| {
      c.nontrivial(nodes(e).len() > 2);
      let (x, y) = (body(shuffled(e, *seed)), body(shuffled(a, seed.rotate_left(17))));
      let cx = ctx(&vec![], "body", *strict);
      ensure_eq!(match_json(&x, &y, &cx).is_ok(), match_json(&body(e.to_string()), &body(a.to_string()), &cx).is_ok(), "white space and the order of members changed the result");
      ensure!(match_json(&x, &body(e.to_string()), &cx).is_ok(), "a document does not match itself written differently: {}", e);
      Ok(())
    });
  h.check("malformed", 10000, "exactly one side is malformed", || (big_doc(), big_doc(), any::<u16>(), 0u8..4, any::<bool>()), |(e, a, cut, side, strict), c| {
    let damage = |v: &Value, on: bool| { let s = v.to_string(); if !on { return (s, false); } let n = *cut as usize % s.len(); let t: String = s.chars().take(n).collect(); let bad = serde_json::from_str::<Value>(&t).is_err(); (t, bad) };
    let ((e, eb), (a, ab)) = (damage(e, side & 1 == 1), damage(a, side & 2 == 2));
    c.nontrivial(eb != ab);
    let r = match_json(&body(e.clone()), &body(a.clone()), &ctx(&vec![], "body", *strict));
    if !eb && !ab { return Ok(()); }
    let Err(m) = r else { return Err(format!("malformed bodies {:?} and {:?} match", e, a)) };
    let f = found(&m)?;
    ensure_eq!(f.keys().collect::<Vec<_>>(), vec!["$"], "places");
    ensure_eq!(f["$"].len(), eb as usize + ab as usize, "one mismatch for each malformed side");
    ensure!(f["$"].iter().all(|(x, y)| *x == e && *y == a), "the bodies are not in the mismatch: {:?}", f);
    Ok(())
  });
}

/// The same document with its members in another order and with white space.
fn shuffled(v: &Value, mut seed: u64) -> String {
  fn go(v: &Value, s: &mut u64) -> String {
    *s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    let ws = ["", " ", "\n", "\t ", ""][(*s >> 33) as usize % 5];
    match v {
      Value::Object(m) => {
        let mut ks: Vec<&String> = m.keys().collect();
        if *s >> 40 & 1 == 1 { ks.reverse(); }
        format!("{}{{{}{}}}{}", ws, ws, ks.iter().map(|k| format!("{}{}:{}", ws, json!(k), go(&m[k.as_str()], s))).collect::<Vec<_>>().join(","), ws)
      }
      Value::Array(l) => format!("[{}{}]", ws, l.iter().map(|x| go(x, s)).collect::<Vec<_>>().join(&format!("{},", ws))),
      o => format!("{}{}{}", ws, o, ws),
    }
  }
  go(v, &mut seed)
}

/// Single rules on single values.
pub fn p32(h: &mut H) {
  let any_rule = || -> B<Ru> { prop_oneof![6 => scalar_rule(), 2 => size_rule(), 1 => Just(Ru::Values), 1 => scalar_rule().prop_map(|r| Ru::EachKey(vec![r])), 1 => scalar_rule().prop_map(|r| Ru::EachValue(vec![r]))].boxed() };
  h.check("json values", 80000, "the rule decides (it is not about collections)", || (any_rule(), doc(), prop_oneof![2 => scalar(), 1 => doc()], any::<bool>(), any::<bool>()), |(r, e, a, same, casc), c| {
    let a = if *same { e } else { a };
    let want = value_ok(r, e, a, *casc);
    c.label(format!("{} {}", format!("{:?}", r).split('(').next().unwrap(), want));
    c.nontrivial(!matches!(r, Ru::EachKey(_) | Ru::EachValue(_)));
    let got = e.matches_with(a, &r.build(), *casc);
    ensure_eq!(got.is_ok(), want, "{} with {:?} on {}: {:?}", e, r, a, got);
    ensure!(got.err().map(|e| !e.to_string().is_empty()).unwrap_or(true), "no reason is given");
    Ok(())
  });
  h.check("texts", 80000, "the rule decides (it is not about collections)", || (any_rule(), texts(), texts(), prop::bool::weighted(0.2), any::<bool>()), |(r, e, a, same, casc), c| {
    let a = if *same { e } else { a };
    let want = text_ok(r, e, a, *casc);
    c.label(format!("{} {}", format!("{:?}", r).split('(').next().unwrap(), want));
    c.nontrivial(!matches!(r, Ru::EachKey(_) | Ru::EachValue(_)));
    let got = e.as_str().matches_with(a.as_str(), &r.build(), *casc);
    ensure_eq!(got.is_ok(), want, "{:?} with {:?} on {:?}: {:?}", e, r, a, got);
    ensure_eq!(e.matches_with(a, &r.build(), *casc).is_ok(), want, "as owned strings");
    ensure_eq!(e.matches_with(a.clone(), &r.build(), *casc).is_ok(), want, "as owned strings");
    Ok(())
  });
  h.check("lists of rules", 40000, "two or more rules", || (prop::collection::vec(scalar_rule(), 1..4), any::<bool>(), doc(), scalar(), any::<bool>()), |(rs, or, e, a, text), c| {
    c.nontrivial(rs.len() > 1);
    let l = Rl { rules: rs.clone(), or: *or };
    let (oks, got): (Vec<bool>, _) = if *text {
      let (e, a) = (e.to_string(), match a { Value::String(s) => s.clone(), o => o.to_string() });
      (rs.iter().map(|r| text_ok(r, &e, &a, false)).collect(), match_values(&DocPath::root(), &l.build(), e.clone(), a.clone()))
    } else { (rs.iter().map(|r| value_ok(r, e, a, false)).collect(), match_values(&DocPath::root(), &l.build(), e, a)) };
    let want = if *or { oks.iter().any(|o| *o) } else { oks.iter().all(|o| *o) };
    c.label(format!("{} {}", if *or { "or" } else { "and" }, want));
    ensure_eq!(got.is_ok(), want, "{:?} on {}: {:?}", l, a, got);
    if let Err(m) = got { ensure_eq!(m.len(), oks.iter().filter(|o| !**o).count(), "one message for each rule that failed: {:?}", m); }
    Ok(())
  });
  h.check("no rules", 1000, "always", || (doc(), doc()), |(e, a), c| { c.nontrivial(true);
    ensure!(match_values(&DocPath::root(), &Rl { rules: vec![], or: false }.build(), e, a).is_err(), "an empty list of rules accepts a value"); Ok(()) });
  h.check("numbers", 40000, "the values differ", || (scalar_rule(), -3i64..1000, -3i64..1000, prop::bool::weighted(0.2), any::<bool>()), |(r, e, a, same, casc), c| {
    if matches!(r, Ru::Bool | Ru::Semver | Ru::Date | Ru::Time | Ru::NotEmpty | Ru::Null) { return Ok(()); }
    let a = if *same { e } else { a };
    c.nontrivial(a != e);
    let rule = r.build();
    let t = a.to_string();
    let num = |e_int: bool, a_int: bool, eq: bool, text: &str| match r {
      Ru::Type => e_int == a_int, Ru::Eq => eq, Ru::Regex(re) => re.matches(text), Ru::Include(s) => text.contains(s.as_str()),
      Ru::Num => true, Ru::Int => a_int, Ru::Dec => !a_int, _ => unreachable!()
    };
    ensure_eq!(e.matches_with(*a, &rule, *casc).is_ok(), num(true, true, e == a, &t), "i64 {} {} {:?}", e, a, r);
    if *e >= 0 && *a >= 0 {
      let (eu, au) = (*e as u64, *a as u64);
      ensure_eq!(eu.matches_with(au, &rule, *casc).is_ok(), num(true, true, e == a, &t), "u64 {} {} {:?}", e, a, r);
      ensure_eq!((*e as u16).matches_with(*a as u16, &rule, *casc).is_ok(), num(true, true, e == a, &t), "u16 {} {} {:?}", e, a, r);
      let f = *a as f64 + 0.5;
      ensure_eq!(eu.matches_with(f, &rule, *casc).is_ok(), num(true, false, false, &f.to_string()), "u64 to f64 {} {} {:?}", e, f, r);
      ensure_eq!((*e as f64 + 0.5).matches_with(au, &rule, *casc).is_ok(), num(false, true, false, &t), "f64 to u64 {} {} {:?}", e, a, r);
    }
    let (ef, af) = (*e as f64 / 8.0 + 0.0625, *a as f64 / 8.0 + 0.0625);
    ensure_eq!(ef.matches_with(af, &rule, *casc).is_ok(), num(false, false, e == a, &af.to_string()), "f64 {} {} {:?}", ef, af, r);
    Ok(())
  });
}

/// Rules at paths of JSON documents.
pub fn p33(h: &mut H) {
  h.check("rules", 120000, "a rule applied somewhere",
    || (big_doc(), edits(4), prop::collection::vec(pick(size_rule()), 1..4), any::<bool>(), prop::bool::weighted(0.25)),
    |(e, ed, ps, strict, v4), c| { let r = place(e, ps); against_model(&r, cat(*v4), *strict, e, &apply(e, ed), c) });
  h.check("type cascade", 40000, "a rule applied somewhere",
    || (big_doc(), edits(5), any::<u16>(), size_rule(), any::<bool>()),
    |(e, ed, at, r, strict), c| {
      let ns = nodes(e);
      let rules: Rules = vec![(ns[*at as usize % ns.len()].clone(), Rl { rules: vec![r.clone()], or: false })];
      against_model(&rules, "body", *strict, e, &apply(e, ed), c)
    });
}

fn coll_rule() -> B<Ru> {
  let inner = prop::collection::vec(prop_oneof![3 => scalar_rule(), 1 => size_rule()], 1..3);
  let keys = prop::collection::vec(scalar_rule(), 1..3);
  prop_oneof![2 => Just(Ru::Values), 3 => keys.prop_map(Ru::EachKey), 3 => inner.prop_map(Ru::EachValue), 1 => Just(Ru::Contains(vec![])), 1 => size_rule()].boxed()
}

/// Rules about the entries of maps and lists.
pub fn p34(h: &mut H) {
  h.check("entries", 120000, "a rule applied somewhere",
    || (big_doc(), edits(5), prop::collection::vec(pick(coll_rule()), 1..4), any::<bool>(), prop::bool::weighted(0.25)),
    |(e, ed, ps, strict, v4), c| { let r = place(e, ps); against_model(&r, cat(*v4), *strict, e, &apply(e, ed), c) });
  h.check("array contains", 60000, "the actual list holds more than one item",
    || (prop::collection::vec(doc(), 1..4), prop::collection::vec((any::<u16>(), edits(2)), 0..6), prop::collection::vec(prop::collection::vec(pick(size_rule()), 0..3), 0..4), any::<bool>(), any::<bool>()),
    |(e, act, vs, deep, strict), c| {
      let a: Vec<Value> = act.iter().map(|(w, ed)| apply(&e[*w as usize % e.len()], ed)).collect();
      c.nontrivial(a.len() > 1);
      let variants = vs.iter().enumerate().filter(|(i, _)| *i < e.len()).map(|(i, ps)| (i, place(&e[i], ps))).collect();
      let path = if *deep { vec![Tok::F("a".into())] } else { vec![] };
      let rules: Rules = vec![(path, Rl { rules: vec![Ru::Contains(variants)], or: false })];
      let (ev, av) = if *deep { (json!({ "a": e }), json!({ "a": a })) } else { (json!(e), json!(a)) };
      against_model(&rules, "body", *strict, &ev, &av, c)
    });
}
