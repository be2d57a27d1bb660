//! P13, P14: path expressions.
use proptest::prelude::*;
use pact_models::path_exp::{DocPath, PathToken};
use pvfw::{ensure, ensure_eq, H, R};
use serde_json::{json, Value};

use crate::g::*;

pub fn token() -> B<PathToken> {
  prop_oneof![
    6 => field().prop_map(PathToken::Field),
    3 => (0usize..12).prop_map(PathToken::Index),
    1 => prop_oneof![Just(usize::MAX), any::<usize>(), 9usize..2000].prop_map(PathToken::Index),
    2 => Just(PathToken::Star),
    2 => Just(PathToken::StarIndex),
  ].boxed()
}

/// Root followed by up to `n` tokens.
pub fn tokens(n: usize) -> B<Vec<PathToken>> {
  prop::collection::vec(token(), 0..=n).prop_map(|mut v| { v.insert(0, PathToken::Root); v }).boxed()
}

fn plain_ident(s: &str) -> bool {
  let mut c = s.chars();
  matches!(c.next(), Some(f) if f.is_ascii_alphabetic() || f == '_') && c.all(|c| c.is_ascii_alphanumeric() || c == '_')
}

/// Reference printer.
pub fn print(tokens: &[PathToken]) -> String {
  tokens.iter().map(|t| match t {
    PathToken::Root => "$".to_string(),
    PathToken::Field(n) if plain_ident(n) => format!(".{}", n),
    PathToken::Field(n) => {
      let mut s = String::from("['");
      for c in n.chars() { if c == '\'' || c == '\\' { s.push('\\'); } s.push(c); }
      s + "']"
    },
    PathToken::Index(i) => format!("[{}]", i),
    PathToken::Star => ".*".to_string(),
    PathToken::StarIndex => "[*]".to_string(),
  }).collect()
}

/// Reference recogniser for path expressions: None when the expression is not valid.
pub fn reference_parse(s: &str) -> Option<Vec<PathToken>> {
  let cs: Vec<char> = s.chars().collect();
  if cs.is_empty() { return Some(vec![]); }
  let idc = |c: char| c.is_alphabetic() || c.is_numeric() || "_-:#@".contains(c);
  let mut out = vec![PathToken::Root];
  let mut i;
  let name = |mut i: usize| -> (String, usize) {
    let st = i;
    while i < cs.len() && idc(cs[i]) { i += 1; }
    (cs[st..i].iter().collect(), i)
  };
  if cs[0] == '$' { i = 1; }
  else if cs[0].is_alphabetic() || cs[0].is_numeric() {
    let (n, j) = name(0);
    out.push(PathToken::Field(n)); i = j;
  } else { return None; }
  while i < cs.len() {
    match cs[i] {
      '.' => {
        i += 1;
        if i >= cs.len() { return None; }
        if cs[i] == '*' { out.push(PathToken::Star); i += 1; }
        else if idc(cs[i]) { let (n, j) = name(i); out.push(PathToken::Field(n)); i = j; }
        else { return None; }
      },
      '[' => {
        i += 1;
        if i >= cs.len() { return None; }
        if cs[i] == '*' { out.push(PathToken::StarIndex); i += 1; }
        else if cs[i] == '\'' {
          i += 1;
          let mut n = String::new();
          loop {
            if i >= cs.len() { return None; }
            if cs[i] == '\\' && i + 1 < cs.len() && (cs[i + 1] == '\'' || cs[i + 1] == '\\') { n.push(cs[i + 1]); i += 2; }
            else if cs[i] == '\'' { i += 1; break; }
            else { n.push(cs[i]); i += 1; }
          }
          if n.is_empty() { return None; }
          out.push(PathToken::Field(n));
        } else {
          let st = i;
          while i < cs.len() && cs[i].is_ascii_digit() { i += 1; }
          if st == i { return None; }
          out.push(PathToken::Index(cs[st..i].iter().collect::<String>().parse().ok()?));
        }
        if i >= cs.len() || cs[i] != ']' { return None; }
        i += 1;
      },
      _ => return None,
    }
  }
  Some(out)
}

/// Strings around the path grammar: printed paths, damaged printed paths, and soup of grammar characters.
fn expr() -> B<String> {
  let soup = prop::collection::vec(prop_oneof![
    Just("$".to_string()), Just(".".to_string()), Just("[".to_string()), Just("]".to_string()), Just("'".to_string()),
    Just("['".to_string()), Just("']".to_string()), Just("*".to_string()), Just("[*]".to_string()), Just(".*".to_string()),
    Just("\\".to_string()), Just("\\'".to_string()), Just("[0]".to_string()), "[0-9]{1,25}", "[a-z]{1,3}", "[a-z_:#@-]{1,3}", "\\PC",
    Just("²".to_string()), Just("٣".to_string()),
  ], 0..9).prop_map(|v| v.concat());
  let printed = tokens(5).prop_map(|t| print(&t));
  prop_oneof![
    3 => printed.clone(),
    3 => soup.clone().prop_map(|s| format!("${}", s)),
    1 => soup,
    1 => (ident(), printed.clone()).prop_map(|(a, p)| format!("{}{}", a, &p[1..])),
    4 => (printed, any::<prop::sample::Index>(), prop_oneof![
        Just(None), "[$.\\[\\]'*\\\\a0²-]".prop_map(Some)], any::<bool>())
      .prop_map(|(p, i, c, ins)| {
        let mut cs: Vec<char> = p.chars().collect();
        let n = i.index(cs.len());
        match c { None => { cs.remove(n); }, Some(c) => { let c = c.chars().next().unwrap();
          if ins { cs.insert(n, c) } else { cs[n] = c } } }
        cs.into_iter().collect()
      }),
  ].boxed()
}

fn walk<'a>(v: &'a Value, t: &[PathToken]) -> Option<&'a Value> {
  let mut cur = v;
  for t in t {
    cur = match (t, cur) {
      (PathToken::Root, c) => c,
      (PathToken::Field(f), Value::Object(m)) => m.get(f)?,
      (PathToken::Index(i), Value::Array(a)) => a.get(*i)?,
      _ => return None,
    };
  }
  Some(cur)
}

fn doc() -> B<Value> {
  let leaf = prop_oneof![Just(Value::Null), any::<bool>().prop_map(Value::from), any::<i32>().prop_map(Value::from), text().prop_map(Value::from)];
  leaf.prop_recursive(4, 32, 4, |inner| prop_oneof![
    prop::collection::vec(inner.clone(), 0..4).prop_map(Value::Array),
    prop::collection::btree_map(field(), inner, 0..4).prop_map(|m| Value::Object(m.into_iter().collect())),
  ]).boxed()
}

fn all_paths(v: &Value, pre: &mut Vec<PathToken>, out: &mut Vec<Vec<PathToken>>) {
  out.push(pre.clone());
  match v {
    Value::Array(a) => for (i, x) in a.iter().enumerate() { pre.push(PathToken::Index(i)); all_paths(x, pre, out); pre.pop(); },
    Value::Object(m) => for (k, x) in m { pre.push(PathToken::Field(k.clone())); all_paths(x, pre, out); pre.pop(); },
    _ => {}
  }
}

fn same(p: &DocPath, tokens: &[PathToken], what: &str) -> R {
  ensure_eq!(p.tokens().as_slice(), tokens, "{}: tokens", what);
  ensure_eq!(p.to_string(), print(tokens), "{}: expression", what);
  ensure_eq!(p.len(), tokens.len(), "{}: length", what);
  Ok(())
}

/// The path as an expression without root marker, when it has one.
fn ident_path(t: &[PathToken]) -> String { let e = print(t); e.strip_prefix('.').map(|s| s.to_string()).unwrap_or(e) }

pub fn p13(h: &mut H) {
  h.assume("Field names are non-empty: the grammar itself has no form for an empty name.");
  h.check("print_parse", 40_000, "random token lists; non-trivial: at least two tokens after the root", || tokens(6), |t, c| {
    c.nontrivial(t.len() > 2);
    c.label_if(t.iter().any(|t| matches!(t, PathToken::Field(f) if !plain_ident(f))), "quoted name");
    c.label_if(t.iter().any(|t| matches!(t, PathToken::Field(f) if f.contains(['\'', '\\']))), "escaped name");
    let e = print(t);
    let p = DocPath::from_tokens(t.clone());
    same(&p, t, "from_tokens")?;
    let parsed = DocPath::new(e.as_str()).map_err(|x| format!("printed expression {:?} does not parse: {}", e, x))?;
    same(&parsed, t, "parsed")?;
    ensure!(parsed == p, "parsed path differs from the built one");
    ensure_eq!(String::from(p.clone()), e, "String::from");
    let tf = DocPath::try_from(e.clone()).map_err(|e| e.to_string())?;
    ensure_eq!(tf.tokens(), t, "try_from");
    let js = serde_json::to_value(&p).map_err(|e| e.to_string())?;
    ensure_eq!(js, json!(e), "serde form");
    let back: DocPath = serde_json::from_value(js).map_err(|e| e.to_string())?;
    same(&back, t, "serde reload")
  });
  h.check("parser", 60_000, "grammar soup and damaged expressions against a reference recogniser; non-trivial: over 3 characters", expr, |e, c| {
    c.nontrivial(e.chars().count() > 3);
    let want = reference_parse(e);
    c.label(if want.is_some() { "valid" } else { "invalid" });
    let got = DocPath::new(e.as_str());
    match (&want, &got) {
      (Some(w), Ok(g)) => {
        ensure_eq!(g.tokens(), w, "tokens of {:?}", e);
        ensure_eq!(&g.to_string(), e, "expression text is kept");
        let again = DocPath::from_tokens(g.tokens().clone());
        let re = DocPath::new(again.to_string()).map_err(|x| format!("canonical form of {:?} does not parse: {}", e, x))?;
        ensure_eq!(re.tokens(), w, "canonical form of {:?}", e);
        Ok(())
      },
      (None, Err(_)) => Ok(()),
      (Some(w), Err(x)) => Err(format!("{:?} is {:?} but was rejected: {}", e, w, x)),
      (None, Ok(g)) => Err(format!("{:?} is not a path expression but was parsed as {:?}", e, g.tokens())),
    }
  });
  h.check("algebra", 40_000, "builders, parent, drop, join, accessors on random paths; non-trivial: at least two tokens after the root",
    || (tokens(5), token(), tokens(3), 0usize..8, 0usize..20), |(t, tok, t2, n, idx), c| {
    c.nontrivial(t.len() > 2);
    let p = DocPath::from_tokens(t.clone());
    let mut longer = t.clone(); longer.push(tok.clone());
    let mut q = p.clone(); q.push(tok.clone());
    same(&q, &longer, "push")?;
    let mut q = p.clone();
    match tok {
      PathToken::Field(f) => { q.push_field(f.as_str()); },
      PathToken::Index(i) => { q.push_index(*i); },
      PathToken::Star => { q.push_star(); },
      _ => { q.push_star_index(); },
    }
    same(&q, &longer, "push_*")?;
    same(&q.parent().ok_or("no parent")?, t, "parent of push")?;
    let mut q = p.clone(); q.push_path(&DocPath::from_tokens(t2.clone()));
    let mut cat = t.clone(); cat.extend(t2[1..].iter().cloned());
    same(&q, &cat, "push_path")?;
    same(&q.drop(t2.len() - 1), t, "drop what was pushed")?;
    let mut q = p.clone(); q.push_path(&DocPath::from_tokens(t2[1..].iter().cloned()));
    same(&q, &cat, "push_path of a path without root")?;
    if let Ok(rootless) = DocPath::new(ident_path(&t2[1..])) {
      let mut q = p.clone(); q.push_path(&rootless);
      let mut cat = t.clone(); cat.extend(rootless.tokens().iter().filter(|t| **t != PathToken::Root).cloned());
      same(&q, &cat, "push_path of a parsed path")?;
    }
    let kept = t.len().saturating_sub(*n);
    same(&p.drop(*n), if kept == 0 { &[PathToken::Root] } else { &t[..kept] }, "drop")?;
    ensure_eq!(p.parent().is_none(), t.len() <= 1, "only the root has no parent");
    // join from text: the text decides the token kind
    let part = match tok { PathToken::Star => "*".to_string(), PathToken::StarIndex => "[*]".into(), PathToken::Index(i) => i.to_string(),
      PathToken::Field(f) => f.clone(), PathToken::Root => "$".into() };
    if !part.starts_with('+') {
      let kind = if part == "*" { PathToken::Star } else if part == "[*]" { PathToken::StarIndex }
        else if !part.is_empty() && part.bytes().all(|b| b.is_ascii_digit()) && part.parse::<usize>().is_ok() { PathToken::Index(part.parse().unwrap()) }
        else { PathToken::Field(part.clone()) };
      let mut l = t.clone(); l.push(kind);
      same(&p.join(part.as_str()), &l, "join")?;
    }
    let star = matches!(t.last(), Some(PathToken::Star));
    let starry = star || matches!(t.last(), Some(PathToken::StarIndex));
    let mut l = t.clone(); if starry { l.pop(); } l.push(PathToken::Index(*idx));
    same(&p.join_index(*idx), &l, "join_index")?;
    let mut l = t.clone(); if star { l.pop(); } l.push(PathToken::Field(part.clone()));
    same(&p.join_field(part.as_str()), &l, "join_field")?;
    let fields: Vec<&str> = t.iter().filter_map(|t| if let PathToken::Field(f) = t { Some(f.as_str()) } else { None }).collect();
    ensure_eq!(p.first_field(), fields.first().copied(), "first_field");
    ensure_eq!(p.last_field(), fields.last().copied(), "last_field");
    ensure_eq!(p.last(), t.last().cloned(), "last");
    ensure_eq!(p.is_root(), t.len() == 1, "is_root");
    ensure_eq!(p.is_wildcard(), star, "is_wildcard");
    ensure_eq!(p.to_vec(), t.iter().map(|t| match t { PathToken::Root => "$".to_string(), PathToken::Field(f) => f.clone(),
      PathToken::Index(i) => i.to_string(), PathToken::Star => "*".into(), PathToken::StarIndex => "[*]".into() }).collect::<Vec<_>>(), "to_vec");
    if t.iter().all(|t| !matches!(t, PathToken::Field(f) if !f.is_ascii())) {
      let low: Vec<_> = t.iter().map(|t| if let PathToken::Field(f) = t { PathToken::Field(f.to_ascii_lowercase()) } else { t.clone() }).collect();
      same(&p.to_lower_case(), &low, "to_lower_case")?;
    }
    Ok(())
  });
  h.check("json_pointer", 6_000, "every element of a random document is reached through its path's JSON pointer; non-trivial: at least 3 elements",
    doc, |d, c| {
    let mut paths = vec![];
    all_paths(d, &mut vec![PathToken::Root], &mut paths);
    c.nontrivial(paths.len() > 2);
    for t in paths {
      let p = DocPath::from_tokens(t.clone());
      let ptr = p.as_json_pointer().map_err(|e| e.to_string())?;
      let want = walk(d, &t);
      ensure!(want.is_some(), "walk");
      ensure_eq!(d.pointer(&ptr), want, "element at {} (pointer {:?})", p, ptr);
      for wild in [PathToken::Star, PathToken::StarIndex] {
        let mut w = t.clone(); w.push(wild);
        ensure!(DocPath::from_tokens(w).as_json_pointer().is_err(), "wildcard has no pointer");
      }
    }
    Ok(())
  });
  h.check("order", 20_000, "equality, order and hash follow the expression; non-trivial: different expressions",
    || (tokens(3), tokens(3), any::<bool>()), |(a, b, eq), c| {
    use std::hash::{DefaultHasher, Hash, Hasher};
    let (pa, pb) = (DocPath::from_tokens(a.clone()), DocPath::from_tokens(if *eq { a.clone() } else { b.clone() }));
    c.nontrivial(pa != pb);
    ensure_eq!(pa == pb, pa.to_string() == pb.to_string(), "equality");
    ensure_eq!(pa.cmp(&pb), pa.to_string().cmp(&pb.to_string()), "order");
    let hh = |p: &DocPath| { let mut h = DefaultHasher::new(); p.hash(&mut h); h.finish() };
    if pa == pb { ensure_eq!(hh(&pa), hh(&pb), "hash"); ensure_eq!(pa.tokens(), pb.tokens(), "equal paths have equal tokens"); }
    Ok(())
  });
}

/// Fragments of a concrete path.
fn fragment() -> B<String> {
  prop_oneof![5 => "[a-c]", 3 => (0usize..4).prop_map(|i| i.to_string()), 1 => field().prop_filter("canonical", |f| !f.starts_with('+') && (f.len() < 2 || !f.starts_with('0') || f.parse::<usize>().is_err())),
    1 => Just("$".to_string()), 1 => prop::sample::select(vec!["", " ", "-1", "1a", "1.0", "*", "[*]", "[0]", "²", "٣", "18446744073709551615", "a.b"]).prop_map(|s| s.to_string())].boxed()
}

fn small_token() -> B<PathToken> {
  prop_oneof![5 => "[a-c]".prop_map(PathToken::Field), 3 => (0usize..4).prop_map(PathToken::Index), 2 => Just(PathToken::Star), 2 => Just(PathToken::StarIndex),
    1 => field().prop_map(PathToken::Field)].boxed()
}

pub fn reference_weight(t: &[PathToken], path: &[String]) -> usize {
  if path.len() < t.len() { return 0; }
  t.iter().zip(path).map(|(t, f)| {
    let num = !f.is_empty() && f.bytes().all(|b| b.is_ascii_digit());
    match t {
      PathToken::Root => if f == "$" { 2 } else { 0 },
      PathToken::Field(n) => if n == f { 2 } else { 0 },
      PathToken::Index(i) => if num && *f == i.to_string() { 2 } else { 0 },
      PathToken::StarIndex => if f == "[*]" || num { 1 } else { 0 },
      PathToken::Star => 1,
    }
  }).product()
}

pub fn p14(h: &mut H) {
  let strat = || (prop::collection::vec(small_token(), 0..9), prop::collection::vec(fragment(), 0..10), any::<u64>(), any::<bool>(), any::<bool>())
    .prop_map(|(toks, mut frags, mask, aligned, rooted)| {
      // with `aligned`, most fragments are drawn so that they fit their token
      if aligned {
        while frags.len() < toks.len() { frags.push("a".into()); }
        for (i, t) in toks.iter().enumerate() {
          if mask >> (i * 3) & 7 == 0 { continue; }
          match t { PathToken::Field(f) => frags[i] = f.clone(), PathToken::Index(n) => frags[i] = n.to_string(),
            PathToken::StarIndex => frags[i] = (mask % 5).to_string(), _ => {} }
        }
      }
      let mut t = vec![PathToken::Root]; t.extend(toks);
      let mut f = vec![if rooted || aligned { "$".to_string() } else { "x".into() }]; f.extend(frags);
      (t, f)
    });
  h.check("weight", 120_000, "random expressions against random concrete paths, half of them aligned; non-trivial: the expression matches and has a token after the root",
    strat, |(t, f), c| {
    let p = DocPath::from_tokens(t.clone());
    let path: Vec<&str> = f.iter().map(|s| s.as_str()).collect();
    let want = reference_weight(t, f);
    c.nontrivial(want > 0 && t.len() > 1);
    c.label(if want > 0 { "match" } else { "no match" });
    c.label_if(want > 0 && t.len() < f.len(), "prefix match");
    ensure_eq!(p.path_weight(&path), (want, t.len()), "path_weight of {} on {:?}", p, path);
    ensure_eq!(p.matches_path(&path), want > 0, "matches_path of {} on {:?}", p, path);
    ensure_eq!(p.matches_path_exactly(&path), want > 0 && t.len() == f.len(), "matches_path_exactly of {} on {:?}", p, path);
    // the same expression read back from its text behaves the same
    let q = DocPath::new(p.to_string()).map_err(|e| e.to_string())?;
    ensure_eq!(q.path_weight(&path), (want, t.len()), "path_weight of reparsed {} on {:?}", q, path);
    Ok(())
  });
  h.check("laws", 60_000, "replacing a token by a wildcard never stops a match and never raises the weight; extending the concrete path keeps a match; non-trivial: a match",
    move || (strat(), any::<prop::sample::Index>(), fragment()), |((t, f), i, extra), c| {
    let path: Vec<&str> = f.iter().map(|s| s.as_str()).collect();
    let p = DocPath::from_tokens(t.clone());
    let (w, _) = p.path_weight(&path);
    c.nontrivial(w > 0 && t.len() > 1);
    if w > 0 {
      let mut ext = path.clone(); ext.push(extra);
      ensure!(p.matches_path(&ext), "{} matches {:?} but not the longer {:?}", p, path, ext);
      ensure!(!p.matches_path_exactly(&ext), "{} exactly matches a longer path {:?}", p, ext);
      if t.len() > 1 {
        let n = 1 + i.index(t.len() - 1);
        let mut g = t.clone(); g[n] = PathToken::Star;
        let q = DocPath::from_tokens(g);
        let (w2, _) = q.path_weight(&path);
        ensure!(w2 > 0, "{} matches {:?} but the more general {} does not", p, path, q);
        ensure!(w2 <= w, "{} weighs less than the more general {} on {:?}", p, q, path);
        ensure!(w2 < w || !matches!(t[n], PathToken::Field(_) | PathToken::Index(_)), "exact token in {} weighs no more than the wildcard in {}", p, q);
      }
      // a concrete path matches itself with full weight
    }
    let own: Vec<String> = f.clone();
    let toks: Vec<PathToken> = own.iter().enumerate().map(|(i, s)| if i == 0 { PathToken::Root } else if s.bytes().all(|b| b.is_ascii_digit()) && s.parse::<usize>().is_ok() {
      PathToken::Index(s.parse().unwrap()) } else { PathToken::Field(s.clone()) }).collect();
    if own[0] == "$" {
      let q = DocPath::from_tokens(toks);
      ensure_eq!(q.path_weight(&path), (1usize << path.len(), path.len()), "a fully spelt out path has full weight");
    }
    Ok(())
  });
}
