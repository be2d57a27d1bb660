//! Small property-testing driver: sharded deterministic proptest runs, case classification,
//! shrunk replay files, pinned known findings and evidence files.

use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::Mutex;
use std::time::Instant;

pub use proptest;
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde_json::{json, Value};

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
  ($c:expr, $($arg:tt)*) => { if !$c { return Err(format!($($arg)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
  ($a:expr, $b:expr, $($arg:tt)*) => {{
    let (a, b) = (&$a, &$b);
    if a != b { return Err(format!("{}\n    left: {:?}\n   right: {:?}", format!($($arg)*), a, b)); }
  }};
}

/// What one executed case tells about itself.
#[derive(Default)]
pub struct Case { pub nontrivial: bool, pub labels: Vec<String> }
impl Case {
  pub fn label(&mut self, l: impl Into<String>) { self.labels.push(l.into()); }
  pub fn label_if(&mut self, c: bool, l: &str) { if c { self.labels.push(l.to_string()); } }
  pub fn nontrivial(&mut self, c: bool) { if c { self.nontrivial = true; } }
}

thread_local! {
  static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn install_hook() {
  std::panic::set_hook(Box::new(|info| {
    let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
      .or_else(|| info.payload().downcast_ref::<String>().cloned())
      .unwrap_or_else(|| "?".to_string());
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    if std::env::var_os("PV_PANICS").is_some() { eprintln!("panicked at {}: {}", loc, msg); }
    if FORKED.load(std::sync::atomic::Ordering::SeqCst) >= 0 { tell(&format!("{}\u{1}", msg)); }
    if msg.contains("cannot unwind") && FORKED.load(std::sync::atomic::Ordering::SeqCst) >= 0 {
      // the process of this one case is about to be aborted: say why
      let first = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or(msg);
      answer(&format!("the call ended the process: {}", first));
    }
    LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {}: {}", loc, msg)));
  }));
}

// ---- cases in processes of their own, for code that can end the process ----
static FORKED: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(-1);
unsafe extern "C" {
  fn fork() -> i32;
  fn pipe(fds: *mut i32) -> i32;
  fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
  fn write(fd: i32, buf: *const u8, n: usize) -> isize;
  fn close(fd: i32) -> i32;
  fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
  fn _exit(code: i32) -> !;
}
/// The answer of a forked case: a failure message
fn answer(msg: &str) -> ! {
  tell(msg);
  unsafe { _exit(1) }
}
fn tell(msg: &str) {
  let fd = FORKED.load(std::sync::atomic::Ordering::SeqCst);
  let mut rest = msg.as_bytes();
  while !rest.is_empty() { let n = unsafe { write(fd, rest.as_ptr(), rest.len()) }; if n <= 0 { break } rest = &rest[n as usize..]; }
}
fn forked(f: impl FnOnce() -> R) -> R {
  let mut fds = [0i32; 2];
  if unsafe { pipe(fds.as_mut_ptr()) } != 0 { return f() }
  let pid = unsafe { fork() };
  if pid < 0 { unsafe { close(fds[0]); close(fds[1]); } return f() }
  if pid == 0 {
    FORKED.store(fds[1], std::sync::atomic::Ordering::SeqCst);
    match guarded(f) { Ok(Ok(())) => unsafe { _exit(0) }, Ok(Err(m)) | Err(m) => answer(&m) }
  }
  unsafe { close(fds[1]) };
  let mut out = vec![];
  let mut buf = [0u8; 4096];
  loop { let n = unsafe { read(fds[0], buf.as_mut_ptr(), buf.len()) }; if n <= 0 { break } out.extend_from_slice(&buf[..n as usize]); }
  let mut status = 0;
  unsafe { close(fds[0]); waitpid(pid, &mut status, 0); }
  let out = String::from_utf8_lossy(&out).to_string();
  if status & 0x7f != 0 { return Err(format!("the process was ended by signal {} after: {}", status & 0x7f, out.replace('\u{1}', "; "))) }
  if status >> 8 != 0 { return Err(out.rsplit('\u{1}').next().unwrap_or("").to_string()) }
  Ok(())
}
fn fork_mode() -> bool { std::env::var_os("VERIF_FORK").is_some() }
/// Runs the whole check in a child process. When that is ended by the code under test, the check is run once more
/// with every case in a process of its own, which finds and shrinks the case that did it.
pub fn supervised() {
  if std::env::var_os("VERIF_INNER").is_some() { return }
  let exe = std::env::current_exe().expect("own path");
  let args: Vec<String> = std::env::args().skip(1).collect();
  let s = std::process::Command::new(&exe).args(&args).env("VERIF_INNER", "1").status().expect("child");
  if let Some(c) = s.code() { std::process::exit(c) }
  eprintln!("the check was ended ({}), looking for the case that did it", s);
  let s = std::process::Command::new(&exe).args(&args).env("VERIF_INNER", "1").env("VERIF_FORK", "1").status().expect("child");
  std::process::exit(match s.code() { Some(0) | None => 4, Some(c) => c })
}

/// Runs a closure, turning a panic into Err(description).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
  match catch_unwind(AssertUnwindSafe(f)) {
    Ok(v) => Ok(v),
    Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panicked".into())),
  }
}

static OUT: std::sync::OnceLock<Mutex<std::fs::File>> = std::sync::OnceLock::new();

/// From here on, what the code under test prints is dropped: only the driver's own lines reach the standard output.
pub fn own_stdout() {
  use std::os::fd::AsFd;
  unsafe extern "C" { fn dup2(a: i32, b: i32) -> i32; }
  let (Ok(keep), Ok(null)) = (std::io::stdout().as_fd().try_clone_to_owned(), std::fs::File::create("/dev/null")) else { return };
  let _ = OUT.set(Mutex::new(keep.into()));
  unsafe { dup2(std::os::fd::AsRawFd::as_raw_fd(&null), 1); }
}
fn say_line(s: String) {
  use std::io::Write;
  match OUT.get() {
    Some(f) => { let _ = writeln!(f.lock().unwrap(), "{}", s); }
    None => println!("{}", s)
  }
}
macro_rules! say { ($($arg:tt)*) => { say_line(format!($($arg)*)) }; }

#[derive(Clone)]
struct Known { property: String, key: String, what: String }

#[derive(Default)]
struct Stats { evals: u64, distinct: HashSet<u64>, labels: BTreeMap<String, u64>, samples: Vec<String> }

pub struct H {
  pub prop: String,
  pub tier: String,
  pub seed: u64,
  root: PathBuf,
  start: Instant,
  known: Vec<Known>,
  only: Option<String>,
  total: u64,
  distinct: u64,
  per_check: Vec<Value>,
  samples: Vec<String>,
  rules: Vec<String>,
  violations: Vec<(String, String)>,
  findings: Vec<String>,
  assumptions: Vec<String>,
}

const SHARDS: u32 = 8;

fn mix(seed: u64, name: &str, shard: u32) -> [u8; 32] {
  let mut out = [0u8; 32];
  for i in 0..4u64 {
    // FNV-1a, so that the seed derivation does not depend on the std library
    let mut h: u64 = 0xcbf29ce484222325;
    for b in seed.to_le_bytes().iter().chain(name.as_bytes()).chain(&shard.to_le_bytes()).chain(&i.to_le_bytes()) {
      h ^= *b as u64; h = h.wrapping_mul(0x100000001b3);
    }
    h ^= h >> 29; h = h.wrapping_mul(0xbf58476d1ce4e5b9); h ^= h >> 32;
    out[(i as usize) * 8..(i as usize + 1) * 8].copy_from_slice(&h.to_le_bytes());
  }
  out
}

fn clip(s: &str, n: usize) -> String {
  if s.chars().count() <= n { s.to_string() } else { format!("{}…", s.chars().take(n).collect::<String>()) }
}

impl H {
  pub fn new(prop: &str, root: PathBuf) -> H {
    install_hook();
    let tier = match std::env::var("VERIF_TIER").as_deref() { Ok("thorough") => "thorough", _ => "quick" };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1u64);
    let mut known = vec![];
    if let Ok(text) = std::fs::read_to_string(root.join("known_findings.txt")) {
      for line in text.lines() {
        if let Some(rest) = line.strip_prefix("known: property=") {
          let mut it = rest.splitn(3, ' ');
          if let (Some(p), Some(k), Some(w)) = (it.next(), it.next(), it.next()) {
            if let Some(k) = k.strip_prefix("key=") {
              known.push(Known { property: p.into(), key: k.into(), what: w.into() });
            }
          }
        }
      }
    }
    H {
      prop: prop.to_string(), tier: tier.to_string(), seed, root, start: Instant::now(), known,
      only: std::env::var("VERIF_ONLY").ok(), total: 0, distinct: 0, per_check: vec![], samples: vec![], rules: vec![],
      violations: vec![], findings: vec![], assumptions: vec![],
    }
  }

  pub fn thorough(&self) -> bool { self.tier == "thorough" }
  pub fn assume(&mut self, s: &str) { self.assumptions.push(s.to_string()); }

  fn cases(&self, quick: u32) -> u32 {
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok())
      .unwrap_or(if self.thorough() { 25.0 } else { 1.0 });
    ((quick as f64 * scale) as u32).max(8)
  }

  fn skip(&self, name: &str) -> bool { self.only.as_deref().map(|o| o != name).unwrap_or(false) }

  /// Generates `quick` cases (x25 in the thorough tier) over fixed shards and checks each one.
  /// `rule` says when a case counts as non-trivial.
  pub fn check<V, S, G, F>(&mut self, name: &str, quick: u32, rule: &str, strat: G, f: F)
  where V: Debug, S: Strategy<Value = V>, G: Fn() -> S + Sync, F: Fn(&V, &mut Case) -> R + Sync {
    if self.skip(name) { return; }
    let t0 = Instant::now();
    let cases = self.cases(quick);
    let results: Mutex<Vec<(u32, Stats, Option<(String, String)>)>> = Mutex::new(vec![]);
    let per = cases.div_ceil(SHARDS);
    let full = format!("{}/{}", self.prop, name);
    let seed = self.seed;
    let turn = Mutex::new(());
    std::thread::scope(|sc| {
      for shard in 0..SHARDS {
        let turn = &turn;
        let (strat, f, results, full) = (&strat, &f, &results, &full);
        std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || {
          let _one_at_a_time = fork_mode().then(|| turn.lock());
          if fork_mode() && results.lock().unwrap().iter().any(|r| r.2.is_some()) { return }
          let stats = RefCell::new(Stats::default());
          let config = Config { cases: per, failure_persistence: None, max_shrink_iters: 3000, max_global_rejects: 65536,
            max_shrink_time: 40_000, ..Config::default() };
          let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &mix(seed, full, shard));
          let mut runner = TestRunner::new_with_rng(config, rng);
          let failed = RefCell::new(false);
          let res = runner.run(&strat(), |v| {
            let mut case = Case::default();
            let out = if fork_mode() { forked(|| f(&v, &mut case)) } else { match guarded(|| f(&v, &mut case)) { Ok(r) => r, Err(p) => Err(p) } };
            if !*failed.borrow() {
              let mut st = stats.borrow_mut();
              st.evals += 1;
              for l in case.labels { *st.labels.entry(l).or_default() += 1; }
              if case.nontrivial {
                let d = format!("{:?}", v);
                let mut h = DefaultHasher::new(); d.hash(&mut h);
                if st.distinct.insert(h.finish()) && st.samples.len() < 3 && st.evals > 3 { st.samples.push(clip(&d, 700)); }
              }
            }
            out.map_err(|m| { *failed.borrow_mut() = true; TestCaseError::fail(m) })
          });
          let fail = match res {
            Ok(()) => None,
            Err(TestError::Fail(reason, v)) => Some((format!("{:#?}", v), reason.message().to_string())),
            Err(TestError::Abort(reason)) => Some(("(generator gave up)".to_string(), format!("ABORT {}", reason.message()))),
          };
          results.lock().unwrap().push((shard, stats.into_inner(), fail));
        }).expect("spawn");
      }
    });
    let mut results = results.into_inner().unwrap();
    results.sort_by_key(|r| r.0);
    let mut distinct = HashSet::new();
    let mut evals = 0;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut fail: Option<(u32, String, String)> = None;
    for (shard, st, fl) in results {
      evals += st.evals;
      distinct.extend(st.distinct);
      for (k, v) in st.labels { *labels.entry(k).or_default() += v; }
      if shard < 2 { self.samples.extend(st.samples.into_iter().take(2).map(|s| format!("[{}] {}", name, s))); }
      if let Some((i, m)) = fl {
        // prefer the smallest reproduction
        if fail.as_ref().map(|(_, j, _)| i.len() < j.len()).unwrap_or(true) { fail = Some((shard, i, m)); }
      }
    }
    self.total += evals;
    self.distinct += distinct.len() as u64;
    self.rules.push(format!("{}: {}", name, rule));
    self.per_check.push(json!({ "check": name, "evaluations": evals, "distinct_nontrivial": distinct.len(), "labels": labels,
      "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0 }));
    if let Some((shard, input, msg)) = fail {
      if msg.starts_with("ABORT ") { eprintln!("ERROR: check {} could not generate its inputs: {}", name, msg); std::process::exit(3); }
      self.violation(name, Some(shard), &input, &msg);
    }
  }

  /// A fixed input. When it breaks the property under a key listed in known_findings.txt this is a known finding,
  /// otherwise a violation.
  pub fn pinned(&mut self, key: &str, input: &str, f: impl FnOnce() -> R) {
    if self.skip(key) { return; }
    self.total += 1;
    let out = if fork_mode() { forked(f) } else { match guarded(f) { Ok(r) => r, Err(p) => Err(p) } };
    if let Err(msg) = out {
      if let Some(k) = self.known.iter().find(|k| k.property == self.prop && k.key == key) {
        self.findings.push(format!("KNOWN-FINDING: property={} key={} {}", self.prop, key, k.what));
      } else {
        self.violation(key, None, input, &msg);
      }
    }
  }

  pub fn violation(&mut self, name: &str, shard: Option<u32>, input: &str, msg: &str) {
    let dir = self.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.json", self.prop, name.replace(|c: char| !c.is_ascii_alphanumeric(), "_")));
    let replay = json!({ "property": self.prop, "check": name, "seed": self.seed, "tier": self.tier, "shard": shard,
      "minimal_input": input, "message": msg,
      "rerun": format!("cd /verif && VERIF_SEED={} VERIF_TIER={} VERIF_ONLY='{}' python3 run.py {}", self.seed, self.tier, name, self.prop) });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap());
    say!("--- {} check '{}' failed", self.prop, name);
    say!("minimal input: {}", clip(input, 4000));
    say!("message: {}", clip(msg, 4000));
    self.violations.push((name.to_string(), path.to_string_lossy().to_string()));
  }

  pub fn finish(self) -> ! {
    let evidence = json!({
      "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
      "coverage": {
        "evaluations": self.total, "distinct_nontrivial": self.distinct,
        "rule": self.rules.join(" | "),
        "samples": self.samples.iter().take(12).collect::<Vec<_>>(),
        "per_check": self.per_check,
        "known_findings_seen": self.findings,
      },
      "assumptions": self.assumptions,
      "wall_s": (self.start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
      "violations": self.violations.len(),
    });
    if self.only.is_none() {
      let dir = self.root.join("evidence");
      let _ = std::fs::create_dir_all(&dir);
      std::fs::write(dir.join(format!("{}.json", self.prop)), serde_json::to_string_pretty(&evidence).unwrap()).expect("evidence");
    } else {
      say!("{}", serde_json::to_string_pretty(&evidence["coverage"]).unwrap());
    }
    for f in &self.findings { say!("{}", f); }
    for (_, p) in &self.violations { say!("VIOLATION property={} replay={}", self.prop, p); }
    say!("{}: {} cases, {} distinct non-trivial, {} violation(s), {:.1} s", self.prop, self.total, self.distinct,
      self.violations.len(), self.start.elapsed().as_secs_f64());
    std::process::exit(if self.violations.is_empty() { 0 } else { 1 });
  }
}
