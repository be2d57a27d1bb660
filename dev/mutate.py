#!/usr/bin/env python3
"""Dev tool: small random changes to one crate of the repository, in a clone, against the checks of a harness crate.
usage: mutate.py LANE CRATE SEED COUNT [file-substring]    writes /tmp/mu/<LANE>/{log,survivors}.txt"""
import os, sys, re, random, subprocess, glob
V = "/verif"
lane, crate, seed, count = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
only = sys.argv[5] if len(sys.argv) > 5 else ""
W = f"/tmp/mu/{lane}"
SRC = {"models": "rust/pact_models/src", "matching": "rust/pact_matching/src", "verifier": "rust/pact_verifier/src", "consumer": "rust/pact_consumer/src", "ffi": "rust/pact_ffi/src"}[crate]
EXE = {"models": "pmcheck", "matching": "pxcheck", "verifier": "pvcheck", "consumer": "pccheck", "ffi": "pfcheck"}[crate]
SCALE = os.environ.get("SCALE", "0.4")
def sh(c, **k): return subprocess.run(c, shell=True, **k)
os.makedirs(f"{W}/v", exist_ok=True)
if not os.path.exists(f"{W}/repo"): sh(f"git clone -q /repo {W}/repo", check=True)
sh(f"cd {W}/repo && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", check=True)
sh(f"cd {W}/v && mkdir -p evidence replays && for d in models matching verifier consumer ffi fw stubs; do [ -d {V}/$d ] && cp -r {V}/$d .; done; cp {V}/known_findings.txt .; find . -name Cargo.toml | xargs sed -i 's#\"/repo/#\"{W}/repo/#g'", check=True)
env = dict(os.environ, RUSTUP_TOOLCHAIN="1.89.0", CARGO_NET_OFFLINE="true", TZ="UTC", RUST_BACKTRACE="0", RUSTFLAGS="-Awarnings", CARGO_TARGET_DIR=f"{W}/target/{crate}", VERIF_ROOT=f"{W}/v", VERIF_SCALE=SCALE, VERIF_SEED="1")
def build(): return sh(f"cd {W}/v/{crate} && nice -n 15 timeout 900 cargo build --offline --quiet 2>/tmp/mu/{lane}.err", env=env).returncode == 0
ids = [l.split()[0] for l in open(f"{V}/crates.map") if l.split()[1] == crate]
assert build()
def run():
    for p in ids:
        try: r = sh(f"nice -n 15 timeout 240 {W}/target/{crate}/debug/{EXE} {p} >/tmp/mu/{lane}.out 2>&1", env=env).returncode
        except Exception: r = 9
        if r != 0: return p, r
    return None
SUBS = [(r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
  (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_ok\(\)", ".is_err()"), (r"\.to_(ascii_)?lowercase\(\)", ".to_string()"), (r"\.trim\(\)", ""), (r"\.first\(\)", ".last()"), (r"starts_with", "ends_with"), (r"ends_with", "starts_with"),
  (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\bcontinue\b", "break"), (r"\bif !", "if "), (r"\bif (?!let|!)", "if !"), (r"\.is_empty\(\)", ".len() == 1"), (r"\.filter\(\|", ".filter(|_| true).filter(|"), (r"\.rev\(\)", ""), (r"\.sorted\(\)", ""), (r"\.dedup\(\)", ""),
  (r"eq_ignore_ascii_case\(", "eq("), (r"Some\(([a-z_.]+)\)(?=[,;)]|$)", "None"), (r"\.unwrap_or_default\(\)", ".unwrap_or_default().into_iter().skip(1).collect()"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\.push_str\(&?([^;]*)\);", ";"), (r"\.max\(", ".min("), (r"\.min\(", ".max("), (r"splitn\((\d), ", "splitn(9, "), (r"split_once", "rsplit_once"), (r"\.skip\((\d)\)", ""), (r"\.find\(", ".rfind("), (r"\.chain\(", ".take(1).chain("), (r"\.or_else\(\|", ".or_else(|| None).or_else(|"), (r"&mut ([a-z_]+)\.clone\(\)", r"&mut \1"), (r"\.and_then\(\|", ".filter(|_| false).and_then(|"), (r'"([a-zA-Z]{3,})"', r'"\1x"'), (r"RuleLogic::And", "RuleLogic::Or"), (r"RuleLogic::Or", "RuleLogic::And"), (r"OptionalBody::Empty", "OptionalBody::Missing"), (r"OptionalBody::Null", "OptionalBody::Missing")]
def code_lines(text):
    out = []
    for i, l in enumerate(text.split("\n")):
        if l.startswith("#[cfg(test)]") or l.startswith("mod tests") : break
        s = l.strip()
        if not s or s.startswith(("//", "#[", "use ", "pub use", "debug!", "trace!", "warn!", "error!", "info!", "mod ", "pub mod", "extern", "///", "assert")): continue
        if "debug!" in s or "trace!" in s or "warn!" in s: continue
        out.append(i)
    return out
rng = random.Random(seed)
files = [f for f in sorted(glob.glob(f"{W}/repo/{SRC}/**/*.rs", recursive=True)) if not re.search(r"tests?(\.rs|/)|/wasm|timezone_db|spec_tests|/engine/|plugin", f) and only in f]
texts = {f: open(f).read() for f in files}
sites = []
for f in files:
    lines = texts[f].split("\n")
    for i in code_lines(texts[f]):
        l = lines[i]
        for k, (a, b) in enumerate(SUBS):
            for m in re.finditer(a, l):
                if l[:m.start()].count('"') % 2 and not a.startswith('"'): continue
                n = l[:m.start()] + m.expand(b) + l[m.end():]
                if n != l: sites.append((f, i, n))
        if re.match(r"^\s+[a-z_.]+\.[a-z_]+\(.*\);$", l) or re.match(r"^\s+[a-z_.*]+ [+|]?= .*;$", l): sites.append((f, i, re.match(r"\s*", l)[0] + "();"))
print(len(sites), "sites in", len(files), "files")
byfile = {}
for s in sites: byfile.setdefault(s[0], []).append(s)
log = open(f"{W}/log.txt", "a"); sv = open(f"{W}/survivors.txt", "a")
n = 0
while n < count:
    s = rng.choice(sites)
    f, i, new = s
    lines = texts[f].split("\n"); old = lines[i]; lines[i] = new
    open(f, "w").write("\n".join(lines))
    try:
        if not build(): continue
        n += 1
        r = run()
        where = f"{os.path.relpath(f, W + '/repo')}:{i + 1}"
        log.write(f"{where} {r}\n- {old.strip()}\n+ {new.strip()}\n"); log.flush()
        if r is None or r[1] not in (1,): sv.write(f"{where} {r or ''}\n- {old.strip()}\n+ {new.strip()}\n"); sv.flush()
    finally:
        open(f, "w").write(texts[f])
