#!/usr/bin/env python3
"""Dev tool for planted bugs. usage: bug.py ID   (reads /verif/dev/bugs/ID.py, writes /verif/seeded/ID, confirms it, runs the check)
A bug file sets: prop, needs, breaks, edits=[(file, old, new)...], demo (Rust main.rs text), optional crate='models', deps=''"""
import os, re, sys, subprocess, json, shutil, glob
ROOT = "/verif"
W = "/tmp/bugrepo2"
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, **kw)
DEMO_SH = '''#!/bin/bash
# Builds a small program against the repository in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 99
trap 'rm -rf -- "$work"' EXIT
cp -r "$here/stubs" "$work/stubs" && mkdir "$work/src" && cp "$here/main.rs" "$work/src/main.rs" && cp "$here/lock" "$work/Cargo.lock" || exit 99
sed "s#@REPO@#$repo#g" "$here/manifest" > "$work/Cargo.toml"
[ ! -e "$here/view" ] || { mkdir "$work/view" && sed "s#@REPO@#$repo#g" "$here/view" > "$work/view/Cargo.toml"; } || exit 99
export RUSTUP_TOOLCHAIN=1.89.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" RUSTFLAGS="-Awarnings" TZ=UTC
cd "$work" && cargo build --offline --quiet || exit 98
cd "$work" && "$work/target/debug/demo"
'''
MANIFEST = '''[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
%s
[patch.crates-io]
%s
[workspace]
[profile.dev]
debug = false
'''
ONLY_VERIFIER = ("reqwest-async", "async-trait", "serde_with", "pact_mock_server", "termsize")
ONLY_FFI = ("clap", "tokio-rustls", "zeroize", "panic-message", "multipart-2021", "plugin-driver-ffi")
DEPS = {"models": 'pact_models = { path = "@REPO@/rust/pact_models" }\nserde_json = "1"\nanyhow = "1"\nmaplit = "1"\n',
        "matching": 'pact_models = { path = "@REPO@/rust/pact_models" }\npact_matching = { path = "@REPO@/rust/pact_matching", default-features = false, features = ["datetime", "xml", "form_urlencoded"] }\nserde_json = "1"\nanyhow = "1"\nmaplit = "1"\nbytes = "1"\ntokio = { version = "1", features = ["rt"] }\n',
        "verifier": 'pact_models = { path = "@REPO@/rust/pact_models" }\npact_verifier = { path = "@REPO@/rust/pact_verifier", default-features = false, features = ["datetime", "xml"] }\nserde_json = "1"\nanyhow = "1"\nmaplit = "1"\nbytes = "1"\nreqwest = "0.12"\nasync-trait = "0.1"\ntokio = { version = "1", features = ["full", "test-util"] }\n',
        "ffi": 'pact_models = { path = "@REPO@/rust/pact_models" }\npact_ffi = { path = "view" }\nserde_json = "1"\nanyhow = "1"\nmaplit = "1"\nbytes = "1"\n'}
def main(ID):
    d = {"crate": "models", "deps": ""}
    exec(open(f"{ROOT}/dev/bugs/{ID}.py").read(), d)
    if not os.path.exists(W): sh(f"cp -a /repo {W}", check=True)
    sh(f"git -C {W} checkout -q -- . && git -C {W} fetch -q /repo HEAD && git -C {W} reset -q --hard FETCH_HEAD", check=True)
    for f, a, b in d["edits"]:
        p = f"{W}/{f}"; s = open(p).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, "w").write(s.replace(a, b))
    out = f"{ROOT}/seeded/{ID}"
    if os.path.exists(out): shutil.rmtree(out)
    os.makedirs(out)
    diff = subprocess.check_output(["git", "-C", W, "diff"]).decode()
    open(out + "/patch.diff", "w").write(diff)
    crate = d["crate"]
    stubs = ["onig", "fs2", "reqwest"] if crate == "models" else [s for s in sorted(os.listdir(f"{ROOT}/stubs")) if s not in ONLY_VERIFIER and s not in ONLY_FFI]
    if crate in ("verifier", "consumer"): stubs += ["async-trait", "serde_with"]
    if crate == "ffi":
        patch = dict(re.findall(r'^([\w-]+) = \{ path = "\.\./stubs/([\w-]+)" \}', open(f"{ROOT}/ffi/Cargo.toml").read(), re.M)); stubs = sorted(patch)
        for s in stubs: shutil.copytree(f"{ROOT}/stubs/{patch[s]}", f"{out}/stubs/{s}")
        open(out + "/view", "w").write(open(f"{ROOT}/ffi/view/Cargo.toml").read().replace('"/repo/', '"@REPO@/'))
    else:
      for s in stubs: shutil.copytree(f"{ROOT}/stubs/{'reqwest-async' if s == 'reqwest' and crate in ('verifier', 'consumer') else s}", f"{out}/stubs/{s}")
    open(out + "/manifest", "w").write(MANIFEST % (DEPS[crate] + d["deps"], "\n".join(f'{s} = {{ path = "stubs/{s}" }}' for s in stubs) + ('\npact_models = { path = "@REPO@/rust/pact_models" }' if crate != "models" else "")))
    shutil.copy(f"{ROOT}/{crate}/Cargo.lock", out + "/lock")
    open(out + "/main.rs", "w").write(d["demo"])
    open(out + "/demo.sh", "w").write(DEMO_SH); os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    if "--nodemo" not in sys.argv:
        r = sh(f"cd {'/tmp/fx/repo' if '--clone' in sys.argv else '/repo'} && bash {out}/demo.sh >/tmp/demo0.txt 2>&1").returncode
        print("demo on clean tree:", r)
        if r: print(open("/tmp/demo0.txt").read()[-1500:])
        r = sh(f"cd {W} && bash {out}/demo.sh >/tmp/demo1.txt 2>&1").returncode
        print("demo on patched tree:", r, open("/tmp/demo1.txt").read()[-300:].strip())
    if "--clone" in sys.argv:  # against the copy, without the repository's tests
        p = sh(f"/tmp/fx/w.sh {crate} {d['prop']} {W}", capture_output=True, text=True)
        print("check exit", p.returncode, "CAUGHT" if p.returncode == 1 else "MISSED"); print("\n".join(l[:300] for l in p.stdout.splitlines())[:1500])
    elif "--nocheck" not in sys.argv:
        sh(f"git -C /repo apply {out}/patch.diff", check=True)
        try:
            if "--notest" not in sys.argv:
                print(sh("bash /opt/vp/build.sh >/tmp/b.txt 2>&1; bash /opt/vp/test.sh /tmp/o.json 2>&1 | tail -1; python3 /tmp/cmp.py | cut -c1-200; " + ("/tmp/pm/sync.sh /repo >/dev/null 2>&1; grep 'test result' /tmp/pm/out.txt | head -2; grep -E '^error|FAILED$' /tmp/pm/out.txt | head" if crate != "models" else ""), capture_output=True, text=True).stdout.strip())
            p = sh(f"cd {ROOT} && python3 run.py {d['prop']} 2>&1", capture_output=True, text=True)
            print("check exit", p.returncode, "CAUGHT" if p.returncode == 1 else "MISSED"); print("\n".join(l[:300] for l in p.stdout.splitlines() if "KNOWN" not in l)[:1500])
        finally:
            sh("git -C /repo checkout -q -- .", check=True)
main(sys.argv[1])
