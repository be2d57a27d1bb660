#!/usr/bin/env python3
"""Builds the harness crate a property lives in against /repo's working tree and runs the property's check.

usage: python3 run.py <PROPERTY-ID> | --build [crate ...]
Exit 0: held, 1: VIOLATION printed, anything else: the check itself could not run."""
import os, sys, subprocess, json

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
CRATES = {"models": "pmcheck", "matching": "pxcheck", "verifier": "pvcheck", "ffi": "pfcheck"}

def crate_of(pid):
    for line in open(os.path.join(ROOT, "crates.map")):
        parts = line.split()
        if len(parts) == 2 and parts[0] == pid:
            return parts[1]
    raise SystemExit("unknown property %s" % pid)

def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="1.89.0", CARGO_NET_OFFLINE="true", TZ="UTC", RUST_BACKTRACE="0", RUSTFLAGS="-Awarnings")
    e.pop("RUST_LOG", None)
    return e

def build(crate):
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(ROOT, "target", crate)
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(ROOT, crate), env=e)
    if p.returncode != 0:
        print("ERROR: building %s failed" % crate)
        sys.exit(2)
    return os.path.join(ROOT, "target", crate, "debug", CRATES[crate])

def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--build":
        for c in sys.argv[2:] or [c for c in CRATES if os.path.exists(os.path.join(ROOT, c, "Cargo.toml"))]:
            build(c)
        return 0
    pid = sys.argv[1]
    exe = build(crate_of(pid))
    try:
        limit = None if os.environ.get("VERIF_TIER") == "thorough" else 700
        p = subprocess.run([exe, pid], cwd=ROOT, env=env(), timeout=limit)
    except subprocess.TimeoutExpired:
        print("ERROR: %s timed out" % pid)
        return 2
    if p.returncode in (0, 1):
        return p.returncode
    print("ERROR: %s ended with %s" % (pid, p.returncode))
    return 2

sys.exit(main())
