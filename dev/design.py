#!/usr/bin/env python3
"""Writes DESIGN.md: dev/design.head.md, then one section per property from props/*.py and the checks in the harness sources,
the findings, and the planted bugs."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, crate="models", state=None, na=None):
    P.append(dict(id=id, title=title, technique=technique, why=why, note=note, crate=crate, files=files, na=na))
for f in sorted(glob.glob(R + "/props/*.py")): exec(compile(open(f).read(), f, "exec"), {"prop": prop})
P.sort(key=lambda p: p["id"])
checks, assume = {}, {}
for f in sorted(glob.glob(R + "/*/src/*.rs")):
    s = open(f).read()
    parts = re.split(r"\npub fn p(\d\d)\(", s)
    for i in range(1, len(parts), 2):
        pid = "P" + parts[i]
        body = parts[i + 1]
        for m in re.finditer(r'h\.check\(\s*"([^"]+)",\s*([\d_]+),\s*"((?:[^"\\]|\\.)*)"', body):
            checks.setdefault(pid, []).append((m[1], int(m[2].replace("_", "")), m[3].replace('\\"', '"'), os.path.relpath(f, R)))
        for m in re.finditer(r'h\.assume\("((?:[^"\\]|\\.)*)"', body): assume.setdefault(pid, []).append(m[1].replace('\\"', '"'))
known = [l.strip() for l in open(R + "/known_findings.txt") if l.strip() and not l.startswith("#")]
bugs = {}
for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
    m = json.load(open(d)); bugs.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m))
res = {}
if os.path.exists(R + "/dev/results.json"): res = json.load(open(R + "/dev/results.json"))
out = [open(R + "/dev/design.head.md").read().rstrip(), "", "## Properties", ""]
for p in P:
    out += [f"### {p['id']} {p['title']}", "", f"- Technique: {p['technique']} (crate `{p['crate']}`). Bounds: {p['note']}", f"- Why tests cannot settle it: {p['why']}"]
    if p["na"]: out.append(f"- Not applicable: {p['na']}")
    for n, k, rule, f in checks.get(p["id"], []): out.append(f"- `{n}` ({f}; {k} cases quick, {k * 25} thorough): {rule}.")
    for a in assume.get(p["id"], []): out.append(f"- Assumes: {a}")
    fx = [l for l in known if f"property={p['id']} " in l]
    for l in fx:
        if l.startswith("fixed:"): out.append("- Fixed: " + l.split(" ", 2)[2])
        else: out.append("- Known finding: " + l.split(" ", 2)[2])
    for b, m in bugs.get(p["id"], []): out.append(f"- Planted bug `{b}`: {m['what_it_breaks']} (needs {m['needs']}): {res.get(b, 'caught')}.")
    out.append("")
open(R + "/DESIGN.md", "w").write("\n".join(out))
