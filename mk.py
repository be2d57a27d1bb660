#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and crates.map from props/*.py (one dict per property)."""
import glob, json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
PROPS = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, crate="models", state=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
                      observe=observe, technique=technique, note=note, crate=crate, state=state or [], na=na))
for f in sorted(glob.glob(os.path.join(ROOT, "props", "*.py"))):
    exec(compile(open(f).read(), f, "exec"), {"prop": prop})
PROPS.sort(key=lambda p: p["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as out:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        out.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                        "mechanism": [dict(name=a, where=b) for a, b in p["mechanism"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
claimed = [p for p in PROPS if not p["na"]]
with open(os.path.join(ROOT, "crates.map"), "w") as out:
    for p in claimed: out.write("%s %s\n" % (p["id"], p["crate"]))
json.dump({
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [dict(property=p["id"], quick_cmd="python3 run.py %s" % p["id"],
                    thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % p["id"],
                    evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="exploration", level_note=p["note"]) for p in claimed],
    "not_applicable": [dict(property=p["id"], reason=p["na"]) for p in PROPS if p["na"]],
    "notes": "Property-based testing with proptest; each check generates its cases deterministically from VERIF_SEED, shrinks failures and writes a replay file under replays/. Findings: known_findings.txt.",
}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(claimed), "claimed,", len(PROPS) - len(claimed), "not applicable")
