#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, quant, why, files, mech, technique, note, observe=None, state=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: anchors["observe_at"] = observe
    anchors["hook_needed"] = None
    P.append(({"id": id, "title": title, "statement": statement,
               "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": anchors},
              technique, note))

exec(open(os.path.join(root, "tools", "props.py")).read())

assert len({p[0]["id"] for p in P}) == len(P)
for p, _, _ in P:
    assert len(p["title"]) <= 80, p["id"]
    for f in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p, _, _ in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"bash check.sh {p['id']} quick",
        "thorough_cmd": f"bash check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": t, "level": "exploration", "level_note": n,
    } for p, t, n in P],
    "not_applicable": [],
    "notes": "No hooks: the harness uses the public API of the crates only. Known findings and repaired defects: known_findings.jsonl.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
