#!/usr/bin/env python3
"""Writes known_findings.jsonl from the table below (a case per line, replayed by the checks)."""
import json, os, subprocess, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
COMMITS = [l.split(" ", 1) for l in log.splitlines()]
L = []


def dumps(l):
    """The text of the case is kept: lexical forms, duplicate keys."""
    return json.dumps({k: v for k, v in l.items() if k != "case"}, ensure_ascii=False)[:-1] + f', "case": {l["case"].strip()}}}'


def fixed(prop, subject, what, *cases):
    """`subject`: how the subject of the repairing commit starts, after `fix: `."""
    m = [(c, s) for c, s in COMMITS if s.startswith("fix: " + subject)]
    h = [c for c, s in m if s == "fix: " + subject] or [c for c, s in m]
    if not h:
        # a single commit in the history: keep the hash written before
        h = [OLD.get((prop, what), "?")]
    assert len(h) == 1, subject
    for c in cases:
        L.append({"property": prop, "kind": "fixed", "commit": h[0], "case": c,
                  "what": f"fixed: property={prop} {h[0]} {what}"})

def finding(prop, sig, what, case):
    L.append({"property": prop, "kind": "finding", "sig": sig, "case": case, "what": what})

path = os.path.join(root, "known_findings.jsonl")
OLD = {}
exec(open(os.path.join(root, "tools", "known_table.py")).read())
with open(path, "w") as f:
    for l in L:
        f.write(dumps(l) + "\n")

if len(sys.argv) > 1:  # known.py HARNESS...: run the cases
    for l in L:
        f = "/tmp/known-case.json"
        open(f, "w").write(l["case"])
        r = []
        for h in sys.argv[1:]:
            o = subprocess.run([h, "one", l["property"], f], capture_output=True, text=True)
            r.append("holds" if o.returncode == 0 else o.stdout.split("\n")[0] or str(o.returncode))
        print(l["property"], l["kind"], "|", " | ".join(r), "|", l["what"][:70])
