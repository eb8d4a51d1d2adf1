#!/usr/bin/env python3
"""Makes and validates the planted bugs of /verif/seeded from the table tools/bugs.py.

seed.py make ID...     writes /verif/seeded/ID (patch against /repo's HEAD, demo with the values of the unchanged tree)
seed.py check ID...    in a scratch copy: applies, builds, runs the stable tests, the demo and the property's check
seed.py run ID PROP... in a scratch copy: applies and runs the checks only
Nothing here is used by the checks."""
import json, os, shutil, subprocess, sys, tempfile, time
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "tools"))
from bugs import BUGS
SR, SV = "/tmp/sr", "/tmp/sv"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def scratch():
    if not os.path.isdir(SR):
        print(sh(f"cp -a /repo {SR}").stderr)
    sh(f"git -C {SR} fetch -q /repo HEAD && git -C {SR} reset -q --hard FETCH_HEAD")
    os.makedirs(SV + "/work", exist_ok=True)
    sh(f"rsync -a --delete {root}/harness/ {SV}/harness/ || (find {SV}/harness -delete; cp -a {root}/harness {SV}/)")
    sh(f"cp {root}/known_findings.jsonl {SV}/; sed -i 's#/repo#{SR}#g' {SV}/harness/Cargo.toml")


def edit(base, bug):
    for f, old, new in bug["edits"]:
        p = os.path.join(base, f)
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            raise SystemExit(f"{bug['id']}: {n} occurrences in {f}: {old!r}")
        open(p, "w").write(s.replace(old, new))


def make(bug):
    scratch()
    d = f"{root}/seeded/{bug['id']}"
    os.makedirs(d, exist_ok=True)
    # the values of the unchanged tree
    demo = os.path.join(root, "tools", "demo.sh")
    shutil.copy(demo, d + "/demo.sh")
    os.chmod(d + "/demo.sh", 0o755)
    main = bug.get("main")
    if main:
        shutil.copy(os.path.join(root, "tools", "bugs.d", main), d + "/main.rs")
    else:
        shutil.copy(os.path.join(root, "tools", "demo_main.rs"), d + "/main.rs")
    cases = [dict(c) for c in bug.get("cases", [])]
    out = d + "/cases.json"
    for c in cases:
        c["expected"] = c.get("expected")
    json.dump(cases, open(out, "w"), indent=1)
    if not main:
        r = sh(f"PRINT=1 bash {d}/demo.sh", cwd=SR)
        got = [json.loads(l[4:]) for l in r.stdout.splitlines() if l.startswith("got ")]
        if len(got) != len(cases):
            raise SystemExit(r.stdout + r.stderr)
        for c, g in zip(cases, got):
            c["expected"] = g
        json.dump(cases, open(out, "w"), indent=1)
        print(json.dumps(got)[:1500])
    edit(SR, bug)
    diff = sh(f"git -C {SR} diff").stdout
    open(d + "/patch.diff", "w").write(diff)
    json.dump({k: bug[k] for k in ("property", "needs", "what_it_breaks")}, open(d + "/meta.json", "w"), indent=1)
    # changed lines must be of the original repository
    for f, old, _ in bug["edits"]:
        s = sh(f"git -C {SR} show HEAD:{f}").stdout
        a = s[: s.index(old)].count("\n") + 1
        b = a + old.count("\n")
        bl = sh(f"git -C {SR} blame -s -L {a},{b} HEAD -- {f}").stdout
        for l in bl.splitlines():
            if not l.startswith("^") and not l.startswith("bf52979"):
                print("NOT ORIGINAL (context?):", l)
    sh(f"git -C {SR} checkout -q -- .")


def run(bug, props):
    env = dict(os.environ, CARGO_TARGET_DIR=SV + "/target", CARGO_NET_OFFLINE="true", VERIF_SEED="1", VERIF_TIER="quick")
    r = sh(f". /opt/vp/env.sh; export CARGO_TARGET_DIR={SV}/target; cd {SV}/harness && cargo build --offline 2>&1 | tail -30", env=env)
    res = []
    for p in props:
        t = time.time()
        c = sh(f"{SV}/target/debug/harness run {p} {SV}", env=env)
        viol = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        res.append((p, c.returncode, len(viol), round(time.time() - t)))
        if c.returncode not in (0, 1):
            print(r.stdout[-1500:], c.stdout[-800:], c.stderr[-800:])
    return res


def check(bug):
    scratch()
    d = f"{root}/seeded/{bug['id']}"
    a = sh(f"git -C {SR} apply {d}/patch.diff")
    if a.returncode:
        return print(bug["id"], "DOES NOT APPLY", a.stderr)
    ok = True
    t = sh(f". /opt/vp/env.sh; export CARGO_TARGET_DIR={SR}/target; cd {SR}; mkdir -p /tmp/sl; rm -f /tmp/sl/*.log; cargo test $TARGETS --no-fail-fast --offline -- --test-threads 8 > /tmp/sl/tests.log 2>&1; cargo test --workspace --all-features --doc --no-fail-fast --offline -- --test-threads 8 > /tmp/sl/doc.log 2>&1; python3 /opt/vp/results.py /tmp/sl/o.json 'cargo:/tmp/sl/*.log'")
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    passed = set(json.load(open("/tmp/sl/o.json"))["passed"])
    miss = stable - passed
    demo = sh(f"bash {d}/demo.sh", cwd=SR)
    res = run(bug, [bug["property"]] + bug.get("also", []))
    sh(f"git -C {SR} checkout -q -- .")
    demo0 = sh(f"bash {d}/demo.sh", cwd=SR)
    good = not miss and demo.returncode not in (0, 2) and demo0.returncode == 0
    print(bug["id"], "VALID" if good else "INVALID", "caught" if res[0][1] == 1 else "MISSED", res, "missing tests:" if miss else "", sorted(miss)[:3], "demo", demo.returncode, demo0.returncode, flush=True)
    if not good:
        print(open("/tmp/sl/tests.log").read()[-1500:] if miss else demo.stdout[-1500:] + demo.stderr[-500:])


if __name__ == "__main__":
    ids = sys.argv[2:]
    cmd = sys.argv[1]
    if cmd == "run":
        b = [b for b in BUGS if b["id"] == ids[0]][0]
        scratch()
        edit(SR, b)
        print(b["id"], run(b, ids[1:] or [b["property"]]), flush=True)
        sh(f"git -C {SR} checkout -q -- .")
        sys.exit()
    for b in BUGS:
        if ids != ["all"] and not any(b["id"] == i or (i.endswith("*") and b["id"].startswith(i[:-1])) for i in ids):
            continue
        if cmd in ("make", "both"):
            make(b)
        if cmd in ("check", "both"):
            check(b)
