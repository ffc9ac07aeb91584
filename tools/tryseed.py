#!/usr/bin/env python3
"""Tries planted bugs: tryseed.py [--nocheck] [--check C01,C02] ID...   Applies seeded/ID/patch.diff to /repo, builds, runs the
stable tests and the demo, runs the check of its property, and undoes it."""
import json, os, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def run(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return set(b["stable"] if isinstance(b, dict) and "stable" in b else b.get("passed", b))
def tests():
    with tempfile.TemporaryDirectory() as t:
        run("bash", "/opt/vp/test.sh", t + "/o.json")
        return set(json.load(open(t + "/o.json"))["passed"])
args = sys.argv[1:]; nocheck = "--nocheck" in args; args = [a for a in args if a != "--nocheck"]
only = None
if args and args[0] == "--check": only = args[1].split(","); args = args[2:]
assert not run("git", "-C", "/repo", "status", "--porcelain").stdout.strip(), "/repo is not clean"
bad = 0
for i in args or sorted(os.listdir(V + "/seeded")):
    d = f"{V}/seeded/{i}"; meta = json.load(open(d + "/meta.json")); res = []
    if not nocheck or True:
        run("bash", "/opt/vp/build.sh"); r = run("bash", d + "/demo.sh", cwd="/repo"); res.append(("demo clean", r.returncode == 0, r.stderr[-300:]))
    a = run("git", "-C", "/repo", "apply", d + "/patch.diff")
    try:
        if a.returncode: print(i, "does not apply", a.stderr); bad += 1; continue
        if not only:
            missing = stable() - tests(); res.append(("tests", not missing, str(sorted(missing)[:3])))
            r = run("bash", d + "/demo.sh", cwd="/repo"); res.append(("demo patched", r.returncode != 0, ""))
        if not nocheck:
            for p in only or [meta["property"]]:
                t = time.time(); r = run("python3", "run.py", p, "quick", cwd=V, env={**os.environ, "VERIF_SEED": "1"})
                ok = r.returncode == 1 and f"VIOLATION property={p} " in r.stdout
                res.append((f"{p} catches ({time.time()-t:.0f} s, exit {r.returncode})", ok, r.stdout[-200:] + r.stderr[-400:] if not ok or only else ""))
    finally:
        run("git", "-C", "/repo", "checkout", "--", ".")
    for what, ok, more in res: print(i, "ok " if ok else "BAD", what, "" if ok else more); bad += not ok
    sys.stdout.flush()
sys.exit(bad > 0)
