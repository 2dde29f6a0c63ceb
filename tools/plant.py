#!/usr/bin/env python3
"""Development tool: make and test a planted bug in a scratch copy of /repo.

usage: plant.py SPEC.py [--notests]   SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python text)
Writes /verif/seeded/<ID>/{patch.diff,demo.sh,demo.py,meta.json}, then reports: demo clean/patched, stable tests, checks.
"""
import json, os, runpy, shutil, subprocess, sys
spec = runpy.run_path(sys.argv[1])
ID, PROP = spec["ID"], spec["PROP"]
CHECKS = spec.get("CHECKS", [PROP])
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
wt = f"/tmp/plant-{ID}"
shutil.rmtree(wt, ignore_errors=True)
shutil.copytree("/repo", wt, symlinks=True)
out = f"/verif/seeded/{ID}"
try:
    for f, old, new in spec["EDITS"]:
        p = os.path.join(wt, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", wt, "diff", "-U3"], capture_output=True, text=True).stdout
    # every removed line must come from the original repository
    for f in {e[0] for e in spec["EDITS"]}:
        base = subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:{f}"], capture_output=True, text=True).stdout.split("\n")
        d = subprocess.run(["git", "-C", wt, "diff", "-U0", "--", f], capture_output=True, text=True).stdout.split("\n")
        gone = [l[1:] for l in d if l.startswith("-") and not l.startswith("---")]
        for l in gone:
            if l.strip() and l not in base:
                print("WARNING line not in the original repository:", l)
        if not gone:
            print("WARNING only additions in", f)
    os.makedirs(out, exist_ok=True)
    open(f"{out}/patch.diff", "w").write(diff)
    open(f"{out}/demo.py", "w").write(spec["DEMO"].lstrip())
    open(f"{out}/demo.sh", "w").write('#!/bin/bash\n# exit 0 when the behaviour is right, 1 when it is broken; run with cwd = the repository\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 DIFF_DIFF_BACKEND=python MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python "$here/demo.py"\n')
    json.dump({"property": PROP, "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(f"{out}/meta.json", "w"), indent=1)
    def demo(cwd):
        r = subprocess.run(["bash", f"{out}/demo.sh"], cwd=cwd, capture_output=True, text=True, timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-300:].strip()
    res = {"clean": demo("/repo"), "patched": demo(wt)}
    print(ID, "demo clean", res["clean"][0], "patched", res["patched"])
    if res["clean"][0]:
        print(res["clean"])
    if "--notests" not in sys.argv:
        t = open("/opt/vp/test.sh").read().replace("/repo", wt)
        open(f"{wt}/.t.sh", "w").write(t)
        subprocess.run(["bash", f"{wt}/.t.sh", f"{wt}/.out.json"], capture_output=True)
        names = lambda x: next((x[k] for k in ("stable", "passed", "pass", "tests") if isinstance(x, dict) and k in x), x)
        b, o = set(names(json.load(open("/opt/vp/BASELINE.json")))), names(json.load(open(f"{wt}/.out.json")))
        o = {k for k, v in o.items() if v in ("pass", "passed", True)} if isinstance(o, dict) else set(o)
        print(ID, "stable tests failing:", len(b - o), sorted(b - o)[:5])
    for c in CHECKS:
        r = subprocess.run(["bash", "/verif/run.sh", c], env={**os.environ, "VERIF_REPO": wt, "VERIF_SEED": "1", "VERIF_TIER": "quick"}, capture_output=True, text=True)
        print(ID, "check", c, "exit", r.returncode, r.stdout.strip().split("\n")[-1][:200])
finally:
    shutil.rmtree(wt, ignore_errors=True)
