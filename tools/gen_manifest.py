#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the property modules present in mon/props."""
import ast, json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    path = os.path.join(here, "mon", "props", p["id"].lower() + ".py")
    if not os.path.exists(path):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    c = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("LEVEL", "TECHNIQUE", "NOTE", "ASSUMPTIONS"):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']}",
                   "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p['id']}",
                   "evidence_file": f"evidence/{p['id']}.json",
                   "technique": c.get("TECHNIQUE", "runtime monitoring: oracle monitors on recorded executions of randomised hostile workloads"),
                   "level": c.get("LEVEL", "exploration"),
                   "level_note": c.get("NOTE", "") + " Held on the executions observed; the monitors' reference computations (numpy/scipy) are trusted."})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks are compiled in; the monitors drive the public API and patch module attributes from the harness process", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
