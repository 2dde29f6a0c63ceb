#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: fixed text below + per-property sections from properties.jsonl and mon/props/*.py + seeded changes."""
import ast, glob, json, os
here = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
P = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
HEAD = open(f"{here}/tools/design_head.md").read()
TAIL = open(f"{here}/tools/design_tail.md").read()
HOW = json.load(open(f"{here}/tools/design_how.json"))


def consts(path):
    c = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                c[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return c


out = [HEAD]
for p in P:
    path = f"{here}/mon/props/{p['id'].lower()}.py"
    out.append(f"### {p['id']} {p['title']}\n\n*Claim.* {p['statement']}\n")
    if not os.path.exists(path):
        continue
    c = consts(path)
    out.append(f"*Workload (what is run).* {c.get('RULE', '')}.\n")
    if c.get("NOTE"):
        out.append(f"*Oracle.* {c['NOTE']}\n")
    if c.get("TECHNIQUE"):
        out.append(f"*Deciding method.* {c['TECHNIQUE']}.\n")
    a = c.get("ASSUMPTIONS", [])
    for x in [a] if isinstance(a, str) else a:
        out.append(f"*Assumption.* {x}\n")
    if HOW.get(p["id"]):
        out.append(f"*Reach and limits.* {HOW[p['id']]}\n")
out.append("## Planted changes\n\nEach lies in `/verif/seeded/<name>/`; every one keeps the stable tests green. \"Caught by\" is the quick tier of the property's own check.\n\n| change | property | needs | caught |\n|---|---|---|---|")
for m in sorted(glob.glob(f"{here}/seeded/*/meta.json")):
    d = json.load(open(m))
    out.append(f"| {os.path.basename(os.path.dirname(m))} | {d['property']} | {d['needs']} | {d.get('caught', 'yes')} |")
out.append("\n" + TAIL)
open(f"{here}/DESIGN.md", "w").write("\n".join(out))
