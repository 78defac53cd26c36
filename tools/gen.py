#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the property table below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import PROPS
TECH = "contract-based deductive verification of the real headers (LLVM IR of the shipped templates, obligations to z3/cvc5)"
P = []
def prop(id, title, statement, over, text, why, files, mech, note, tech=None, level="proof", state=None, observe=None, na=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), note, tech, level, na))
exec(open(os.path.join(V, "tools", "props.py")).read())
P.sort(key=lambda p: p[0]["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, *_ in P: assert len(p["title"]) <= 80, p["title"]; f.write(json.dumps(p) + "\n")
checks, na = [], []
for p, note, tech, level, why in P:
    i = p["id"]
    if why or i not in PROPS: na.append(dict(property=i, reason=why or "no check built yet")); continue
    checks.append(dict(property=i, quick_cmd=f"python3-vt check.py {i} quick", thorough_cmd=f"python3-vt check.py {i} thorough", technique=tech or TECH, level=level, level_note=note))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na, notes="No hooks are needed in /repo: harnesses include the shipped headers unchanged (private members are reached with -fno-access-control). See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [n["property"] for n in na], "not claimed")
