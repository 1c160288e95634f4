#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check is claimed when drivers/cNN.py exists (and is not in NOT_APPLICABLE)."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOT_APPLICABLE = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    d = os.path.join(V, "drivers", p["id"].lower() + ".py")
    if p["id"] in NOT_APPLICABLE:
        na.append(dict(property=p["id"], reason=NOT_APPLICABLE[p["id"]]))
    elif os.path.exists(d):
        src = open(d).read()
        mc = re.search(r"^MC = (.*)$", src, re.M).group(1)
        tr = re.search(r"^TRACE = (.*)$", src, re.M).group(1)
        note = re.search(r'^LEVEL_NOTE = "(.*)"$', src, re.M)
        checks.append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
            technique="TLA+ specification: TLC exhaustive model + scenario generation, traces of the real code validated by TLC",
            level="model_checking",
            level_note=(note.group(1) if note else "Model exhaustively checked within small constants; the real code is bound to it by executing every model scenario plus seeded larger ones and validating each recorded event with TLC.") + f" Models: {mc}; trace specification: {tr}."))
    else:
        na.append(dict(property=p["id"], reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
   notes="TLA+/TLC. lib/vf.py runs model, driver and trace validation of one property; see DESIGN.md."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
