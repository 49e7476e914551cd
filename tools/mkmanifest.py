#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the rule registry and the reasons below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from oslan.rules.registry import RULES
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
sys.path.insert(0, os.path.join(HERE, "tools"))
from notes import TECH, NOTES, NA
checks = []
for p in props:
    if p["id"] in RULES:
        checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p['id']}",
                           technique="static analysis: " + TECH[p["id"]],
                           level="other", level_note=" ".join((RULES[p["id"]]["explain"] + " " + " ".join(NOTES.get(p["id"], []))).split())))
na = [dict(property=p["id"], reason=NA.get(p["id"], "no check built yet")) for p in props if p["id"] not in RULES]
json.dump(dict(version=1, setup_cmd="python3 -c 'import sys; sys.path.insert(0, \".\"); from oslan import ir; ir.build()'", checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
