#!/usr/bin/env python3
"""Composes DESIGN.md from design_head.md, the rule registry, notes.py, seeded/*/meta.json and known_findings.txt."""
import glob, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, "tools"))
from oslan.rules.registry import RULES
from notes import TECH, NOTES, NA
seeds = {}
for f in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json"))):
    m = json.load(open(f)); seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
kf = [l.strip() for l in open(os.path.join(HERE, "known_findings.txt")) if l.strip() and l[0] != "#"]
out = []
na = []
for l in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    if i not in RULES:
        na.append(f"* **{i} {p['title']}**: {NA.get(i, 'no check built')}"); continue
    r = RULES[i]
    out.append(f"### {i} {p['title']}\n")
    out.append(f"*Technique*: {TECH[i]}.\n")
    out.append(" ".join(r["explain"].split()) + "\n")
    out.append("Rules: " + ", ".join(f"`{x}`" for x in r["rules"]) + ".\n")
    for n in NOTES.get(i, []):
        out.append("* " + " ".join(n.split()))
    for x in kf:
        if f"property={i} " in x:
            kind, rest = x.split(":", 1)
            out.append(f"* {'Defect repaired' if kind == 'fixed' else 'Known finding'}: " + rest.split(" ", 2)[2])
    for s, m in seeds.get(i, []):
        out.append(f"* Planted bug `{s}` (caught by this check): {m['what_it_breaks']}")
    out.append("")
out.append("## Not applicable\n"); out += na
head = open(os.path.join(HERE, "tools/design_head.md")).read()
open(os.path.join(HERE, "DESIGN.md"), "w").write(head.replace("@@PROPS@@", "\n".join(out)) + "\n")
print("DESIGN.md:", len(out), "lines;", sum(map(len, seeds.values())), "planted bugs")
