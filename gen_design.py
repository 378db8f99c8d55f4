#!/usr/bin/env python3
"""DESIGN.md from DESIGN.in.md, the registry, the findings and the seeds."""
import glob, json, os, textwrap
H = os.path.dirname(os.path.abspath(__file__))
ns = {}
exec(open(H + "/checks/registry.py").read(), ns)
props = [json.loads(l) for l in open(H + "/properties.jsonl") if l.strip()]
fill = lambda t, i="": textwrap.fill(t, 88, initial_indent=i, subsequent_indent=" " * len(i), break_on_hyphens=False)
out = []
for p in props:
    c = ns["CHECKS"].get(p["id"])
    if not c:
        continue
    out.append(fill("**%s** (%s): %s." % (p["id"], p.get("title", ""), c["what"])))
    for a in c["assumptions"]:
        out.append(fill(a, "  - assumed: "))
    us = ", ".join("%s (%s build)" % (u["name"], u["variant"]) for u in c["units"])
    out.append("  - binaries: " + us + "\n")
fixes = []
for l in open(H + "/known-findings.txt"):
    if l.startswith("fixed:"):
        _, pr, co, t = l.strip().split(" ", 3)
        fixes.append(fill("%s %s: %s" % (pr.split("=")[1], co, t), "* "))
seeds = ["| seed | property | needs |", "|---|---|---|"]
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], " ".join(m["needs"].split())))
cost = open(H + "/COST.txt").read() if os.path.exists(H + "/COST.txt") else ""
s = open(H + "/DESIGN.in.md").read()
for k, v in (("CHECKS", "\n".join(out)), ("FIXES", "\n".join(fixes)), ("SEEDS", "\n".join(seeds)),
             ("COST", cost), ("NMUT", "170")):
    s = s.replace("@@%s@@" % k, v)
open(H + "/DESIGN.md", "w").write(s)
