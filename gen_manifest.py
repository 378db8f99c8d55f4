#!/usr/bin/env python3
import json, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ".")
from checks.registry import CHECKS
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [],
     "not_applicable": []}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({
            "property": p, "quick_cmd": "python3 run.py %s" % p,
            "thorough_cmd": "python3 run.py %s --thorough" % p,
            "technique": c.get("technique", "stateless deviation-bounded model checking of the real code"),
            "level": "model_checking", "level_note": c.get("note", c["what"])})
    else:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
