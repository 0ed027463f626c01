#!/usr/bin/env python3
"""Writes MANIFEST.json from config.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from config import PROPS, TECH, NOTE, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 run.py {i} quick", thorough_cmd=f"python3 run.py {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=c.get("technique", TECH), level="model_checking",
                           level_note=c.get("note", NOTE) + " Bounds: " + c["bounds"] + "."))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check under construction")))
m = dict(version=1, setup_cmd="python3 tools/selftest.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the explorers drive the public templates of include/logic and src/util.cc directly. fix: commits repair genuine defects (known_findings.txt).")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
