#!/usr/bin/env python3
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.join(here, "..")
sys.path.insert(0, root)
from checks import CHECKS
from notes import TECH, NOTE, NA
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append(dict(property=i, quick_cmd="python3 run.py " + i, thorough_cmd="python3 run.py " + i,
                           technique=TECH.get(i, "property-based testing"), level="exploration", level_note=NOTE.get(i, "")))
    else:
        na.append(dict(property=i, reason=NA.get(i, "its check is not built yet")))
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo are needed: checks compile /repo's sources as they are (fix: commits are listed in known_findings.txt).")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks", len(na), "not claimed")
