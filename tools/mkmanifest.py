#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import parts
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in parts.CLAIMED:
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + i,
                           technique=parts.CLAIMED[i][0], level="model_checking", level_note=parts.CLAIMED[i][1]))
    else:
        na.append(dict(property=i, reason=parts.NOT.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 tools/build.py tick sched vectors asan", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
