#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os
from checks import CHECKS
H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py check %s --tier quick" % i, thorough_cmd="python3 run.py check %s --tier thorough" % i,
                           technique=c.get("technique", "runtime monitoring: reference-model oracle over generated histories of the real code under ASan/UBSan"),
                           level="exploration", level_note=c.get("note", "Holds on every execution observed; reach is the workload described in the evidence (bounded domains, bounded history lengths).")))
    else:
        na.append(dict(property=i, reason=c_reason if (c_reason := {}.get(i)) else "no check built yet"))
json.dump(dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
