#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props_text.py (maintenance)."""
import json, os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from props_text import TEXT, NA
from props import PROPS
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for t in TEXT:
        f.write(json.dumps({"id": t["id"], "title": t["title"], "statement": t["statement"],
                            "quantifier": {"over": t["over"], "text": t["quant"]}, "why_tests_cant": t["why"],
                            "anchors": {"files": t["files"], "mechanism": [{"name": n, "where": w} for n, w in t["mech"]],
                                        "observe_at": t.get("observe", []), "hook_needed": None}}) + "\n")
        assert len(t["title"]) <= 80, t["title"]
checks, na = [], []
for t in TEXT:
    i = t["id"]
    if i in PROPS:
        P = PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": t.get("technique", "contracts on the extracted functions, discharged by Verus"),
                       "level": P["level"], "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": NA[i]})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
