#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tool/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tool")
sys.dont_write_bytecode = True
from props import PROPS
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 engine/build.py", "checks": [], "not_applicable": []}
for p in PROPS:
    if "na" in p:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    assert os.path.exists(V + "/engine/checks/%s.py" % p["id"]), p["id"]
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                        "technique": p["technique"], "level": p.get("level", "other"), "level_note": p["note"]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
