#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.spec import NOT_APPLICABLE, PROPS  # noqa: E402

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        q = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["all"]}, "why_tests_cant": p["tests"],
             "anchors": {"files": p["files"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in p.get("state", [])],
                         "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")

checks = []
for p in PROPS:
    if p["id"] in NOT_APPLICABLE:
        continue
    checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick", "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                   "technique": p.get("technique", "abstract interpretation of the source (trace-partitioned value-flow terms, random-interpretation equality)"),
                   "level": "other", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, '.'); from gsa import props; props.load()\"", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()]}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "checks")
