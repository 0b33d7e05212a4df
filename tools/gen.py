"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import NA, PROPS, TECH

with open(f"{V}/properties.jsonl", "w") as f:
    for p in PROPS:
        q = {
            "id": p["id"],
            "title": p["title"],
            "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs", "histories"]), "text": p["q"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                "observe_at": p.get("observe", []),
            },
        }
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 engine/extract.py",
    "checks": [],
    "not_applicable": NA,
}
na = {n["property"] for n in NA}
for p in PROPS:
    if p["id"] in na:
        continue
    m["checks"].append(
        {
            "property": p["id"],
            "quick_cmd": f"python3 engine/check.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 engine/check.py {p['id']}",
            "technique": TECH,
            "level": "other",
            "level_note": p["note"],
        }
    )
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(PROPS), "properties,", len(m["checks"]), "checks,", len(NA), "not applicable")
