#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA

root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
man = {
    "version": 1,
    "setup_cmd": "python3 -c \"import sys; assert sys.version_info >= (3, 10)\"",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 run.py {p['id']} quick",
        "thorough_cmd": f"python3 run.py {p['id']} thorough",
        "technique": p["technique"],
        "level": "other",
        "level_note": p["level_note"],
        "evidence_file": f"evidence/{p['id']}.json",
    } for p in PROPS],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "All checks are static: an abstract interpreter over the syntax tree of /repo/symfem (sa/), nothing of symfem is executed.",
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
