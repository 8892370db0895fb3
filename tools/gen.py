#!/usr/bin/env python3
# Generates properties.jsonl and MANIFEST.json from props.py.
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here); sys.dont_write_bytecode = True
from props import P
P.sort(key=lambda p: p["id"])
assert len({p["id"] for p in P}) == len(P)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": " ".join(p["na"].split())})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "bash check.sh " + p["id"], "thorough_cmd": "bash check.sh " + p["id"],
            "technique": "static analysis: " + " ".join(p["technique"].split()), "level": p["level"], "level_note": " ".join(p["note"].split())})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
