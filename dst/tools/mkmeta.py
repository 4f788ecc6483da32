#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from dst/meta.py (a property is claimed when its check module exists)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, V)
from dst.meta import PROPS, NA, LEVELNOTE

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(V, "dst", "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"python3 check.py run {i} --tier quick",
                       "thorough_cmd": f"python3 check.py run {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": p["technique"],
                       "level": "exploration", "level_note": p["note"] + " " + LEVELNOTE})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seam is the C library (dst/shim.c, preloaded). Replay: python3 check.py replay FILE."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(checks), "claimed,", len(na), "not applicable / not claimed")
