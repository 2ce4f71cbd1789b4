#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property texts below and props.py (which checks exist)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
from proptext import TEXT
B = "src/buzz/"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid in sorted(TEXT):
        t = TEXT[pid]
        if pid not in PROPS: continue
        f.write(json.dumps({
            "id": pid, "title": t["title"], "statement": t["statement"],
            "quantifier": {"over": t["over"], "text": t["text"]},
            "why_tests_cant": t["why"],
            "anchors": {"files": [x if "/" in x else B + x for x in t["files"]],
                        "mechanism": [{"name": n, "where": w} for n, w in t["mech"]]}}) + "\n")
checks = []
for pid in sorted(PROPS):
    t = TEXT[pid]
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s --tier quick" % pid,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid,
                   "technique": t["tech"], "level": "exploration", "level_note": t["note"]})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
           "notes": "No hooks: the harnesses link the unmodified sources of the working tree. Every check is check.py <id>; a failing case is replayed with check.py <id> --replay FILE."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
