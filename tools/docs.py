#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py (only properties that have a check module)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
from properties import PROPS, NOT_CLAIMED

props, checks = [], []
for p in PROPS:
    pid = p["id"]
    if not os.path.exists(os.path.join(V, "vp/checks", pid.lower() + ".py")):
        continue
    mod = importlib.import_module("vp.checks." + pid.lower())
    props.append({"id": pid, "title": p["title"], "statement": p["statement"],
                  "quantifier": {"over": p["over"], "text": p["forall"]}, "why_tests_cant": p["why"],
                  "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                              "observe_at": p["observe"], "hook_needed": None}})
    assert len(p["title"]) <= 80, pid
    checks.append({"property": pid, "quick_cmd": "bin/check %s --tier quick" % pid, "thorough_cmd": "bin/check %s --tier thorough" % pid,
                   "evidence_file": "evidence/%s.json" % pid, "technique": p["technique"], "level": "exploration",
                   "level_note": p["note"]})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": NOT_CLAIMED,
           "notes": "No hooks: the checks drive the unmodified sources of /repo, compiled with the stand-ins in standins/ for the two "
                    "libraries that are not available offline (see DESIGN.md). Every check is a generated-input search with a replay file."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(props), "properties")
