#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py.
A property is claimed when checks/<id>.py exists."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import props
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        d = {k: p[k] for k in ("id", "title", "statement")}
        d["quantifier"] = {"over": p["over"], "text": p["quant"]}
        d["why_tests_cant"] = p["why"]
        d["anchors"] = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": False}
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in props.PROPS:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        checks.append({"property": i, "quick_cmd": "python3 checks/%s.py quick" % i,
                       "thorough_cmd": "python3 checks/%s.py thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": p["tech"], "level": "exploration", "level_note": p["note"]})
    else:
        na.append({"property": i, "reason": p.get("na", "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 lib/build.py " + props.VARIANTS, "checks": checks,
           "not_applicable": na, "notes": props.NOTES}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
