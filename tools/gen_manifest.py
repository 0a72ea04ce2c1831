#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in ids:
    if p in PROPS:
        c = PROPS[p]
        checks.append({
            "property": p,
            "quick_cmd": "python3 check.py %s" % p,
            "thorough_cmd": "python3 check.py %s --thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": c["technique"],
            "level": c.get("level", "exploration"),
            "level_note": c["note"],
        })
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "not built yet")} for p in ids if p not in PROPS]
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check is check.py <property>: it rebuilds the harness crate in harness/ against /repo's working tree (no hooks in /repo are needed) and runs the suites listed for the property in props.py. DESIGN.md describes them; known_findings.txt lists the defects found and repaired.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
