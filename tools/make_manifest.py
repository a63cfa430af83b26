#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c["technique"],
        "level": "exploration",
        "level_note": c["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "hooks": {"guard": "none: the monitors use the public interface, compiler instrumentation and link-time wrapping only", "enable": "nothing to enable; the checks compile /repo/include and /repo/examples as they are", "source_commits": []},
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": "no check yet"} for p in props if p["id"] not in CHECKS],
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
