"""Writes MANIFEST.json from the list of checks."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.manifest_data import LEVEL, NA, TECH  # noqa: E402
from sa.checks import CHECKS  # noqa: E402

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for p in ids:
    if p in CHECKS:
        checks.append({"property": p, "quick_cmd": f"python3 run.py {p} --tier quick",
                       "thorough_cmd": f"python3 run.py {p} --tier thorough",
                       "technique": TECH[p], "level": "other", "level_note": LEVEL[p]})
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
