"""Regenerate MANIFEST.json from properties.jsonl and the property modules present."""

import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import core  # noqa: E402

NOTE = (
    "Generated-input search: exit 0 means no violation among the generated cases, not a proof. "
    "Trusts numpy/scipy and the oracle written in props/{}.py."
)
TECH = "property-based testing (Hypothesis)"
checks, missing = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if not os.path.exists(os.path.join(ROOT, "props", pid.lower() + ".py")):
        missing.append({"property": pid, "reason": "no check built yet"})
        continue
    prop = core.load(pid)
    checks.append(
        {
            "property": pid,
            "quick_cmd": f"./check.sh {pid} quick",
            "thorough_cmd": f"./check.sh {pid} thorough",
            "technique": f"{TECH}: {prop.technique}",
            "level": "exploration",
            "level_note": NOTE.format(pid.lower()) + (" " + "; ".join(prop.assumptions) if prop.assumptions else ""),
        }
    )
manifest = {
    "version": 1,
    "setup_cmd": "./check.sh --selftest",
    "checks": checks,
    "not_applicable": missing,
    "notes": "See DESIGN.md. Checks import /repo/src directly (editable tree), nothing to build.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(missing), "not applicable")
