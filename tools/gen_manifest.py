"""Regenerate MANIFEST.json from harness/table.py and properties.jsonl."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
from table import PROPS  # noqa: E402

checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in PROPS:
        s = PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 harness/check.py {i} quick",
            "thorough_cmd": f"python3 harness/check.py {i} thorough",
            "technique": f"TLA+ specification ({s['module']}) checked with TLC; trace validation of the real library"
            + ("; behaviours generated by TLC are replayed into it" if s.get("gen") else "")
            + ("; exhaustive design model" if s.get("design") else ""),
            "level": "model_checking",
            "level_note": s.get("note") or "Holds on every recorded execution of the current tree (inputs enumerated or drawn from VERIF_SEED); "
            "trusts TLC, the numeric projection (2^-20 fixed point, tolerance 6e-5) and the harness that records the events.",
        })
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {
    "version": 1,
    "setup_cmd": "python3 harness/setup.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "TLA+ specifications in spec/, harness and drivers in harness/; known findings in known_findings.txt; no hooks in /repo.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
