#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and config.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from config import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        na.append(dict(property=p["id"], reason="Its check is not built yet."))
        continue
    checks.append(dict(
        property=p["id"], quick_cmd=f"python3 tools/check.py {p['id']} --tier quick",
        thorough_cmd=f"python3 tools/check.py {p['id']} --tier thorough",
        technique=c["technique"] + ("" if c.get("codegen") else "; then coverage-guided variants of the cases that ran something new"), level="exploration",
        level_note=c.get("note", "Generated-input search against an explicit oracle: it shows violations, not their absence. "
                         "Bounds and restrictions of the domain are in DESIGN.md. ")
        + " Trusted: " + " ".join(c["assumptions"])))
json.dump(dict(version=1, setup_cmd="python3 tools/check.py --setup", checks=checks, not_applicable=na,
               notes="See DESIGN.md. No hooks in /repo are needed: everything is driven through its public interface."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
