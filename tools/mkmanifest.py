#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from props import PROPS, NOT_APPLICABLE  # noqa
checks = []
for k, c in sorted(PROPS.items()):
    checks.append({
        "property": k,
        "quick_cmd": "VERIF_TIER=quick python3 check.py %s" % k,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % k,
        "technique": c["technique"], "level": c["level"], "level_note": c["note"],
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": r} for k, r in NOT_APPLICABLE],
    "notes": "No hooks in /repo: every check assembles a crate from /repo's current source (see DESIGN.md). "
             "VERIF_SEED seeds every random choice.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
