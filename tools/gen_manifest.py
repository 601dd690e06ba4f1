#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/legs.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from legs import CHECKS, NOT_APPLICABLE
m = {"version": 1, "setup_cmd": "./run_check --build",
     "checks": [{"property": c, "quick_cmd": "./run_check " + c,
                 "thorough_cmd": "VERIF_TIER=thorough ./run_check " + c,
                 "technique": s["technique"], "level": "exploration", "level_note": s["note"]}
                for c, s in sorted(CHECKS.items())],
     "not_applicable": NOT_APPLICABLE,
     "notes": "Runtime monitoring with independent oracles, and sanitizer builds. No hooks in /repo: everything is observed "
              "at the public interface. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
