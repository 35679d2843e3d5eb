#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, tools/props.py and the notes below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import props
from notes import NOTES

ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 check.py --build",
     "checks": [], "not_applicable": [],
     "notes": "All checks: TLA+ specifications in spec/, checked with TLC and bound to /repo by the "
              "Rust harness in harness/ (replay of generated behaviours, validation of recorded traces). "
              "No hooks in /repo are needed: the public API exposes the abstract state."}
for i in ids:
    if i in props.PROPS:
        t, n = NOTES[i]
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
                            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                            "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "its check is still being built"})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
