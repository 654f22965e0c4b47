#!/usr/bin/env python3
"""Writes MANIFEST.json from vp/checks.py and properties.jsonl."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "vp"))
from checks import CHECKS, LEVELS

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
out = {"version": 1, "setup_cmd": "python3 vp/run.py setup", "checks": [],
       "not_applicable": [],
       "notes": "Monitors use the public API and the libc boundary (ld --wrap); "
                "no hooks in /repo.  See DESIGN.md."}
for p in props:
    i = p["id"]
    if i not in CHECKS:
        print("no check for", i)
        continue
    c = CHECKS[i]
    out["checks"].append({
        "property": i,
        "quick_cmd": "python3 vp/run.py check %s" % i,
        "thorough_cmd": "VERIF_TIER=thorough python3 vp/run.py check %s" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": c.get("technique", "runtime monitoring: real library under "
            "seeded workloads, online oracle, sanitizer builds"),
        "level": LEVELS.get(i, "exploration"),
        "level_note": c.get("note", c["rule"]) or "seeded exploration of executions, "
            "every execution judged by an online oracle",
    })
open(os.path.join(ROOT, "MANIFEST.json"), "w").write(json.dumps(out, indent=1) + "\n")
