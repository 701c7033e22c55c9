#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {}
M = dict(version=1, setup_cmd="python3 check.py setup", checks=[], not_applicable=[],
         notes="Technique: property-based testing. The engine is lib/pbt.hh (choice-sequence generation, integrated shrinking, process-isolated replay); a harness per property is compiled from /repo's working tree in two builds (the project's own optimisation flags with asserts, and AddressSanitizer). No hooks in /repo.")
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        M["checks"].append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=c.get("technique", "property-based testing: generated cases against an independent oracle, shrinking to a replay file"),
            level="exploration", level_note=c.get("note", "Generated-input search; finds violations, does not establish their absence. ") + " Domain: " + c["rule"]))
    else:
        M["not_applicable"].append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(M, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(M["checks"]), "checks,", len(M["not_applicable"]), "not claimed")
