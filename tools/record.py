#!/usr/bin/env python3
"""record.py PROPERTY COMMIT TEXT : append a "fixed:" line to known_findings.json."""
import json, os, sys
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(F))
line = f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}"
if not any(sys.argv[2] in x for x in d["fixed"]):
    d["fixed"].append(line)
json.dump(d, open(F, "w"), indent=1)
open(F, "a").write("\n")
