#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from props_src.py and the existing property modules."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props_src import P

PY = "/opt/venv/bin/python"
checks, na = [], []
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        files = q["files"]
        for x in files:
            assert os.path.exists(os.path.join("/repo", x)), x
        rec = {"id": q["id"], "title": q["title"], "statement": q["statement"],
               "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
               "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in q["mech"]],
                           "hook_needed": None}}
        if q["observe"]:
            rec["anchors"]["observe_at"] = q["observe"]
        f.write(json.dumps(rec) + "\n")
        have = os.path.exists(os.path.join(ROOT, "pbt", "props", q["id"].lower() + ".py"))
        if have and not q["na"]:
            checks.append({"property": q["id"], "quick_cmd": f"{PY} check.py {q['id']} --tier quick",
                           "thorough_cmd": f"{PY} check.py {q['id']} --tier thorough",
                           "evidence_file": f"evidence/{q['id']}.json",
                           "technique": q["technique"] or "property-based testing (Hypothesis)",
                           "level": "exploration", "level_note": q["note"]})
        else:
            na.append({"property": q["id"], "reason": q["na"] or "check not built yet"})
man = {"version": 1, "setup_cmd": f"{PY} tools/setup.py", "checks": checks, "not_applicable": na,
       "notes": "All checks are seeded Hypothesis searches run by check.py against /repo's working tree; no hooks in /repo."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
