#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks that exist (checks/<id>.py) and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = {}
exec(open(V + "/tools/levels.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/checks/%s.py" % (V, i.lower())):
        tech, note = NOTE[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "TLA+ specification (TLC) + " + tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "HELFEM_VERIF_HOOKS", "enable": "no hooks are needed: the checks observe the public interfaces only; the guard is reserved and never defined", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Specifications in spec/, conformance drivers in harness/, one python module per property in checks/. known_findings.json lists repaired and recorded defects."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
