#!/usr/bin/env python3
"""Generates MANIFEST.json from checks.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {}
m = {"version": 1,
     "setup_cmd": "python3 run.py --selftest",
     "hooks": {"guard": "verif", "enable": "no hooks are compiled into /repo; harnesses are overlaid as extra packages (go test -c -overlay, -tags verif) and use the exported API, the network and the log output", "source_commits": []},
     "checks": [], "not_applicable": [], "notes": "See DESIGN.md. run.py <property> [quick|thorough] is the only entry point."}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 run.py %s quick" % p, "thorough_cmd": "python3 run.py %s thorough" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": c["tech"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check has been built for it yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks;", "not claimed:", [x["property"] for x in m["not_applicable"]])
