#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
SAN = {"asan": "ASan+UBSan", "tsan": "TSan", "plain": "plain build"}
checks = []
for p in props:
    if p not in CHECKS:
        continue
    c = CHECKS[p]
    sans = " and ".join(SAN[v] for v in sorted({r[1] for r in c["runs"]}))
    checks.append(dict(property=p, quick_cmd="python3 run.py %s quick" % p, thorough_cmd="python3 run.py %s thorough" % p,
        evidence_file="evidence/%s.json" % p,
        technique="runtime monitoring (%s) with %s" % (c["monitor"], sans), level="exploration",
        level_note=c.get("note", "Sampled executions of the real code, judged online by the monitor; says nothing about executions not run. " + c["rule"])[:900]))
na = [dict(property=p, reason="check not built yet") for p in props if p not in CHECKS]
json.dump(dict(version=1, setup_cmd="python3 run.py selftest", checks=checks, not_applicable=na),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
