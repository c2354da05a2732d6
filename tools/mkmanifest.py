#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
NAMES = {"fast": "poisoning/counting allocator", "san": "ASan+UBSan", "san_noga": "ASan+UBSan", "tsan": "TSan", "memcheck": "valgrind memcheck", "vdebug": "checked standard library"}
checks, na = [], []
for i in ids:
    if i not in CHECKS:
        na.append(dict(property=i, reason="check not built yet"))
        continue
    c = CHECKS[i]
    checks.append(dict(property=i, quick_cmd="python3 run.py " + i, thorough_cmd="VERIF_TIER=thorough python3 run.py " + i,
                       evidence_file="evidence/%s.json" % i,
                       technique="runtime monitoring: " + c.get("technique", "online oracle over generated executions") + "; " + ", ".join(NAMES[f] for f in c["flavors"]),
                       level="exploration", level_note=c.get("note", "Decided on the executions of this run only; the oracle is an independent reference computation.")))
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo were needed: all monitors observe the public interface, the process and the allocator. VERIF_SEED selects the cases.")
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
