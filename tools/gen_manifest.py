#!/usr/bin/env python3
"""writes MANIFEST.json from props_config.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props_config import PROPS
claimed = sorted(PROPS)
allp = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [dict(property=p, reason="check still being built") for p in allp if p not in PROPS]
m = dict(
    version=1,
    setup_cmd="python3 check.py --selftest",
    checks=[dict(property=p, quick_cmd=f"python3 check.py {p} quick", thorough_cmd=f"python3 check.py {p} thorough", evidence_file=f"evidence/{p}.json",
                 technique=PROPS[p]["technique"], level=PROPS[p]["level"],
                 level_note=PROPS[p].get("note") or ("Held on every execution the seeded workload produced in this run; no claim about executions not produced. Assumes: " + "; ".join(PROPS[p]["assumptions"]) + "."))
            for p in claimed],
    not_applicable=na,
    notes="No hooks in /repo: the library is header-only and every harness compiles its current headers (sources/*.hpp) with sanitizers. "
          "check.py --replay FILE re-runs the failing case of a replay file. Known findings and fixes: known_findings.json.",
)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(claimed), "claimed", len(na), "not claimed")
