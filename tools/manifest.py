#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and units.py."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from units import UNITS, NOT_APPLICABLE, TECHNIQUE  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in UNITS:
        san = sorted({u["san"] for u in UNITS[i]})
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": TECHNIQUE.get(i, "runtime monitoring: randomised concurrent workloads with injected delays, "
                                          "online oracle, " + " and ".join(
                                              {"asan": "ASan+UBSan", "tsan": "TSan", "plain": "plain"}[s] for s in san)),
            "level": "exploration",
            "level_note": "Holds on every execution that was generated and observed (counts in the evidence file); "
                          "trusts the harness oracle and clang's sanitizers. Not exhaustive over schedules or inputs.",
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "checks": checks, "not_applicable": na}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
