#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import specs
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in specs.SPECS:
        s = specs.SPECS[i]
        fl = sorted(set(j["flavor"] for j in s["jobs"]))
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick python3 check.py " + i,
                           thorough_cmd="VERIF_TIER=thorough python3 check.py " + i, evidence_file="evidence/%s.json" % i,
                           technique=s.get("technique", "runtime monitoring: reference-model oracle over generated executions of the real code under "
                                           + " and ".join({"asan": "AddressSanitizer+UBSan", "tsan": "ThreadSanitizer", "plain": "an optimised build"}[x] for x in fl)),
                           level=s.get("level", "exploration"),
                           level_note=s.get("note", "Held on the executions counted in the evidence file; says nothing about paths the workload did not drive. "
                                            "Trusts the harness' reference model, the compiler's sanitizers and the kernel.")))
    else:
        na.append(dict(property=i, reason=specs.NOT_APPLICABLE.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="One driver (check.py) builds the harnesses named in specs.py together with /repo's current sources; see DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
