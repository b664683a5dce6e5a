#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/table.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from table import TABLE, NOT_APPLICABLE

NOTE = ("Sound for the stated clause over the reals for all states, inputs and parameters the harness leaves open (no sampling, no bound on values); "
        "trusts clang's lowering, the value-numbering engine and the reference specification in harness/; rounding, NaN, zero denominators and "
        "integer overflow are outside. An equality that does not follow is reported with the construct of /repo that produced the value.")
NOTE35 = "Decides by the compiler's own type checking of witness programs; covers the listed precisions and rotor counts, trusts clang."
TECH = "interprocedural gated value numbering (abstract interpretation of LLVM IR) against a reference specification"
TECH35 = "type-level witnesses: compile-accept / compile-reject programs and strong-symbol scan"
with open(V + "/properties.jsonl", "w") as f:
    for p in sorted(TABLE, key=lambda p: p["id"]) + NOT_APPLICABLE:
        a = {"files": p["files"], "mechanism": [{"name": n or "implementation", "where": w} for n, w in p["mech"]]}
        if p.get("observe"):
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks = []
for p in sorted(TABLE, key=lambda p: p["id"]):
    w = p["id"] == "C35"
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                   "technique": TECH35 if w else TECH, "level": "other" if w else "proof", "level_note": NOTE35 if w else NOTE})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
     "notes": "No hooks in /repo: the checks read the headers as they are."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
for p in TABLE:
    assert len(p["title"]) <= 80, p["id"]
print(len(TABLE), "properties")
