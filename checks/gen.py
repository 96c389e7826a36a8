#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from plist.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
root = os.path.join(here, "..")
LEVEL_NOTE = ("Bounded: symbolic execution of the LLVM bitcode of /repo's current sources over every path within the stated bounds, each branch and "
              "assertion decided by Z3 (or by interval/normal-form refutation inside the same solver layer); counterexamples are replayed on natively compiled code. "
              "Nothing is claimed outside the bounds. Trusts the engine in /verif/engine, clang, Z3.")
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for pid in sorted(props.P):
        p = props.P[pid]
        an = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}
        if p["state"]:
            an["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        if p["observe"]:
            an["observe_at"] = p["observe"]
        f.write(json.dumps({"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": an}) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for pid in sorted(props.P):
    p = props.P[pid]
    if p["na"]:
        m["not_applicable"].append({"property": pid, "reason": p["na"]})
        continue
    m["checks"].append({"property": pid, "quick_cmd": "python3 checks/run.py " + pid, "thorough_cmd": "python3 checks/run.py " + pid,
                        "technique": "symbolic execution of LLVM bitcode with SMT (Z3)", "level": "other",
                        "level_note": (p["note"] + " " if p["note"] else "") + LEVEL_NOTE})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
for pid in sorted(props.P):
    assert len(props.P[pid]["title"]) <= 80, pid
