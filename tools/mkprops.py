#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one place, so they stay in step."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "progenitor-client/src/progenitor_client.rs"
out, checks, na = [], [], []


def P(id, title, stmt, over, q, why, mech, observe, note=None, files=None, reason=None, assume=""):
    assert len(title) <= 80, title
    out.append({
        "id": id, "title": title, "statement": stmt, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
        "anchors": {"files": files or [C], "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None},
    })
    if reason:
        na.append({"property": id, "reason": reason})
    else:
        checks.append({
            "property": id,
            "quick_cmd": "python3 checks/run.py " + id,
            "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + id,
            "technique": "symbolic execution of the compiled crate's LLVM IR, SMT verdict (z3; cvc5 as second solver in the thorough tier)",
            "level": "model_checking",
            "level_note": note + " Bounded: holds for every value within the bounds listed in the evidence file; trusts rustc's IR, the engine's model of it (spot-checked against native runs of sampled paths) and z3.",
        })


exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for o in out:
        f.write(json.dumps(o) + "\n")
json.dump({
    "version": 1,
    "setup_cmd": "python3 checks/run.py --setup",
    "checks": checks,
    "not_applicable": na,
    "notes": NOTES,
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
