#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables in
props.py (kept in one place so that the two never disagree)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS

TECH = {
    "psim": "static analysis: path-sensitive typestate dataflow (property simulation) over LLVM IR of the current sources",
    "summ": "static analysis: per-path effect summaries over LLVM IR, checked against contracts",
    "lint": "static analysis: interprocedural dataflow and who-may-call rules over LLVM IR and its debug types",
}


def main():
    checks, na = [], []
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            d = {
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in p.get("state", [])],
                    "mechanism": [dict(zip(("name", "where"), s)) for s in p["mech"]],
                    "observe_at": p.get("observe", []),
                    "hook_needed": None,
                },
            }
            f.write(json.dumps(d) + "\n")
            if p.get("na"):
                na.append({"property": p["id"], "reason": p["na"]})
            else:
                checks.append({
                    "property": p["id"],
                    "quick_cmd": "python3 check.py %s" % p["id"],
                    "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"],
                    "technique": TECH[p.get("tech", "summ")],
                    "level": "other",
                    "level_note": p["note"],
                })
    m = {
        "version": 1,
        "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, 'sa'); import ir; ir.build_irx()\"",
        "checks": checks,
        "not_applicable": na,
        "notes": "Every check recompiles /repo's current sources to LLVM bitcode (nothing is executed) and decides by static analysis; see DESIGN.md.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
