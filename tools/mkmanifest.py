#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = [{
    "property": i,
    "quick_cmd": "python3 check.py %s --tier quick" % i,
    "thorough_cmd": "python3 check.py %s --tier thorough" % i,
    "technique": "explicit TLA+ specification checked with TLC, bound to the code by trace validation (recorded calls judged by the specification) and by replay of behaviours TLC generates from it",
    "level": "model_checking",
    "level_note": "The design models are checked exhaustively within the small constants of their .cfg files; the implementation is bound to them on the executions that are recorded (behaviours generated by TLC and seeded random inputs). Trusts TLC, the driver that reports what the public functions return, and fixed-point tables of n*log2(n) whose laws are checked by MC_Tables. Real numbers are compared with the tolerances written in Trace.tla; integer matrices are judged exactly." +
                  (" Interleavings of the implementation are those the scheduler happens to run; data races are observed with ThreadSanitizer, which needs no particular interleaving to see them." if i == "C25" else ""),
} for i in ids]
json.dump({"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'.'); import check; check.build(); check.build(check.PAR); check.tables()\"",
           "checks": checks, "not_applicable": []}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
