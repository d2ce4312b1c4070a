#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTES = {}
exec(open(here + "/tools/manifest_data.py").read())
ids = [json.loads(l)["id"] for l in open(here + "/properties.jsonl")]
TECH = "contract-based deductive verification: pre/postconditions over the compiled MIR of /repo, obligations discharged by z3/cvc5; failed obligations replayed as concrete runs of the real code"
NOTE = ("Every obligation is generated on each run from the MIR of /repo's current source and discharged for all inputs; helper functions under a verified contract are used by that contract at their calls, other code is executed symbolically. "
        "Trusted: rustc's MIR, the interpreter in /verif/engine with its meanings of standard-library and host functions, serde as tree in/tree out, the SMT solvers.")
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                 "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "proof", "level_note": NOTE + NOTES.get(i, "")}
                for i in ids if i not in NA],
     "not_applicable": [{"property": i, "reason": r} for i, r in NA.items()]}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), len(NA))
