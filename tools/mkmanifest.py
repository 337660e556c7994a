#!/usr/bin/env python3
"""Write MANIFEST.json; the level of each check is 'proof' once its contracts are in place."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
PROOF = {}      # property -> level_note
NOTES = os.path.join(HERE, "tools", "levels.json")
if os.path.exists(NOTES):
    PROOF = json.load(open(NOTES))
checks = []
for p in props:
    i = p["id"]
    note = PROOF.get(i)
    checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique="contract-based deductive verification: pyvc generates proof obligations from the current source of the functions under contract and z3 discharges them; run-time contract checking supplies failing inputs and is the labelled bounded stand-in for the parts outside the verifier's subset",
        level="proof" if note else "exploration",
        level_note=note or "bounded stand-in only: run-time checking of the contracts on generated inputs"))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=[], notes="See DESIGN.md. No hooks are needed in /repo."), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
