#!/usr/bin/env python3
# Writes MANIFEST.json. A property is claimed when it is in CLAIMED.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NOTE = ("Deductive proof on every run: gocv generates the verification conditions of each function under contract from the Go SSA form of "
        "/repo's current source and z3/cvc5 discharge all of them, for all inputs and all iterations. Partial correctness. ")
CLAIMED = {}
NA = {}
exec(open(os.path.join(here, 'tools', 'claims.py')).read())
checks = []
for p in props:
    i = p['id']
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "technique": "contract-based deductive verification of the Go source (SSA weakest-precondition style VCs, SMT)",
                       "level": "proof", "level_note": NOTE + CLAIMED[i]})
na = [{"property": p['id'], "reason": NA.get(p['id'], "not under contract yet")} for p in props if p['id'] not in CLAIMED]
m = {"version": 1, "setup_cmd": "./check build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: contracts live in /verif/contracts and name the functions of /repo; the verified text is /repo's own source."}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
