#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with an entry in CLAIMED is claimed, the others are not_applicable."""
import json
TB = ("Assumes the stated models of the standard library (gvc/stdlib.go, gvc/extra.go), Go's memory and arithmetic semantics as encoded by gvc "
      "(fixed-width machine integers as bit vectors, never mathematical), go/ssa and the SMT solvers (z3, cvc5).")
DED = "contract-based deductive verification of the real Go code (gvc: symbolic execution of go/ssa, loop invariants, modular contracts, SMT)"
CLAIMED = {
}
def c(ids, note, tech=DED, level="proof"):
    for i in ids.split():
        CLAIMED[i] = (note, tech, level)
exec(open('/verif/tools/claims.py').read())
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[],
    hooks=dict(guard="gvc_none", enable="no hooks: the checks compile /repo as it is, with the contract files of /verif/contracts added by an overlay"))
for p in props:
    if p in CLAIMED:
        note, tech, level = CLAIMED[p]
        m['checks'].append(dict(property=p, quick_cmd=f"./check.sh {p} quick", thorough_cmd=f"./check.sh {p} thorough",
            evidence_file=f"evidence/{p}.json", technique=tech, level=level, level_note=note + " " + TB))
    else:
        m['not_applicable'].append(dict(property=p, reason=NA.get(p, "no contract for it yet: work in progress, not claimed in this commit")))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not')
