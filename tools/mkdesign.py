#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.in.md, claims.py, properties.jsonl, known-findings.txt, seeded/ and tools/caught.txt."""
import json, glob, os
CL, NA = {}, {}
def c(ids, note, tech=None, level="proof"):
    for i in ids.split(): CL[i] = (note, level)
exec(open('/verif/tools/claims.py').read())
rows = []
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)
    if p['id'] in CL: rows.append(f"- **{p['id']} {p['title']}** — {CL[p['id']][0]} Anchors: {', '.join(p['anchors']['files'])}.")
    else: rows.append(f"- **{p['id']} {p['title']}** — not claimed: {NA.get(p['id'], 'no contract for it yet.')}")
fx = ['- ' + l.strip()[7:] for l in open('/verif/known-findings.txt') if l.startswith('fixed: ')]
fn = ['- KNOWN FINDING (not repaired): ' + l.strip()[9:] for l in open('/verif/known-findings.txt') if l.startswith('finding: ')]
caught = {}
if os.path.exists('/verif/tools/caught.txt'):
    for l in open('/verif/tools/caught.txt'):
        a = l.split(None, 1)
        if len(a) == 2: caught[a[0]] = a[1].strip()
sd = []
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(d)); n = d.split('/')[-2]
    sd.append(f"- `{n}` ({m['property']}): {m['what_it_breaks']}. Needs {m['needs']}. **{caught.get(n, 'result not recorded')}**")
t = open('/verif/tools/DESIGN.in.md').read()
t = t.replace('@@TABLE@@', '\n'.join(rows)).replace('@@FIXES@@', '\n'.join(fx + fn)).replace('@@SEEDS@@', '\n'.join(sd))
open('/verif/DESIGN.md', 'w').write(t)
