#!/usr/bin/env python3
# mkdesign.py: writes DESIGN.md
import json, glob, os, sys
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.path.insert(0, 'tools')
from claims import CLAIMED, NA
out = open('tools/design_head.md').read()
out += "## 5. How each property is decided\n\nOblig. and functions as of the last recorded run (`evidence/<id>.json` has those of the latest).\n\n"
props = [json.loads(l) for l in open('properties.jsonl')]
for p in props:
    i = p['id']
    out += "### %s %s\n\n" % (i, p['title'])
    if i in NA:
        out += "Not applicable: %s\n\n" % NA[i]
        continue
    out += CLAIMED[i] + "\n\n"
    fn = 'evidence/%s.json' % i
    if os.path.exists(fn):
        c = json.load(open(fn))['coverage']
        fs = [f.split(':')[0] for f in c['functions_under_contract']]
        out += "Unbounded proof; %d obligations, %d functions under contract: %s. Lemmas proved: %d. Inlined: %s.\n\n" % (
            c['discharged'], len(fs), ', '.join('`%s`' % f for f in fs), len(c.get('lemmas_proved') or []),
            ', '.join('`%s`' % f.split('/')[-1] for f in (c.get('functions_inlined_into_callers') or [])) or 'none')
out += "## 6. Planted bugs\n\nEach is caught by the check of its property (exit 1, VIOLATION line). 'input' = with a concrete failing input, schedule or history from the replay; 'obligation' = by a failed obligation only.\n\n| bug | needs | breaks | caught by |\n|---|---|---|---|\n"
how = json.load(open('tools/caught.json')) if os.path.exists('tools/caught.json') else {}
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f)); i = f.split('/')[1]
    out += "| %s | %s | %s | %s, %s |\n" % (i, m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/'), m['property'], how.get(i, 'input'))
open('DESIGN.md', 'w').write(out)
