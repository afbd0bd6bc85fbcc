#!/usr/bin/env python3
# mkseed.py FILE.py [ID...]: writes /verif/seeded/<id>/ from a description:
# SEEDS = [dict(id, property, edits=[(file, old, new)], pkg, test, needs, breaks)]
import sys, os, json, subprocess, shutil
SEEDS = []
exec(open(sys.argv[1]).read())
want = sys.argv[2:]
W = '/tmp/mkseedwt'
for s in SEEDS:
    if want and s['id'] not in want:
        continue
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', W], check=True)
    for f, old, new in s['edits']:
        p = os.path.join(W, f)
        t = open(p).read()
        if t.count(old) != 1:
            print(s['id'], f, 'occurrences:', t.count(old)); sys.exit(1)
        open(p, 'w').write(t.replace(old, new))
    d = subprocess.run(['git', 'diff'], cwd=W, capture_output=True, text=True).stdout
    o = '/verif/seeded/' + s['id']
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(d)
    json.dump({"property": s['property'], "needs": s['needs'], "what_it_breaks": s['breaks']}, open(o + '/meta.json', 'w'), indent=1)
    pkg = s['pkg']
    open(o + '/demo_test.go', 'w').write(s['test'])
    pd = '' if pkg == '.' else pkg + '/'
    open(o + '/demo.sh', 'w').write('''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%szz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" > "$t/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "$t/o.json" -run '^TestDemo$' ./%s
''' % (pd, '' if pkg == '.' else pkg))
    os.chmod(o + '/demo.sh', 0o755)
    print('wrote', s['id'])
shutil.rmtree(W, ignore_errors=True)
