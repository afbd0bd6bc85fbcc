#!/bin/bash
# run the replay harness of a property by hand: rp.sh P [repo]
P=$1; R=${2:-/repo}
for d in /verif/replay/$P/*/; do
 n=$(basename $d); pk=${n//_//}; t=./$pk; pd=$R/$pk; [ $n = root ] && t=. && pd=$R
 python3 - "$d" "$pd" "$n" >/tmp/ov.json <<'PY'
import sys,glob,os,json
d,pd,n=sys.argv[1:]
r={}
for f in glob.glob(d+'/*_test.go')+glob.glob('/verif/replay/common/'+n+'/*_test.go'):
    r[pd+'/zz_verif_'+os.path.basename(f)]=f
R=pd
while not os.path.exists(R+'/go.mod'): R=os.path.dirname(R)
for f in glob.glob('/verif/replay/helpers/*/*.go'):
    r[R+'/'+os.path.basename(os.path.dirname(f)).replace('_','/')+'/zz_verif_'+os.path.basename(f)]=f
for f in glob.glob(pd+'/*_test.go'): r.setdefault(f,'')
print(json.dumps({'Replace':r}))
PY
 (cd $R && VERIF_SEED=${VERIF_SEED:-1} go test -vet=off -count=1 -timeout=150s -overlay /tmp/ov.json -run '^TestVerifReplay' $t 2>&1 | tail -${LINES_:-30})
done
