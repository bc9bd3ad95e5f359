#!/bin/bash
# plant.sh ID: confirms a planted bug in a scratch copy: applies, touches original lines, builds, stable tests pass, demo fails with it and passes without
ID=$1; S=/verif/seeded/$ID; W=/tmp/plant.$$; 
cp -a /repo $W; cd $W || exit 1
trap 'rm -rf '$W EXIT
ORIG=$(git rev-list --max-parents=0 HEAD | tail -1)
ORIG=$(git log --format=%H --grep='^fix:' | tail -1)~1
git apply --check $S/patch.diff || { echo "does not apply"; exit 1; }
# removed lines must be original
python3 - $S/patch.diff <<P
import re,subprocess,sys
f=None;ok=True;n=0
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip()
    m=re.match(r'@@ -(\d+)',l)
    if m: n=int(m.group(1)); continue
    if l.startswith('---') or l.startswith('+++'): continue
    if l.startswith('-'):
        b=subprocess.run(['git','blame','-s','-l','-L%d,%d'%(n,n),f],capture_output=True,text=True).stdout.split()[0].lstrip('^')
        fx=subprocess.run(['git','merge-base','--is-ancestor',b,'$ORIG']).returncode
        if fx: print('NOT ORIGINAL',f,n,l.strip())
        n+=1
    elif l.startswith(' '): n+=1
P
bash $S/demo.sh >/tmp/plant.out 2>&1; echo "demo clean rc=$?"
git apply $S/patch.diff; go build ./... || echo NOBUILD
go test ./... -run 'XXX' >/dev/null 2>&1
python3 - <<P
import json,subprocess,re
b=json.load(open('/opt/vp/BASELINE.json'))
P
go test -v -vet=off ./asn1 ./embertree ./errors ./socket 2>&1 | grep -E '^\s*--- (FAIL|PASS)' | grep -c PASS
go test -vet=off ./asn1 ./embertree ./errors ./socket 2>&1 | grep -E '^\s*--- FAIL|panic'
bash $S/demo.sh >/tmp/plant.out 2>&1; echo "demo bug rc=$?"; tail -3 /tmp/plant.out
