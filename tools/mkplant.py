#!/usr/bin/env python3
# mkplant.py SPEC.py : makes /verif/seeded/<id>/ from entries (id, property, [(file, old, new)...], demo Go main body, imports, needs, breaks)
import sys, os, subprocess, json, shutil
ns={}
exec(open(sys.argv[1]).read(), ns)
only=sys.argv[2:]
DEMO='''#!/bin/bash
# cwd is the repository; builds demo.go against it in a scratch directory
HERE=$(cd "$(dirname "$0")" && pwd); REPO=$PWD
D=$(mktemp -d); trap 'rm -r "$D"' EXIT
cp "$HERE/demo.go" "$D/main.go"
printf 'module demo\\n\\ngo 1.21\\n\\nrequire github.com/dufourgilles/emberlib v0.0.0\\n\\nreplace github.com/dufourgilles/emberlib => %s\\n' "$REPO" > "$D/go.mod"
cd "$D" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
go build -o demo . && timeout 120 ./demo
'''
for e in ns['PLANTS']:
    i=e['id']
    if only and i not in only: continue
    d='/verif/seeded/'+i
    os.makedirs(d,exist_ok=True)
    w='/tmp/mkplant'
    subprocess.run(['rm','-rf',w]); subprocess.run(['cp','-a','/repo',w])
    for f,o,n in e['edits']:
        s=open(w+'/'+f).read()
        if s.count(o)!=1: print(i,'edit matches',s.count(o),'times:',o); sys.exit(1)
        open(w+'/'+f,'w').write(s.replace(o,n))
    diff=subprocess.run(['git','diff'],cwd=w,capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    imps='\n'.join('\t"%s"'%x for x in e['imports'])
    open(d+'/demo.go','w').write('package main\n\nimport (\n'+imps+'\n)\n\nfunc fail(f string, a ...interface{}) {\n\tfmt.Printf(f+"\\n", a...)\n\tos.Exit(1)\n}\n\n'+e['demo'])
    json.dump({'property':e['prop'],'needs':e['needs'],'what_it_breaks':e['breaks']},open(d+'/meta.json','w'),indent=1)
    subprocess.run(['rm','-rf',w])
    print('==',i); sys.stdout.flush()
    subprocess.run(['bash','/verif/tools/plant.sh',i])
