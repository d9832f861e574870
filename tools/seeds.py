#!/usr/bin/env python3
# seeds.py [id...]: plants bugs into /tmp/sr (scratch clone of /repo) and records them with seed.sh.
# Each: id, property, what it needs, what it breaks, edits [(file, old, new)], body of the demonstration.
import os,subprocess,sys,json
T='''package cypher_test

import (
	"testing"

	cy "github.com/manhcuongbk56/cypher-go-dsl"
)

func text(t *testing.T, s cy.Statement, err error) string {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
	r, err := cy.NewRenderer().Render(s)
	if err != nil {
		t.Fatal(err)
	}
	return r
}

func want(t *testing.T, s cy.Statement, err error, w string) {
	t.Helper()
	if g := text(t, s, err); g != w {
		t.Fatalf("got  %s\\nwant %s", g, w)
	}
}

func TestDemo(t *testing.T) {
@BODY@
}
'''
SEEDS=[]
def seed(*a): SEEDS.append(a)
exec(open(os.path.join(os.path.dirname(__file__),'seedlist.py')).read())
ids=sys.argv[1:]
subprocess.run('rm -rf /tmp/sr && git clone -q /repo /tmp/sr',shell=True,check=True)
for id,prop,needs,breaks,edits,body,*head in SEEDS:
    if ids and id not in ids: continue
    D='/verif/seeded/'+id
    if not ids and os.path.exists(D+'/patch.diff'): continue
    os.makedirs(D,exist_ok=True)
    ok=True
    for f,a,b in edits:
        s=open('/tmp/sr/'+f).read()
        if s.count(a)!=1: print(id,'EDIT',f,s.count(a),a); ok=False; continue
        open('/tmp/sr/'+f,'w').write(s.replace(a,b))
    if ok:
        src=T.replace('@BODY@',body.strip('\n'))
        if head: src=src.replace('import (\n','import (\n'+''.join('\t"%s"\n'%h for h in head[0]))
        open(D+'/demo_test.go.txt','w').write(src)
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(D+'/meta.json','w'),indent=1)
        r=subprocess.run(['bash','/verif/tools/seed.sh',id],capture_output=True,text=True)
        print(id,prop,r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-300:])
        if r.returncode: print(r.stdout[-1500:],r.stderr[-500:])
    if not ok or r.returncode:
        subprocess.run('rm -rf '+D,shell=True)
        subprocess.run('git -C /tmp/sr checkout -q -- .',shell=True)
