#!/usr/bin/env python3
"""mkseed.py FILE [ID...]: (re)build and validate planted bugs described in FILE (list SEEDS of dicts
id, property, edits=[(file,old,new)], demo (Go test body), needs, breaks)."""
import sys,os,subprocess,json,re
ns={}; exec(open(sys.argv[1]).read(),ns)
only=sys.argv[2:]
DEMO='''#!/bin/bash
# Runs the Go test beside this file inside the package (cwd /repo); fails when the planted bug is present.
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp /tmp/demo.XXXXXX.json)
printf '{"Replace":{"/repo/go.mod":"/opt/vp/gomod/go.mod","/repo/go.sum":"/opt/vp/gomod/go.sum","/repo/zz_demo_test.go":"%s/demo_test.go"}}' "$d" > "$t"
GOFLAGS="-mod=readonly -overlay=$t" timeout 200 go test -count=1 -vet=off -run 'TestZZDemo$' .
rc=$?
rm -f "$t"
exit $rc
'''
def sh(c): 
    p=subprocess.run(c,shell=True,capture_output=True,text=True); return p.returncode,p.stdout+p.stderr
assert sh('git -C /repo status --porcelain')[1].strip()=='', 'repo dirty'
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    d='/verif/seeded/'+s['id']; os.makedirs(d,exist_ok=True)
    body=s['demo']
    imps=['testing']+[i for i in ['encoding/json','math','time','strings','fmt','bytes','reflect','sync','sync/atomic'] if re.search(r'\b'+i.split('/')[-1]+r'\.',body+s.get('extra',''))]
    go='package gojsonsm\n\nimport (\n'+''.join('\t"%s"\n'%i for i in sorted(imps))+')\n\nfunc TestZZDemo(t *testing.T) {\n'+body.strip('\n')+'\n}\n'+s.get('extra','')
    open(d+'/demo_test.go','w').write(go)
    open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    rc0,o0=sh('cd /repo && bash %s/demo.sh'%d)
    ok=True
    try:
        for f,old,new in s['edits']:
            p='/repo/'+f; t=open(p).read()
            if re.search(r'@@\d+$',old): old,n=old.rsplit('@@',1); n=int(n)
            else: n=1; assert t.count(old)==1,(s['id'],f,t.count(old),old)
            i=-1
            for _ in range(n): i=t.index(old,i+1)
            t=t[:i]+new+t[i+len(old):]
            open(p,'w').write(t)
        rc,o=sh('git -C /repo diff')
        open(d+'/patch.diff','w').write(o)
        rcb,ob=sh('bash /opt/vp/build.sh'); rct,ot=sh('bash /opt/vp/test.sh /tmp/seed.json')
        rc1,o1=sh('cd /repo && bash %s/demo.sh'%d)
        rc2,o2=sh('VERIF_EVID=1 timeout 900 /tmp/vc %s'%s['property'])
        caught='VIOLATION' in o2
    finally:
        sh('git -C /repo checkout -- .')
    st='ok' if rc0==0 and rc1!=0 and rcb==0 and '233 passed, 0 failed' in ot else 'BAD'
    print(st,s['id'],s['property'],'CAUGHT' if caught else 'MISSED rc%d'%rc2, '' if st=='ok' else 'demo0=%d demo1=%d build=%d tests=%s\n%s\n%s'%(rc0,rc1,rcb,ot.strip()[-100:],o0[-800:] if rc0 else '',ob[-500:] if rcb else ''))
    if st=='ok' : print('   ',[l.strip() for l in o1.splitlines() if 'demo' in l or 'panic' in l][:1])
