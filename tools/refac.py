#!/usr/bin/env python3
"""refac.py FILE [-n NAME,...] [-c CHECK,...] [-1]: apply behaviour-preserving edits (RF: {name: [(file, old, new), ...]})
to a scratch copy of /repo, build and test it, and run the checks on it: every one has to stay quiet.
All edits are applied together, or (-1) each one in a copy of its own. old@@N picks the N-th occurrence."""
import sys,os,re,shutil,subprocess,tempfile,argparse
SRC=os.environ.get("REPO","/repo")
from concurrent.futures import ThreadPoolExecutor
ap=argparse.ArgumentParser(); ap.add_argument('file'); ap.add_argument('-n'); ap.add_argument('-c'); ap.add_argument('-1',dest='one',action='store_true'); ap.add_argument('-x',action='store_true'); ap.add_argument('-j',type=int,default=5)
A=ap.parse_args()
ns={}; exec(open(A.file).read(),ns); RF=ns['RF']
names=A.n.split(',') if A.n else list(RF)
checks=A.c.split(',') if A.c else ['C%02d'%i for i in [21,14,10,11,12,17,3,2,1,4,5,6,7,8,9,13,15,16,18,19,20,22,23,24,25]]
ENV=dict(os.environ); ENV.update(PATH='/opt/veriftools/go1.27.3/bin:'+ENV['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off')
def build(d,names):
    r=d+'/repo'; os.mkdir(r)
    for f in os.listdir(SRC):
        if f.endswith('.go'): shutil.copy(SRC+'/'+f,r)
    shutil.copytree(SRC+'/testdata',r+'/testdata')
    for n in names:
        for f,o,nw in RF[n]:
            k=1; m=re.search(r'@@(\d+)$',o)
            if m: o=o[:m.start()]; k=int(m.group(1))
            s=open(r+'/'+f).read(); parts=s.split(o)
            if (not m and len(parts)!=2) or len(parts)<k+1: print('NOT FOUND/AMBIGUOUS',n,f,len(parts)-1,o[:80]); return None
            open(r+'/'+f,'w').write(o.join(parts[:k])+nw+o.join(parts[k:]))
    for f in ('go.mod','go.sum'): shutil.copy('/opt/vp/gomod/'+f,r)
    p=subprocess.run(['go','vet','-unreachable=false','.'],cwd=r,env=ENV,capture_output=True,text=True)
    p=subprocess.run(['go','test','-count=1','-vet=off','.'],cwd=r,env=ENV,capture_output=True,text=True)
    bad=sorted(set(re.findall(r'^\s*--- FAIL: (\S+)',p.stdout,re.M)))
    if 'build failed' in p.stdout+p.stderr or (p.returncode and not bad): print('BUILD',names,(p.stdout+p.stderr)[-1500:]); return None
    if bad: print('TESTS FAIL',bad[:10])
    shutil.copy(os.environ.get('VC','/tmp/vc'),d+'/vc'); os.makedirs(d+'/v'); shutil.copytree('/verif/repomod',d+'/v/repomod'); shutil.copy('/verif/known-findings.txt',d+'/v')
    for f in ('go.mod','go.sum'): os.remove(r+'/'+f)
    return r
def run(d,tag,c):
    v=tempfile.mkdtemp(prefix='v',dir=d); shutil.copytree(d+'/v/repomod',v+'/repomod'); shutil.copy(d+'/v/known-findings.txt',v)
    e=dict(os.environ,VERIF_REPO=d+'/repo',VERIF_DIR=v)
    p=subprocess.run(['timeout','890',d+'/vc',c],env=e,capture_output=True,text=True)
    if p.returncode:
        print('ALARM' if p.returncode==1 else 'NOANSWER rc%d'%p.returncode,tag,c)
        for l in p.stdout.splitlines():
            if not l.startswith('      |'): print('      ',l[:260])
        if p.returncode!=1: print(p.stderr[-800:])
        try:
            ls=open(v+'/evidence/%s-report.txt'%c).read().splitlines()
            for l in ls[:14]: print('      >',l[:300])
        except Exception: pass
        sys.stdout.flush()
    return c,p.returncode
groups=[(n,[n]) for n in names] if A.one else [('all',names)]
ex=ThreadPoolExecutor(A.j); fs=[]; ds=[]
for tag,g in groups:
    d=tempfile.mkdtemp(prefix='rfx',dir='/tmp'); ds.append(d)
    if not build(d,g): continue
    if A.x: continue
    fs+=[ex.submit(run,d,tag,c) for c in checks]
for f in fs: f.result()
print('done',len(fs),'runs; alarms:',[f.result() for f in fs if f.result()[1]])
for d in ds: shutil.rmtree(d)
