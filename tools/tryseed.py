#!/usr/bin/env python3
"""Try planted changes: tryseed.py ID... [--no-build]; for each: applies, builds, runs the stable tests, the demo
(before and after) and the property's check; always undone afterwards."""
import sys,os,json,subprocess as sp
V='/verif'; R='/repo'
def sh(c,**k): return sp.run(c,shell=True,stdout=sp.PIPE,stderr=sp.STDOUT,text=True,**k)
quick='--no-build' in sys.argv
ids=[a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V+'/seeded'))
base=json.load(open('/opt/vp/BASELINE.json'))
stable=set(base['stable'])
assert not sh('git -C %s status --short'%R).stdout.strip(),'repo dirty'
for i in ids:
    d='%s/seeded/%s'%(V,i); p=json.load(open(d+'/meta.json'))['property']; out=[]
    r0=sh('bash %s/demo.sh'%d,cwd=R,timeout=300); out.append('demo-clean=%d'%r0.returncode)
    if r0.returncode: print(r0.stdout[-2000:])
    a=sh('git -C %s apply %s/patch.diff'%(R,d))
    if a.returncode: print(i,'PATCH FAILS',a.stdout); continue
    try:
        if not quick:
            t=sh('bash /opt/vp/test.sh /tmp/w/seed.json'); o=json.load(open('/tmp/w/seed.json'))
            miss=stable-set(o['passed']); out.append('tests-lost=%d'%len(miss))
            if miss: print(t.stdout[-1500:] if len(miss)>20 else sorted(miss)[:10])
        r1=sh('bash %s/demo.sh'%d,cwd=R,timeout=300); out.append('demo-bug=%d'%r1.returncode)
        print('   demo:',r1.stdout.strip()[-300:])
        c=sh('python3 check.py %s quick'%p,cwd=V); v=[l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        out.append('check=%d %s'%(c.returncode,v[:1]))
        if c.returncode==1: print('   ',[l for l in c.stdout.splitlines()][-4:-1])
    finally: sh('git -C %s checkout -- .'%R)
    print(i,*out,flush=True)
