"""mkseed.py: helper to write a seeded change. seed(id, property, needs, breaks, edits=[(file,old,new)], demo_cpp, flags)"""
import os,subprocess as sp,json,sys
V='/verif'; R='/repo'
def seed(id,prop,needs,breaks,edits,demo,flags='',srcs='',run='./'):
    d='%s/seeded/%s'%(V,id); os.makedirs(d,exist_ok=True)
    assert not sp.run('git -C %s status --short'%R,shell=True,capture_output=True,text=True).stdout.strip()
    for f,o,n in edits:
        p=R+'/'+f; s=open(p).read(); assert s.count(o)==1,(id,f,s.count(o),o); open(p,'w').write(s.replace(o,n))
    open(d+'/patch.diff','w').write(sp.run('git -C %s diff'%R,shell=True,capture_output=True,text=True).stdout)
    sp.run('git -C %s checkout -- .'%R,shell=True)
    open(d+'/demo.cpp','w').write(demo)
    open(d+'/demo.sh','w').write('''#!/bin/bash
# run with cwd = the repository; exit 0 when the behaviour is right
D="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
for f in %s; do gcc -O1 -c -Isrc "$f" -o "$T/$(basename "$f").o" || exit 98; done
g++ -std=gnu++17 -O1 -fsanitize=address -fno-sanitize-recover -w -Isrc %s "$D/demo.cpp" $(ls "$T"/*.o 2>/dev/null) -o "$T/demo" || exit 97
ASAN_OPTIONS=detect_leaks=0 timeout 60 "$T/demo"
''' % (srcs,flags))
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
