import subprocess,sys,json,os
def mk(id,prop,needs,breaks,edits,demo_cpp,extra_src="",cmd=None):
    d="/verif/seeded/"+id; os.makedirs(d,exist_ok=True)
    for f,a,b in edits:
        p="/repo/"+f; s=open(p).read()
        assert s.count(a)==1,(id,f,s.count(a),a)
        open(p,"w").write(s.replace(a,b))
    diff=subprocess.run(["git","-C","/repo","diff"],capture_output=True,text=True).stdout
    subprocess.run(["git","-C","/repo","checkout","--","."],capture_output=True)
    open(d+"/patch.diff","w").write(diff)
    open(d+"/demo.cpp","w").write(demo_cpp)
    open(d+"/demo.sh","w").write('''#!/bin/bash
# exit 0: the property holds for the demonstrated input
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
L=src/libkiter
g++ -std=c++17 -include array -w -O1 -D__RELEASE_MODE__ -I/usr/include/libxml2 -I$L "$here/demo.cpp" %s -o "$tmp/demo" -L_build/Release/lib -Wl,-rpath,$PWD/_build/Release/lib -lkiter_algorithms -lkiter_generators -lkiter_printers -lkiter_lp -lkiter_models -lkiter_commons -lxml2 -Wl,--unresolved-symbols=ignore-in-shared-libs
cd "$tmp"
timeout 120 ./demo
''' % extra_src)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+"/meta.json","w"),indent=1)
