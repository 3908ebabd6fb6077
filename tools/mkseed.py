#!/usr/bin/env python3
# mkseed.py ID PROPERTY NEEDS BREAKS <<< JSON list of [file, old, new]
import sys,json,os,subprocess
REPO=os.environ.get('REPO','/repo')
id,prop,needs,br=sys.argv[1:5]
eds=eval(sys.stdin.read())
assert subprocess.run(['git','-C',REPO,'status','--porcelain','-uno'],capture_output=True,text=True).stdout=='' , 'dirty'
d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
try:
    for f,o,n in eds:
        p=REPO+'/'+f; s=open(p).read()
        assert s.count(o)==1,(f,o,s.count(o))
        open(p,'w').write(s.replace(o,n))
    diff=subprocess.run(['git','-C',REPO,'diff'],capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write(diff)
finally:
    subprocess.run(['git','-C',REPO,'checkout','-q','--','.'])
json.dump({"property":prop,"needs":needs,"what_it_breaks":br},open(d+'/meta.json','w'),indent=1)
sh=d+'/demo.sh'
open(sh,'w').write('''#!/bin/bash
# Exit 0 if the property holds. Run with cwd /repo after the build.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
gcc -g -w -D_GNU_SOURCE -I. -o "$t/demo" "$here/demo.c" _build/default/.libs/libdill.a -lssl -lcrypto -lpthread -lrt || exit 2
cd "$t" && timeout 60 ./demo
''')
os.chmod(sh,0o755)
