#!/bin/bash
# seedtest.sh [-n] ID... : full confirmation of a planted bug; -n: no test suite
N=; [ "$1" = -n ] && { N=1; shift; }
cd /repo; [ -z "$(git status --porcelain -uno)" ] || { echo dirty; exit 1; }
bash /opt/vp/build.sh >/tmp/w/b.log 2>&1 || { echo base build failed; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash $d/demo.sh >/tmp/w/$id.d0 2>&1; r0=$?
  git apply $d/patch.diff || { echo "$id: no apply"; continue; }
  bash /opt/vp/build.sh >/tmp/w/b.log 2>&1 || { echo "$id: build failed"; git checkout -q -- .; continue; }
  bash $d/demo.sh >/tmp/w/$id.d1 2>&1; r1=$?
  miss=skipped
  if [ -z "$N" ]; then bash /opt/vp/test.sh /tmp/w/t.json >/tmp/w/t.log 2>&1; miss=$(python3 /verif/tools/cmpt.py /tmp/w/t.json | tail -1); fi
  cmd=$(python3 -c "
import json
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
    if c['property']=='$p': print(c['quick_cmd'])")
  s=$(date +%s)
  out=$(cd /verif; timeout 900 bash -c "$cmd" 2>&1); rc=$?
  echo "$id [$p]: demo base=$r0 patched=$r1; tests $miss; check rc=$rc $(($(date +%s)-s))s $(echo "$out"|grep -c VIOLATION) :: $(echo "$out"|grep '^scenario'|head -1|cut -c1-140)"
  git checkout -q -- .
done
bash /opt/vp/build.sh >/tmp/w/b.log 2>&1
