#!/bin/bash
# tools/seedtest.sh ID...: confirms planted bugs in a scratch copy of /repo: the demo passes on the unchanged tree; with
# the patch the tree builds, the stable tests pass and the demo fails.
for id in "$@"; do
    d=/verif/seeded/$id
    git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
    git -C /repo apply --check $d/patch.diff || { echo "$id: does not apply"; continue; }
    (cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1 && timeout 300 bash $d/demo.sh >/tmp/seed.$id.clean 2>&1); c=$?
    git -C /repo apply $d/patch.diff
    (cd /repo && bash /opt/vp/build.sh >/tmp/seed.$id.build 2>&1); b=$?
    bash /opt/vp/test.sh /tmp/seed.$id.json >/dev/null 2>&1
    (cd /repo && timeout 300 bash $d/demo.sh >/tmp/seed.$id.patched 2>&1); p=$?
    git -C /repo checkout -q -- .
    t=$(python3 - /tmp/seed.$id.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return set(x[k])
    return set()
miss=names(b)-names(r)
print('%d missing %s'%(len(miss),sorted(miss)[:5]))
P
)
    ok=BAD; [ $c = 0 ] && [ $b = 0 ] && [ $p != 0 ] && [[ "$t" == "0 missing"* ]] && ok=OK
    echo "$id: $ok clean=$c build=$b patched=$p tests: $t"
done
(cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1)
