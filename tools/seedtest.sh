#!/bin/bash
# Development aid: seedtest.sh ID [PROP..]: demo on both trees, stable tests with the patch, checks with the patch
id=$1; shift
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
if [ -z "$NODEMO" ]; then bash $d/demo.sh >/tmp/seed.out 2>&1 && echo "demo clean: ok" || { echo "demo clean: FAILS"; tail -c 1500 /tmp/seed.out; }; fi
git -C /repo apply $d/patch.diff || exit 1
if [ -z "$NODEMO" ]; then
 bash $d/demo.sh >/tmp/seed.out 2>&1 && echo "demo patched: NOT BROKEN" || { echo "demo patched: broken as expected"; tail -c 300 /tmp/seed.out; }
 bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.log 2>&1; python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
def names(x,k):
    v=x.get(k) or []
    return set(v if isinstance(v,list) else v.keys())
st=names(b,'stable') or names(b,'passed') or set(b.get('tests',[]))
print('stable tests:',len(st),'missing/failed:',[t for t in st if t not in names(r,'passed')][:5])
PY
fi
for p in ${@:-$prop}; do timeout 900 python3 /verif/run.py check $p | tail -4 | cut -c1-500; done
git -C /repo checkout -- .
