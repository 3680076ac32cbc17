#!/bin/bash
# trycheck.sh ID [PROP...]: run the tests and the property's check with the patch applied to /repo, then undo.
id=$1; shift
d=/verif/seeded/$id
props="$*"; [ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $d/patch.diff || exit 9
if [ -n "$TESTS" ]; then bash /opt/vp/test.sh /tmp/t.$id.json >/tmp/t.$id.log 2>&1; python3 - /tmp/t.$id.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
bl=b.get('stable') or b.get('passed') or b.get('tests') or b
ok=set(r.get('passed',[]))
miss=[t for t in bl if t not in ok] if isinstance(bl,list) else '?'
print('  tests missing:',miss if miss=='?' else (len(miss),miss[:3]))
P
fi
for p in $props; do s=$SECONDS; bash /verif/run.sh check $p > /tmp/c.$id.$p 2>&1; echo "$id $p rc=$? $((SECONDS-s))s $(grep -m1 -o 'VIOLATION.*' /tmp/c.$id.$p | cut -c1-150)"; done
git -C /repo checkout -- .
