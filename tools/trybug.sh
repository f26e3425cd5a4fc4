#!/bin/bash
# trybug.sh ID [CHECK...]: confirm a planted bug in a scratch copy mounted over /repo in a private namespace, then run the checks (default: its property's).
ID=$1; shift
S=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
C=${*:-$P}
W=/tmp/plant/$ID
/bin/rm -rf "$W"; mkdir -p "$W/ev" "$W/rp"
cp -a /repo "$W/repo"; cp -a "$S" "$W/demo"; /bin/rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
unshare -m bash -c "
mount --bind $W/repo /repo; mount --bind $W/ev /verif/evidence; mount --bind $W/rp /verif/replays
cd /repo
timeout 300 bash $W/demo/demo.sh >$W/demo0.log 2>&1; d0=\$?
git apply $S/patch.diff || { echo '$ID: patch does not apply'; exit 1; }
bash /opt/vp/test.sh $W/res.json >$W/test.log 2>&1
t=\$(python3 -c \"
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);r=set(json.load(open('$W/res.json'))['passed'])
print('ok' if b<=r else 'FAIL '+','.join(sorted(b-r)))\")
timeout 300 bash $W/demo/demo.sh >$W/demo1.log 2>&1; d1=\$?
o=''
for c in $C; do timeout 900 /opt/horus-venv/bin/python /verif/mc/run.py \$c --tier quick >$W/\$c.log 2>&1; rc=\$?; grep -q \"VIOLATION property=\$c\" $W/\$c.log && v=V || v=-; o=\"\$o \$c=\$rc\$v\"; done
s=ok; [ \$d0 = 0 ] || s='DEMO-BAD-CLEAN'; [ \$d1 != 0 ] || s=\"\$s DEMO-PASSES-WITH-BUG\"
echo \"$ID tests:\$t demo:\$d0/\$d1 \$s |\$o\"
"
/bin/rm -rf "$W/repo"
