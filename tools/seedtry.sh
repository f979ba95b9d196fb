#!/bin/bash
# seedtry.sh DIR [notest] [nocheck]: apply DIR/patch.diff to a private copy of /repo (bind-mounted over /repo in a
# user namespace), build, run the stable tests, the demo, and the property's quick check. One summary line on stdout.
D=$(realpath "$1"); ID=$(basename "$D"); shift
W=/tmp/seedw-$ID; rm -rf "$W"; cp -a /repo "$W"
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
( cd "$W" && git apply "$D/patch.diff" ) || { echo "$ID PATCH-FAILS"; rm -rf "$W"; exit 1; }
unshare -Urm bash -c "
mount --bind $W /repo
mkdir -p $W.ev; [ -d /verif/evidence ] && mount --bind $W.ev /verif/evidence
r=''
bash /opt/vp/build.sh > $W.build 2>&1 && r=\"\$r build=ok\" || { echo \"$ID BUILD-FAILS\"; exit; }
if [[ ' $* ' != *' notest '* ]]; then bash /opt/vp/test.sh $W.json > $W.test 2>&1; r=\"\$r tests=\$(python3 -c \"
import json;d=json.load(open('$W.json'));s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);print('%d/%d'%(len(s&set(d['passed'])),len(s)))\")\"; fi
cd /repo; timeout 300 bash $D/demo.sh > $W.demo 2>&1; r=\"\$r demo=\$?\"
if [[ ' $* ' != *' nocheck '* ]]; then cd /verif; t=\$(date +%s); timeout 900 python3 check.py $P quick > $W.check 2>&1; r=\"\$r check($P)=\$? \$(grep -c ^VIOLATION $W.check)viol \$(( \$(date +%s) - t ))s\"; fi
echo \"$ID\$r\"
"
rm -rf "$W" "$W.ev" "$W.json"
