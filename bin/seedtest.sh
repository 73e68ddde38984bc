#!/bin/bash
# seedtest.sh ID [notest] : apply /verif/seeded/ID/patch.diff to a private copy of /repo (bind-mounted over /repo in
# its own namespace), build, run the repository's tests, the demonstration and the property's check.
ID=$1; D=/verif/seeded/$ID; S=/tmp/sc.$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cp -a /repo $S && git -C $S apply $D/patch.diff || { echo "$ID: patch does not apply"; rm -rf /tmp/sc.$ID; exit 1; }
( cd /repo; timeout 300 bash $D/demo.sh >/tmp/demo0.$ID 2>&1; echo "$ID demo_clean=$?" )
unshare -Urm bash -c "mount --bind $S /repo
[ '$2' = notest ] && bash /opt/vp/build.sh >/tmp/b.$ID 2>&1 || { bash /opt/vp/test.sh /tmp/o.$ID.json >/tmp/b.$ID 2>&1
python3 -c \"
import json
o=json.load(open('/tmp/o.$ID.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print('$ID tests missing:',sorted(set(b['stable'])-set(o['passed'])))\"; }
cd /repo; timeout 300 bash $D/demo.sh >/tmp/demo1.$ID 2>&1; echo $ID demo_patched=\$?
cd /verif; python3 bin/check.py $P > /tmp/c.$ID 2>&1; echo $ID check $P rc=\$?; grep -m3 -E 'VIOLATION|ERROR|OK' /tmp/c.$ID"
rm -rf $S
