#!/bin/bash
# usage: mk.sh ID PROPERTY  (the change is in /repo's working tree; demo.sh/meta.json already in seeded/ID)
id=$1; prop=$2; d=/verif/seeded/$id
mkdir -p $d
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "EMPTY PATCH"; exit 1; }
cd /repo
bash /opt/vp/test.sh /tmp/out-$id.json >/dev/null 2>&1
sed "s#/tmp/out.json#/tmp/out-$id.json#" /tmp/cmpb.py > /tmp/cmpb-$id.py; echo "tests: $(python3 /tmp/cmpb-$id.py)"
(bash $d/demo.sh >/tmp/demo-$id.log 2>&1); echo "demo patched rc=$? (want nonzero): $(tail -1 /tmp/demo-$id.log)"
(cd /verif && timeout 900 python3 -m sa.check $prop | head -8); 
git -C /repo checkout -- .
(bash $d/demo.sh >/tmp/demo-$id.log 2>&1); echo "demo clean rc=$? (want 0): $(tail -1 /tmp/demo-$id.log)"
