#!/bin/bash
# pb.sh SEEDED-ID [PROP] : run a check against a planted bug
d=/verif/seeded/$1; p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply $d/patch.diff || exit 9
(cd /verif && timeout 900 python3 -m sa.check $p > /tmp/pb-$1.log 2>&1; echo "$1 $p rc=$?"; cut -c1-300 /tmp/pb-$1.log | head -${N:-4})
git -C /repo checkout -- .
