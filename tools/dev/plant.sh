#!/bin/bash
# plant.sh ID [nocheck]: confirm the planted bug /verif/seeded/ID in a scratch copy, then run its property's check against it
S=/verif/seeded/$1; D=/tmp/plant.$1; rm -rf /tmp/plant.$1; mkdir -p $D; cp -a /repo/include /repo/test $D/; cd $D
T=$(mktemp -d /tmp/demo.XXXXXX); cp -r $S/* $T/; rm -f $T/*.diff $T/meta.json
bash $T/demo.sh >/tmp/plant.$1.clean 2>&1; echo "demo clean: $?"
git apply --include='include/*' $S/patch.diff 2>/dev/null || patch -p1 -s < $S/patch.diff || echo PATCH-FAILS
bash $T/demo.sh >/tmp/plant.$1.bug 2>&1; echo "demo patched: $?"
bash /verif/tools/dev/pt.sh $D
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
[ -n "$2" ] || (cd /verif; SDS_REPO=$D timeout 900 ./check $P quick | tail -12; echo "check exit ${PIPESTATUS[0]}")
rm -rf "$T" "$D"
