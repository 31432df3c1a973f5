#!/bin/bash
# tools/tryseed.sh ID [check-ids...] : demo without, then build+tests+demo+check with the planted change; always undone.
# R: the tree to do it in (default /repo), VP: folder of its build.sh and test.sh (default /opt/vp)
ID=$1; shift; D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
R=${R:-/repo}; VP=${VP:-/opt/vp}
cd $R; [ -z "$(git status --porcelain)" ] || { echo "dirty $R"; exit 2; }
T=$(mktemp -d); cp -r $D $T/d; rm -f $T/d/*.diff $T/d/meta.json
trap 'git -C $R checkout -q -- .; rm -rf "$T"' EXIT
bash $VP/build.sh >$T/build.log 2>&1 || { echo "BUILD FAIL base"; exit 2; }
timeout 300 bash $T/d/demo.sh >$T/o 2>&1; r=$?; echo "$ID demo base rc=$r"; [ $r = 0 ] || tail -5 $T/o
git apply $D/patch.diff || exit 2
bash $VP/build.sh >$T/build.log 2>&1 || { echo "BUILD FAIL patched"; tail -5 $T/build.log; exit 2; }
bash $VP/test.sh $T/t.json >/dev/null 2>&1
python3 -c "
import json;a=json.load(open('$T/t.json'));b=json.load(open('/opt/vp/BASELINE.json'));print('$ID tests missing',set(b['stable'])-set(a['passed']),'failed',a['failed'])"
timeout 300 bash $T/d/demo.sh >$T/o 2>&1; echo "$ID demo patched rc=$? $(tail -1 $T/o)"
cd /verif; for c in ${@:-$P}; do VERIF_REPO=$R timeout 900 python3 vf/run.py $c quick >$T/o 2>&1; echo "$ID check $c rc=$? $(grep -m1 VIOLATION $T/o | cut -c1-120)"; done
