#!/bin/bash
# seedtest.sh ID... : in a private mount namespace with a patched copy of /repo: existing tests, demonstration, and the property's check.
# ONLY=demo skips the tests; CHECKS="C01 C02" runs other checks
for id in "$@"; do
d=/verif/seeded/$id; w=$(mktemp -d /tmp/seedtest-XXXXXX); cp -a /repo $w/r
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
( cd /repo && bash $d/demo.sh > $w/demo0 2>&1 ) ; echo "$id [$prop] demo on unchanged tree: rc=$?"
( cd $w/r && git apply $d/patch.diff ) || { echo "$id patch does not apply"; continue; }
base="unshare -m bash -c"
unshare -m bash -c "mount --bind $w/r /repo && cd /repo && bash $d/demo.sh" > $w/demo1 2>&1; echo "$id demo with the change: rc=$? $(tail -1 $w/demo1 | cut -c1-150)"
if [ -z "$ONLY" ]; then unshare -m bash -c "mount --bind $w/r /repo && bash /opt/vp/test.sh $w/o.json" > $w/t 2>&1; python3 - <<P
import json; a=json.load(open('$w/o.json')); b=json.load(open('/opt/vp/BASELINE.json')); p=set(a['passed'])
base=b.get('stable') or b.get('passed') or b.get('tests'); m=[t for t in base if t not in p]; print('$id tests: passed',len(p),'stable missing',len(m),m[:3])
P
fi
for c in ${CHECKS:-$prop}; do
unshare -m bash -c "mount --bind $w/r /repo && cd /verif && python3 harness/check.py $c ${TIER:-quick}" > $w/c 2>&1; rc=$?; echo "$id CHECK $c rc=$rc $(grep -m1 VIOLATION $w/c | cut -c1-150)"; [ $rc = 2 ] && tail -3 $w/c; done
rm -rf $w; done
