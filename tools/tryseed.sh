#!/bin/bash
# tryseed.sh [-d|-c] ID...: confirm planted changes, each in its own copy of /repo bound over /repo in a private mount
# namespace: builds, tests pass, demo fails with / passes without.  -c: check only, -d: demo only
M=; case "$1" in -d|-c) M=$1; shift;; esac
for id in "$@"; do
  W=$(mktemp -d /tmp/seedtry.XXXXXX); cp -a /repo $W/repo; mkdir $W/work $W/ev; 
  unshare -Urm bash -c '
  M=$1; id=$2; W=$3; mount --bind $W/repo /repo; mkdir -p /var/tmp/vpwork /verif/evidence; mount --bind $W/work /var/tmp/vpwork; mount --bind $W/ev /verif/evidence
  cd /repo; git checkout -q -- .; s=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open(\"$s/meta.json\"))[\"property\"])")
  if [ "$M" != -c ]; then bash $s/demo.sh >$W/demo0 2>&1; r0=$?; fi
  git apply $s/patch.diff || { echo "$id no apply"; exit; }
  if [ "$M" != -c ]; then
  bash /opt/vp/test.sh $W/ts.json >$W/ts.log 2>&1
  t=$(python3 -c "
import json;b=json.load(open(\"/opt/vp/BASELINE.json\"));o=json.load(open(\"$W/ts.json\"))
print([x for x in b[\"stable\"] if x not in o[\"passed\"]])")
  bash /opt/vp/build.sh >>$W/ts.log 2>&1 || echo "$id full build fails"
  bash $s/demo.sh >$W/demo1 2>&1; r1=$?
  echo "$id prop=$p base_demo=$r0 patched_demo=$r1 tests_missing=$t"; fi
  if [ "$M" != -d ]; then cd /verif; timeout 900 python3-vt check.py $p >$W/chk 2>&1; rc=$?; echo "$id check $p rc=$rc: $(grep -a "VIOLATION\|UNDECIDED" $W/chk | cut -c1-220 | head -4)"; fi
  ' x "$M" "$id" "$W"
  rm -rf "$W"
done
