#!/bin/bash
# seedtest.sh SEED...: validates planted bugs in scratch copies of /repo and runs their property's check on them.
. /verif/env.sh
for id in "$@"; do
  s=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  w=$(mktemp -d /tmp/seedw.XXXXXX); cp -a /repo/. $w/; dd=$(mktemp -d /tmp/seedd.XXXXXX)
  cp -a $s/. $dd/; rm -f $dd/patch.diff $dd/meta.json
  ( cd $w; bash $dd/demo.sh >$dd/clean.log 2>&1 ); c=$?
  ( cd $w; git apply $s/patch.diff ) || echo "$id PATCH DOES NOT APPLY"
  ( cd $w; go build ./... >$dd/build.log 2>&1 ); b=$?
  ( cd $w; go test -count=1 -run 'TestSettingsJSON_ParseSettingsJSON|TestAsByteArray|TestAsUInt32Array|TestBuild' . ./dartsclone >$dd/test.log 2>&1 ); t=$?
  ( cd $w; timeout 300 bash $dd/demo.sh >$dd/bug.log 2>&1 ); d=$?
  t0=$(date +%s)
  out=$(cd /verif; timeout 900 bin/gosym -repo $w -tier ${TIER:-quick} check $prop 2>&1); rc=$?
  v=$(echo "$out" | grep -c "^VIOLATION property=$prop ")
  ok=BAD; [ $c = 0 ] && [ $b = 0 ] && [ $t = 0 ] && [ $d != 0 ] && ok=valid
  k=MISSED; [ $rc = 1 ] && [ $v -gt 0 ] && k=caught
  echo "$id $prop $ok (clean=$c build=$b test=$t bug=$d) $k rc=$rc $(( $(date +%s) - t0 ))s"
  [ $ok = BAD ] && for f in clean build test bug; do tail -n 5 $dd/$f.log; done
  [ $k = MISSED ] && echo "$out" | tail -5
  rm -rf "$w" "$dd"
done
