#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
. ./env.sh
need=0
[ -x bin/gosym ] || need=1
[ $need = 0 ] && [ -n "$(find gosym -newer bin/gosym \( -name '*.go' -o -name go.mod -o -name go.sum \) -print -quit)" ] && need=1
if [ $need = 1 ]; then
  mkdir -p bin && (cd gosym && go build -o ../bin/gosym .) || exit 2
fi
exec bin/gosym -tier "${2:-${VERIF_TIER:-quick}}" check "$1"
