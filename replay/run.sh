#!/bin/bash
# usage: run.sh PROP [quick|thorough]  -- runs the real code of $REPO_DIR against the independent oracles in this folder
. /dev/null
PROP=$1; TIER=${2:-quick}
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO_DIR:-/repo}
export GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOTOOLCHAIN=local GOSUMDB=off
D=$(mktemp -d /tmp/vreplay.XXXXXX) || exit 3
trap 'rm -r "$D"' EXIT
cp "$HERE"/*.go "$D"/
cat > "$D/go.mod" <<M
module vreplay

go 1.21

require github.com/dufourgilles/emberlib v0.0.0

replace github.com/dufourgilles/emberlib => $REPO
M
cd "$D" || exit 3
if ! go build -o vreplay . >build.log 2>&1; then
  echo "VERIF-NOBUILD $(head -c 1500 build.log | tr '\n' ' ')"
  exit 3
fi
ulimit -v 16000000
VERIF_TIER=$TIER timeout -k 5 ${REPLAY_TIMEOUT:-800} ./vreplay "$PROP" >out.txt 2>err.txt
RC=$?
cat out.txt
if ! grep -q '^VERIF-STATS' out.txt; then
  # the process died (stack or memory exhausted, fatal error): the same seed again, noting each case before it runs
  VREPLAY_TRACE=$D/case VERIF_TIER=$TIER timeout -k 5 ${REPLAY_TIMEOUT:-400} ./vreplay "$PROP" >/dev/null 2>err2.txt
  if [ -s "$D/case" ] && ! [ $RC = 124 ]; then
    echo "VERIF-FAIL the process died: $(head -c 300 err.txt | tr '\n' ' ') on $(head -c 1200 "$D/case" | tr '\n' ' ')"
    echo 'VERIF-STATS {"evaluations":1,"distinct_nontrivial":1,"failures":1}'
    exit 1
  fi
  head -c 1500 err.txt
fi
exit $RC
