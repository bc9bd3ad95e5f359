#!/bin/bash
# try.sh ID [PROP]: runs the property's check against the planted bug (in a scratch copy through REPO_DIR)
ID=$1; S=/verif/seeded/$ID; P=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
W=/tmp/try.$$; cp -a /repo $W; cd $W && git apply $S/patch.diff; cd /verif
cp /verif/evidence/$P.json /tmp/ev.$$ 2>/dev/null
REPO_DIR=$W VERIF_DIR=/verif VERIF_SEED=1 VERIF_TIER=quick ./check.sh $P > /tmp/try.out.$ID; RC=$?
cp /tmp/ev.$$ /verif/evidence/$P.json 2>/dev/null
echo "$ID $P rc=$RC $(grep -c '^FAILED\|/main\|/' /tmp/try.out.$ID) | $(grep VIOLATION /tmp/try.out.$ID) | $(tail -1 /tmp/try.out.$ID)"
rm -rf $W
