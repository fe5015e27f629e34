#!/bin/bash
# tools/runbug.sh BUGID [CHECK...] : apply the planted bug to /repo, run the check(s) (default: its property), undo.
cd /verif; b=$1; shift
D=/verif/seeded/$b; [ -d $D ] || D=/verif/more_bugs/$b
checks="$*"; [ -z "$checks" ] && checks=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
git -C /repo apply $D/patch.diff || exit 2
for c in $checks; do
  VERIF_TIER=quick bash run.sh $c > /tmp/bug.$b.$c.log 2>&1; rc=$?
  echo "$b $c rc=$rc $(grep -c '^VIOLATION' /tmp/bug.$b.$c.log) $(grep -A1 '^---' /tmp/bug.$b.$c.log | sed -n 2p | cut -c1-200)"
done
git -C /repo checkout -- .
