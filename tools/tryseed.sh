#!/bin/bash
# tryseed.sh ID [PROP...]: run the property's check (or those named) against a planted bug, in a scratch copy.
id=$1; shift
props="$@"
[ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
t=$(mktemp -d /tmp/try-XXXX)
cp -a /repo $t/repo
git -C $t/repo apply /verif/seeded/$id/patch.diff || exit 3
mkdir -p $t/v; cp -a /verif/contracts /verif/replay /verif/known-findings.txt $t/v/
for p in $props; do
  GOVER_REPO=$t/repo GOVER_VERIF=$t/v /verif/bin/gover check $SEEDFLAGS $p > $t/out 2>&1
  rc=$?
  echo "== $id $p rc=$rc"; grep -E "VIOLATION|failed obl|failing input|bounded|driver did" $t/out | cut -c1-${W:-260} | head -${N:-8}; tail -1 $t/out | cut -c1-200
done
rm -rf $t
