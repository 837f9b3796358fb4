#!/bin/bash
# tools/plant.sh ID...: (development aid) runs the property's quick check on a scratch copy of /repo with the planted bug,
# and the demo on both trees.
for id in "$@"; do
  S=/verif/seeded/$id; W=/tmp/plant.$$
  prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  cp -a /repo $W
  (cd $W && git apply $S/patch.diff) || { echo "$id: does not apply"; rm -rf /tmp/plant.$$; continue; }
  if [ "$NODEMO" = "" ]; then
  (cd /repo && timeout 300 bash $S/demo.sh > /tmp/plant.d0 2>&1); a=$?
  (cd $W && timeout 300 bash $S/demo.sh > /tmp/plant.d1 2>&1); b=$?
  fi
  (cd /verif && MC_REPO=$W timeout 900 python3 tools/check.py $prop quick > /tmp/plant.c 2>&1); c=$?
  echo "$id $prop: demo clean=$a planted=$b check=$c $(grep -m1 VIOLATION-DETAIL /tmp/plant.c | cut -c1-200)"
  rm -rf /tmp/plant.$$
done
