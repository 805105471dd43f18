#!/bin/bash
# trybug.sh ID…: applies each planted bug to /repo, runs its property's check, undoes it
for i in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])"); P=${PROP:-$P}
  git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
  git -C /repo apply /verif/seeded/$i/patch.diff
  echo "$i: $(cd /verif && timeout 900 python3-vt vc/run.py $P 2>&1 | tail -${L:-3} | cut -c1-${W:-260} | tr '\n' '|')"
  git -C /repo checkout -q -- .
done
