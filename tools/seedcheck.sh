#!/bin/bash
# seedcheck.sh [ID...]: run each planted bug's own check against a copy of /repo with the bug applied
cd "$(dirname "$0")/.."
[ $# = 0 ] && set -- $(ls seeded)
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  d=$(mktemp -d /tmp/seed.XXXX); mkdir "$d/repo"; cp -a /repo/cocotbext "$d/repo/"
  (cd "$d/repo" && patch -s -p1 < /verif/seeded/$s/patch.diff)
  PBT_OUT=$d PBT_REPO=$d/repo VERIF_SEED=${VERIF_SEED:-1} python3-vt -m pbt.run $p quick > $d/log 2>&1
  echo "$s $p rc=$? $(grep -h VIOLATION $d/log | head -1 | cut -c1-60)"
  rm -rf "$d"
done
