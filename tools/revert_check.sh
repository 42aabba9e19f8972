#!/bin/bash
# revert_check.sh COMMIT ID...: run checks against a copy of /repo with one fix reverted
c=$1; shift
d=$(mktemp -d /tmp/rev.XXXX); cp -a /repo "$d/repo"
if ! git -C $d/repo revert -n $c >/dev/null 2>&1; then echo "$c: revert conflicts"; rm -rf "$d"; exit 2; fi
cd "$(dirname "$0")/.."
for p in "$@"; do echo "$c $p: $(PBT_OUT=$d PBT_REPO=$d/repo python3-vt -m pbt.run $p quick | tail -1)"; done
rm -rf "$d"
