#!/bin/bash
# runseeds.sh [id...]: applies each planted bug to a scratch copy of /repo and runs its property's check there. (development only)
cd /verif/seeded || exit 2
. /opt/vp/env.sh
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
(cd /verif/govc && GOFLAGS=-mod=vendor go build -o $W/govc .) || exit 2
for id in ${@:-*}; do
  [ -f $id/patch.diff ] || continue
  p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  rm -rf "$W/r"; cp -a /repo "$W/r"
  git -C "$W/r" apply /verif/seeded/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  s=$(date +%s); out=$(VERIF_SEED=1 $W/govc -repo "$W/r" -spec /verif/spec -evidence "$W" -known /verif/known-findings.json -prop $p 2>&1); rc=$?; e=$(date +%s)
  v=$(grep '^VIOLATION' <<< "$out" | cut -c1-120)
  echo "$id rc=$rc $((e-s))s $v | $(grep -E '^  verify' <<< "$out" | head -2 | cut -c1-160 | tr '\n' ';')"
done
