#!/bin/bash
# try_seeded.sh [ID ...]: runs the check of the property of each planted bug against a patched scratch copy of /repo
# (bound over /repo in a mount namespace of its own, so that neither /repo nor /verif/evidence is touched).
# CHECKS="C01 C02" overrides which checks are run.
HERE=$(cd "$(dirname "$0")/.." && pwd)
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls "$HERE/seeded"))
for id in "${ids[@]}"; do
  W=$(mktemp -d /tmp/seeded.XXXXXX)
  cp -a /repo "$W/repo"; mkdir "$W/evidence"
  git -C "$W/repo" apply "$HERE/seeded/$id/patch.diff" || { echo "$id DOES NOT APPLY"; rm -rf "$W"; continue; }
  for c in ${CHECKS:-$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$HERE/seeded/$id/meta.json")}; do
    out=$(unshare -Urm bash -c "mount --bind $W/repo /repo && mount --bind $W/evidence $HERE/evidence && cd $HERE && VERIF_SEED=${VERIF_SEED:-1} ./run.py $c" 2>&1)
    rc=$?
    if [ $rc -eq 1 ] && grep -q "^VIOLATION property=$c " <<<"$out"; then echo "$id $c caught ($(grep -c '^VIOLATION' <<<"$out") kinds)"
    else echo "$id $c MISSED rc=$rc $(tail -1 <<<"$out")"; fi
  done
  rm -rf "$W"
done
