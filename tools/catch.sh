#!/bin/bash
# catch.sh [-a] id...: run the check of each planted bug (or with -a all checks) against a scratch copy with the bug applied
ALL=; [ "$1" = -a ] && { ALL=1; shift; }
one() {
  id=$1; W=$(mktemp -d /tmp/catchXXXX); git clone -q /repo $W/r
  git -C $W/r apply /verif/seeded/$id/patch.diff || echo "$id DOES NOT APPLY"
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  for p in ${ALL:+$(python3 -c "import json;print(*[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])" 2>/dev/null)} $P; do
    t=$(date +%s); out=$(EVDIR=$W VERIF_EVIDENCE=$W timeout 900 python3 /verif/check.py $p --tier quick --repo $W/r 2>&1); rc=$?
    echo "$id $p rc=$rc $(($(date +%s)-t))s $(echo "$out" | grep -m1 -E 'VIOLATION|rror' | cut -c1-150)"
    [ -n "$ALL" ] && [ $p = $P ] && break
  done
  rm -rf $W
}
export -f one; export ALL
printf '%s\n' "$@" | xargs -P 7 -I{} bash -c 'one {}'
