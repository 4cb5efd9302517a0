#!/bin/bash
# apply every planted bug to a scratch copy of the headers and run its property's check (and print others given)
cd /verif
one() {
  id=$1; d=$(mktemp -d /tmp/rs.XXXX); mkdir -p $d/r; cp -r /repo/include /repo/scripts $d/r/
  (cd $d/r && git init -q . && git apply /verif/seeded/$id/patch.diff) || { echo "$id: patch does not apply"; rm -rf $d; return; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  out=$(VERIF_REPO=$d/r VERIF_EVID=$d/ev python3 check.py $p 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$out" | grep -A1 -m1 -E '^  [A-Za-z]|BROKEN|UNDEC' | tr -s ' \n' ' ' | cut -c1-${W:-200})"
  rm -rf $d
}
export -f one
ids=${@:-$(ls seeded)}
printf '%s\n' $ids | xargs -P4 -I{} bash -c 'one {}'
