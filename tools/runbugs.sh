#!/bin/bash
# runbugs.sh [id...]: runs the check of each seeded bug's property (or those in $PROPS) against a scratch copy with it
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/rb.XXXXXX)
  git -C /repo archive HEAD | tar -x -C $w
  (cd $w && patch -p1 -s) < seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  for q in ${PROPS:-$p}; do
  VERIF_REPO=$w VERIF_SEED=${VERIF_SEED:-1} python3 bin/check.py $q > $w/rb.out 2>&1; rc=$?
  echo "$d $q rc=$rc $(grep -h 'violation class' $w/rb.out) $(grep -c '^VIOLATION property='$q $w/rb.out) :: $(grep -A1 'violation class' $w/rb.out | tail -1 | cut -c1-200) $(grep ERROR $w/rb.out | cut -c1-300)"
  done
  case $w in /tmp/rb.*) rm -rf "$w";; esac
done
