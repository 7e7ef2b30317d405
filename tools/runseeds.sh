#!/bin/bash
# runs the check of each (named) seed's property on a scratch copy of /repo with the patch; -a: all checks
cd "$(dirname "$0")/.."; V=$PWD
T=$(mktemp -d)
git clone -q --shared ${VP_REPO:-/repo} $T/repo
for d in ${@:-seeded/* mutants/*}; do
  s=$(basename $d); d=$(ls -d $V/seeded/$s $V/mutants/$s 2>/dev/null)
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C $T/repo checkout -q -- .
  git -C $T/repo apply $d/patch.diff || echo "does not apply"
  t0=$(date +%s)
  (cd $V; VP_REPO=$T/repo VP_CACHE=$T/cache VP_EVIDENCE=$T/ev timeout 900 python3 check.py $p > $T/out 2>&1); rc=$?
  echo "$s $p rc=$rc $(( $(date +%s) - t0 ))s $(grep -c '^VIOLATION property='$p $T/out) violation lines"
  [ $rc != 1 ] && tail -5 $T/out
  rm -rf $T/cache
done
rm -rf $T
