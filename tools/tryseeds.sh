#!/bin/bash
# demos of all (or the named) seeds on a scratch copy of /repo without and with the patch (no build, no tests)
cd "$(dirname "$0")/.."; V=$PWD
T=$(mktemp -d)
git clone -q --shared ${VP_REPO:-/repo} $T/repo
for d in ${@:-seeded/* mutants/*}; do
  s=$(basename $d); d=$(ls -d $V/seeded/$s $V/mutants/$s 2>/dev/null)
  git -C $T/repo checkout -q -- .
  (cd $T/repo && timeout 300 bash $d/demo.sh > $T/o1 2>&1); a=$?
  git -C $T/repo apply $d/patch.diff || echo "does not apply"
  (cd $T/repo && timeout 300 bash $d/demo.sh > $T/o2 2>&1); b=$?
  echo "$s clean=$a patched=$b  $(grep -m1 FAILED $T/o2)"
  [ $a != 0 ] && tail -5 $T/o1
  [ $b = 0 -o $b = 3 ] && tail -5 $T/o2
done
rm -rf $T
