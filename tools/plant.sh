#!/bin/bash
# plant.sh ID...: confirm planted bugs in a scratch copy (builds, tests pass,
# demo passes without and fails with the patch), then run the property's check
# on /repo with the patch applied and undo it.
for id in "$@"; do
  d=/verif/seeded/$id
  s=$(mktemp -d /tmp/plant.XXXXXX)
  git -C /repo worktree add -q --detach $s/r HEAD
  demo=$(mktemp -d /tmp/demo.XXXXXX); cp -r $d/. $demo; rm -f $demo/*.diff $demo/meta.json
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd $s/r; timeout 300 bash $demo/demo.sh >$s/o0 2>&1); a=$?
  (cd $s/r; git apply $d/patch.diff && go test -vet=off -count=1 ./delivery ./transports >$s/ot 2>&1); t=$?
  # TestFailedReconstructPanic fails every few runs on the original code too
  if [ $t != 0 ]; then x=$(grep -a -- '--- FAIL' $s/ot | grep -v FailedReconstructPanic); [ -z "$x" ] && grep -qa -- '--- FAIL' $s/ot && t=0; echo "$x" | head -3; fi
  (cd $s/r; timeout 300 bash $demo/demo.sh >$s/o1 2>&1); b=$?
  [ $a != 0 ] && tail -5 $s/o0; [ $t != 0 ] && grep -a "_test.go\|FAIL" $s/ot | cut -c1-200 | tail -5
  c=-
  if [ -z "$NOCHECK" ]; then
    git -C /repo apply $d/patch.diff
    (cd /verif; timeout 900 python3 check.py $prop > $s/oc 2>&1); c=$?
    git -C /repo checkout -q -- .
    grep -c VIOLATION $s/oc >/dev/null && grep -v '^VIOLATION\|quick seed' $s/oc | cut -c1-200 | head -2
    [ $c = 2 ] && tail -5 $s/oc | cut -c1-300
  fi
  echo "$id property=$prop demo-clean=$a tests=$t demo-bug=$b check=$c"
  git -C /repo worktree remove --force $s/r; rm -rf "$s" "$demo"
done
