#!/bin/bash
# Confirms a planted bug: tools/seedcheck.sh ID... (or all). In a copy of /repo the demo passes
# without the patch; with it everything builds, the stable tests pass and the demo fails.
# usage: seedcheck.sh [--fast] ID... ; --fast skips the test suite
fast=; [ "$1" = --fast ] && { fast=1; shift; }
here=$(dirname "$(dirname "$(realpath "$0")")")
repo=${SEED_REPO:?a copy of /repo} build=${SEED_BUILD:?} test=${SEED_TEST:?}
lock=/tmp/seedcheck.lock; exec 9>$lock; flock 9
for id in "$@"; do
  d=$here/seeded/$id; t=$(mktemp -d /tmp/demo.XXXXXX); cp -a $d/. $t/; rm -f $t/patch.diff $t/meta.json
  git -C $repo diff --quiet || { echo "repo is not clean"; exit 2; }
  bash $build >/tmp/sc.build 2>&1 || { echo "$id: base build failed"; continue; }
  (cd $repo && timeout 300 bash $t/demo.sh >/tmp/sc.demo0 2>&1); r0=$?
  if ! git -C $repo apply --check $d/patch.diff; then echo "$id: does not apply"; rm -rf "$t"; continue; fi
  git -C $repo apply $d/patch.diff
  b=ok; bash $build >/tmp/sc.build 2>&1 || b=FAILED
  (cd $repo && timeout 300 bash $t/demo.sh >/tmp/sc.demo1 2>&1); r1=$?
  tests=skipped
  if [ -z "$fast" ]; then bash $test /tmp/sc.json >/tmp/sc.test 2>&1; tests=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/sc.json'));m=[t for t in b if t not in o['passed']]
print('ok' if not m else 'FAILED '+' '.join(m))
P
); fi
  git -C $repo checkout -- .
  bash $build >/dev/null 2>&1
  echo "$id: demo unpatched $r0, patched $r1, build $b, tests $tests"
  rm -rf "$t"
done
