#!/bin/bash
# Runs the check of a planted bug's property against it: tools/seedrun.sh ID...
here=$(dirname "$(dirname "$(realpath "$0")")")
repo=${SEED_REPO:?a copy of /repo}
exec 9>/tmp/seedcheck.lock; flock 9
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")
  git -C $repo diff --quiet || { echo "repo is not clean"; exit 2; }
  git -C $repo apply $here/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  (cd $here; VERIF_REPO=$repo python3 check.py $p --tier quick > /tmp/sr.out 2>&1); rc=$?
  git -C $repo checkout -- .
  echo "$id ($p): exit $rc; $(grep -c '^VIOLATION' /tmp/sr.out) violations; $(grep -v '^VIOLATION' /tmp/sr.out | head -1 | cut -c1-200)"
done
