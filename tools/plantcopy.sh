#!/bin/bash
# plantcopy.sh ID...: quick confirmation in a scratch copy of /repo (build, tests, demo with and without the patch).
. /opt/vp/env.sh 2>/dev/null
W=/tmp/plantcopy
export CARGO_TARGET_DIR=$W/target
[ -d $W ] || cp -a /repo $W
cd $W || exit 2
git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
run() { cargo test --workspace --no-fail-fast --offline -- --test-threads 8 >/tmp/plantcopy.log 2>&1; }
for id in "$@"; do
  d=/verif/seeded/$id
  git apply $d/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  if run; then t=ok; else t="TESTS-FAIL $(grep -E '^test .*FAILED|^error' /tmp/plantcopy.log | head -3 | tr '\n' ';')"; fi
  bash $d/demo.sh >/tmp/plantcopy.demo 2>&1; p=$?
  git checkout -q -- .
  cargo test --workspace --no-run --offline >/dev/null 2>&1
  bash $d/demo.sh >/tmp/plantcopy.demo0 2>&1; c=$?
  s=OK; [ "$t" = ok ] && [ $p != 0 ] && [ $p != 2 ] && [ $c = 0 ] || s=BAD
  echo "$id $s tests=$t demo(patched)=$p demo(clean)=$c"
done
