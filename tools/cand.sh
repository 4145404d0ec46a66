#!/bin/bash
# cand.sh ID...: like seed.sh, in a scratch copy of /repo (in $SCRATCH, default /tmp/w/sc), so that /repo is left alone
S=${SCRATCH:-/tmp/w/sc}
[ -d $S ] || { mkdir -p $(dirname $S); cp -a /repo $S; git -C $S checkout -q -- .; }
cd $S && git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD && git checkout -q -- .
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash $d/demo.sh >/tmp/cand.demo0 2>&1; d0=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash $d/demo.sh >/tmp/cand.demo1 2>&1; d1=$?
  cargo test --workspace --all-features --no-fail-fast --offline >/tmp/cand.$id.test 2>&1; a=$?
  cargo test -p midi2 --all-targets --no-default-features --no-fail-fast --offline >>/tmp/cand.$id.test 2>&1; b=$?
  (cd /verif && VERIF_REPO=$S timeout 900 python3 tools/check.py $p >/tmp/cand.$id.check 2>&1); c=$?
  git checkout -q -- .
  echo "$id [$p]: demo clean=$d0 patched=$d1; tests=$a/$b failed: $(grep -c 'FAILED$' /tmp/cand.$id.test) $(grep 'FAILED$' /tmp/cand.$id.test | head -3 | tr '\n' ' '); check exit=$c $(grep -m1 -A1 VIOLATION /tmp/cand.$id.check | tail -1 | cut -c1-200)"
done
