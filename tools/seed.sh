#!/bin/bash
# seed.sh ID...: confirm seeded changes (baseline tests pass, demo separates) and show what the property's check says
cd /repo
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "/repo not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  if [ -z "$SKIPDEMO" ]; then bash $d/demo.sh >/tmp/seed.demo0 2>&1; d0=$?; else d0=-; fi
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ -z "$SKIPTEST" ]; then t=$(bash /verif/tools/rt.sh 2>&1 | tail -1); else t=skipped; fi
  if [ -z "$SKIPDEMO" ]; then bash $d/demo.sh >/tmp/seed.demo1 2>&1; d1=$?; else d1=-; fi
  (cd /verif && timeout 900 python3 tools/check.py $p >/tmp/seed.$id.check 2>&1); c=$?
  git checkout -q -- .
  echo "$id [$p]: demo clean=$d0 patched=$d1; tests: $t; check exit=$c $(grep -m1 -A1 VIOLATION /tmp/seed.$id.check | tail -1 | cut -c1-200)"
done
