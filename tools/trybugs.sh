#!/bin/bash
# usage: trybugs.sh [ID...]   run the check of each planted bug's property against a scratch copy of /repo with the bug.
cd "$(dirname "$0")/.."
for i in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  w=/tmp/trybug_$i
  git -C /repo worktree add -q --detach $w HEAD || continue
  if git -C $w apply $PWD/seeded/$i/patch.diff; then
    s=$(date +%s)
    o=$(VERIF_REPO=$w timeout 900 ./check $p 2>&1); r=$?
    echo "$i $p exit=$r $(( $(date +%s) - s ))s $(echo "$o" | grep -c "^VIOLATION property=$p")" "$(echo "$o" | grep -B2 ^VIOLATION | head -1 | cut -c1-150)"
  else echo "$i PATCH DOES NOT APPLY"; fi
  git -C /repo worktree remove --force $w
done
