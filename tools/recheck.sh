#!/bin/bash
# recheck.sh ID...: apply each seeded change in a scratch worktree and run its property's check
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  wt=/tmp/wt_re_$id
  git -C /repo worktree add -f -q --detach $wt HEAD && git -C $wt apply $d/patch.diff
  echo "== $id $p"; VERIF_REPO=$wt timeout 900 /verif/check $p 2>&1 | egrep "VIOLATION|holds|FAILED|disagree" | tail -2
  git -C /repo worktree remove --force $wt
done
