#!/bin/bash
# Development: every repaired defect has to be reported when its fix is undone.
# tools/reversals.sh [pattern]; uses a scratch worktree of /repo.
W=/tmp/reversal
rm -rf /tmp/reversal; git -C /repo worktree prune
git -C /repo worktree add -q --detach $W HEAD || exit 1
grep '^fixed:' /verif/known_findings.txt | grep "${1:-.}" | while read -r _ prop hash what; do
  id=${prop#property=}
  git -C $W checkout -q -f HEAD -- . ; git -C $W reset -q --hard
  if ! git -C /repo show "$hash" | git -C $W apply -R --3way - 2>/dev/null; then
    echo "$id $hash CONFLICT $what"; git -C $W reset -q --hard; continue
  fi
  git -C $W reset -q
  out=$(cd /verif && VERIF_REPO=$W python3 run.py "$id" 2>&1 | grep -c "^VIOLATION property=$id")
  if [ "$out" -gt 0 ]; then r=caught; else r=MISSED; fi
  echo "$id $hash $r $what"
done
git -C /repo worktree remove --force $W
