#!/bin/bash
# Usage: revert.sh COMMIT PID...  Does the check see the defect come back?
set -e
d=$(mktemp -d /tmp/revert.XXXX)
git -C /repo worktree add -q --detach "$d/r" HEAD
(cd "$d/r" && git revert -n "$1" 2>/dev/null || { git checkout -q "$1" -- . ; git checkout -q "$1~1" -- . ; })
for p in "${@:2}"; do
  (cd "$(dirname "$0")/.." && CGPM_ROOT=$d/r ./check "$p" 2>&1 | grep -v KNOWN | tail -3 | cut -c1-200)
done
git -C /repo worktree remove --force "$d/r"
rm -rf "$d"
