#!/bin/bash
# revert.sh COMMIT PROP...: does the check report the defect again when the fix is reverted?
set -e
d=/tmp/rv-$$; mkdir $d
git -C /repo worktree add -q --detach $d/r HEAD
git -C $d/r revert --no-edit -n $1 >/dev/null 2>&1 || { echo "$1 CONFLICT"; git -C /repo worktree remove --force $d/r; rmdir $d; exit 0; }
for p in "${@:2}"; do
  VERIF_REPO=$d/r python3 /verif/check.py $p 2>/dev/null | grep -E "^C[0-9]+:" | cut -c1-200 | sed "s/^/$1 /"
done
git -C /repo worktree remove --force $d/r; rmdir $d
