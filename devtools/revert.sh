#!/bin/bash
# revert.sh COMMIT "PROPS" [extra run.py args]: run checks on a copy of /repo with one fix commit reverted
X=$(mktemp -d /tmp/rev.XXXX); git -C /repo worktree add -f "$X/r" HEAD -q --detach 2>/dev/null || exit 9
cd $X/r
if git diff $1 $1~1 | git apply --3way - 2>/dev/null || git revert -n $1 2>/dev/null; then
 for p in $2; do echo "== $1 $p"; (cd /verif; PYCOLD_REPO=$X/r timeout 900 /opt/pycold-venv/bin/python run.py --property $p $3 2>&1 | tail -4); done
else echo "$1: does not revert cleanly"; fi
git -C /repo worktree remove --force $X/r; /bin/rm -rf "$X"
