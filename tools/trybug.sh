#!/bin/bash
# trybug.sh <seeded id> <property>...: run checks against /repo with the planted bug, then restore
set -e
[ -z "$(git -C /repo status --porcelain)" ]
b=/verif/seeded/$1; shift
trap 'git -C /repo checkout -q -- .' EXIT
git -C /repo apply $b/patch.diff
for p in "$@"; do python3-vt /verif/run_check.py $p || true; done
