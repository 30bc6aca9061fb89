#!/bin/bash
# try.sh SEEDID CHECK... : run checks of a copy of /verif against a copy of /repo with the seeded change
x=/tmp/x; id=$1; shift
cd $x/repo && git checkout -q -- . && git pull -q /repo HEAD 2>/dev/null; git reset -q --hard $(git -C /repo rev-parse HEAD)
[ "$id" = none ] || git apply /verif/seeded/$id/patch.diff || exit 1
mkdir -p $x/verif; rsync -a --delete --exclude .git --exclude seeded --exclude 'target*' --exclude evidence --exclude replays /verif/ $x/verif/
mkdir -p $x/verif/evidence $x/verif/replays
for c in "$@"; do s=$(date +%s); $x/verif/check.sh $c > $x/out.$c 2>&1; rc=$?; echo "$id $c rc=$rc $(($(date +%s)-s))s $(grep -c ^VIOLATION $x/out.$c) viol: $(grep -v '^VIOL\|^KNOWN\|^    ' $x/out.$c | head -2 | cut -c1-200 | tr '\n' '|')"; done
cd $x/repo && git checkout -q -- .
