#!/bin/bash
# mk.sh ID PROP "needs" "breaks" : the change is the diff in /tmp/x/repo (against HEAD), the demo /tmp/x/demo.rs (main only).
# Confirms: builds, stable tests pass, demo fails with it and passes without; then stores /verif/seeded/ID.
id="$1"; d=/verif/seeded/$id; x=${X:-/tmp/w}
cd $x/repo || exit 1; [ -z "$CAND" ] || { git checkout -q -- . ; git apply $CAND || exit 1; }
git diff > $x/patch.diff; [ -s $x/patch.diff ] || { echo "empty patch"; exit 1; }
mkdir -p $x/seed; cp ${DEMO:-/verif/tools/seed/demo.sh} $x/seed/demo.sh; cat /verif/tools/seed/prelude.rs $PRE $x/demo.rs > $x/seed/demo.rs
bash $x/opt/build.sh > $x/build.log 2>&1 || { echo "DOES NOT BUILD"; tail -20 $x/build.log; exit 1; }
bash $x/opt/test.sh $x/o.json > /dev/null 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$x/o.json'))

m=set(b['stable'])-set(o['passed'])
print('tests missing:',sorted(m)[:8])
import sys; sys.exit(1 if m else 0)
P
[ $? = 0 ] || { echo "TESTS FAIL"; exit 1; }
bash $x/seed/demo.sh 2>&1 | cut -c1-300 | tail -5; rc=${PIPESTATUS[0]}; echo "demo with change: $rc"
git stash -q; bash $x/seed/demo.sh; r0=$?; git stash pop -q; echo "demo without: $r0"
[ $rc != 0 ] && [ $r0 = 0 ] || { echo "DEMO WRONG"; exit 1; }
mkdir -p $d; cp $x/patch.diff $d/patch.diff; cp $x/seed/demo.sh $x/seed/demo.rs $d/
python3 -c "import json,sys; json.dump({'property':sys.argv[1],'needs':sys.argv[2],'what_it_breaks':sys.argv[3]},open('$d/meta.json','w'),indent=1)" "$2" "$3" "$4"
git checkout -q -- . ; echo "KEPT $id"
