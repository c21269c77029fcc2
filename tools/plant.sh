#!/bin/bash
# plant.sh <id> [check-property…]: development aid. Confirms that the planted bug seeded/<id> builds, passes the
# stable tests and is told apart by its demo, then runs the property's check (or the given ones) against it. Works on a scratch copy of
# /repo placed at /repo's own path only while it runs (git apply / git checkout).
cd /verif; id=$1; d=seeded/$id; shift
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
props=${*:-$prop}
t=$(mktemp -d /tmp/plant.XXXXXX); cp $d/* $t; rm -f $t/*.diff $t/meta.json
undo() { git -C /repo checkout -q -- .; }
trap 'undo; rm -rf "$t"' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo && timeout 300 bash $t/demo.sh >$t/clean.log 2>&1); a=$?
git -C /repo apply /verif/$d/patch.diff || { echo "$id: patch does not apply"; exit 2; }
bash /opt/vp/build.sh >$t/build.log 2>&1 || { echo "$id: does not build"; cat $t/build.log; exit 2; }
bash /opt/vp/test.sh $t/out.json >/dev/null 2>&1
lost=$(python3 - $t/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def passed(x):
    if isinstance(x,dict):
        for k in ('passed','stable','tests','stable_tests'):
            if k in x: return set(x[k]) if not isinstance(x[k],dict) else {n for n,v in x[k].items() if v in('pass','passed',True)}
    return set(x)
print(' '.join(sorted(passed(b)-passed(o))))
P
)
(cd /repo && timeout 300 bash $t/demo.sh >$t/bug.log 2>&1); b=$?
[ $a = 0 ] || { echo "$id: demo fails on the clean tree"; tail -5 $t/clean.log; }
[ $b != 0 ] || echo "$id: demo passes with the bug"
[ -z "$lost" ] || echo "$id: tests lost: $lost"
for p in $props; do
s=$(date +%s); timeout 900 ./check.sh $p quick >$t/chk.log 2>&1; r=$?
if [ $a = 0 ] && [ $b != 0 ] && [ -z "$lost" ]; then
n=$(grep -o 'no-failing-input-found' $t/chk.log | head -1)
sed -i "/^$id $p /d;/^$id check $p/d" tools/caught.txt 2>/dev/null; echo "$id check $p: $([ $r = 1 ] && echo "caught${n:+ (obligation fails, no input replayed)}" || echo "MISSED (exit $r)")" >> tools/caught.txt; sort -o tools/caught.txt tools/caught.txt
fi
echo "$id demo $a/$b check $p -> $r ($(( $(date +%s)-s )) s): $(grep -m1 VIOLATION $t/chk.log)"
[ -n "$V" ] && cat $t/chk.log
done
exit 0
