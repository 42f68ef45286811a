#!/bin/bash
# confirm.sh ID [tier-args...]: in a throw-away overlay of /repo applies seeded/ID/patch.diff, builds,
# runs the stable tests, the demo and the property's check. Development helper only.
ID=$1; shift
export V=$(cd "$(dirname "$0")/.." && pwd)
S=$V/seeded/$ID
export T=$(mktemp -d /tmp/bug.XXXXXX); mkdir $T/up $T/work $T/demo
cp $S/* $T/demo/; rm -f $T/demo/patch.diff $T/demo/meta.json
export S ID PROP=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])") ARGS="$*"
unshare -m bash -c '
mount -t overlay overlay -o lowerdir=/repo,upperdir=$T/up,workdir=$T/work /repo || exit 9
cd /repo
if [ -z "$SKIPTEST" ]; then
bash /opt/vp/build.sh > $T/b0.log 2>&1
bash $T/demo/demo.sh > $T/d0.log 2>&1; echo "$ID demo clean: $?"
git apply $S/patch.diff || { echo "$ID PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh > $T/b.log 2>&1 || { echo "$ID BUILD FAILED"; grep -m5 "error" $T/b.log; exit 1; }
bash /opt/vp/test.sh $T/o.json > $T/t.log 2>&1
python3 - <<P
import json,os
o=json.load(open(os.environ["T"]+"/o.json"));b=json.load(open("/opt/vp/BASELINE.json"))
m=[x for x in b["stable"] if x not in set(o["passed"])]
print(os.environ["ID"],"tests broken:",len(m),m[:4])
P
bash $T/demo/demo.sh > $T/d1.log 2>&1; R=$?; echo "$ID demo patched: $R  $(tail -1 $T/d1.log)"
else git apply $S/patch.diff; fi
cd $V; export PHASAR_SIM_BUILD=$T/bld; mkdir -p $T/bld; cp -a $V/.build/obj $T/bld/ 2>/dev/null
timeout 900 python3 run_check.py $PROP --tier quick --no-evidence $ARGS > $T/c.log 2>&1; R=$?
echo "$ID check $PROP exit $R: $(grep -m1 "^violation:" -A1 $T/c.log | tr "\n" " " | cut -c1-200) $(grep "^sim: runs" $T/c.log)"
'
case "$T" in /tmp/bug.*) [ -n "$KEEP" ] && echo "kept $T" || rm -rf "$T";; esac
