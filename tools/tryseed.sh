#!/bin/bash
# tryseed.sh SEEDDIR [MODULE..]: applies a planted bug to a private copy of /repo (bind-mounted over /repo in a mount
# namespace of its own), builds, runs the stable tests, the demonstration and the given checks.
s=$(realpath "$1"); shift
rm -rf /tmp/verif-seed-trial; mkdir /tmp/verif-seed-trial; w=/tmp/verif-seed-trial
cp -a /repo "$w/repo"
export s w mods="$*"
unshare -m bash -c '
mount --bind $w/repo /repo || exit 9
cd /repo; git checkout -q -- . 
[ -n "$SKIPCLEAN" ] || { bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash $s/demo.sh >$w/demo0.out 2>&1; echo "demo clean: $?"; }
git apply $s/patch.diff || exit 8
if [ -z "$SKIPTEST" ]; then bash /opt/vp/test.sh $w/out.json >$w/t.log 2>&1; python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json"))["stable"];o=set(json.load(open("$w/out.json"))["passed"])
m=[x for x in b if x not in o]
print("stable tests failing:",len(m),m[:5])
P
timeout 300 bash $s/demo.sh >$w/demo1.out 2>&1; echo "demo patched: $?"; tail -3 $w/demo1.out; fi
cd /verif
for m in $mods; do VERIF_TIER=quick timeout 900 python3-vt run.py $m >$w/c.out 2>&1; echo "check $m: $?"; grep -E "VIOLATION|failed obligation|failing input|^C[0-9]+:|not discharged" $w/c.out | cut -c1-260 | head -${LINES_MAX:-8}; done
'
rm -rf /tmp/verif-seed-trial
