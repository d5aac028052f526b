#!/bin/bash
# verifies named functions of /tmp/UNIT.rs: vfun.sh UNIT seconds fn...
u=$1; t=$2; shift 2; mkdir -p /tmp/vr; cp /tmp/$u.rs /tmp/vr/; cd /tmp/vr
one() { o=$(timeout $2 verus $1.rs --rlimit ${RL:-10} --multiple-errors 5 --verify-only-module unit --verify-function $3 2>&1 | grep -vE "^warning" ); echo "== $3: $(echo "$o" | grep -E 'verification results' || echo TIMEOUT)"; echo "$o" | grep -A7 -E "^error" | grep -vE "^error: aborting" | head -${N:-30}; }
export -f one
for f in "$@"; do echo $f; done | xargs -P 8 -I{} bash -c "one $u $t {}"
