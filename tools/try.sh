#!/bin/bash
# try.sh SECS SO RANKS scenario... : one worker per scenario, prints the outcome
cd ${V:-/verif}; secs=$1; so=$2; ranks=$3; shift 3
for s in "$@"; do
 ( timeout $((secs+60)) build/simrun --so build/k52$so.so --scenario $s --seed0 ${SEED0:-1} --stride 1 --count 10000000 --secs $secs --selftest --ranks $ranks --out /tmp/try.$s.json --replay-out /tmp/try.$s.replay >/tmp/try.$s.log 2>&1
 python3 - $s <<'PY'
import json,sys
s=sys.argv[1]
try: r=json.load(open('/tmp/try.%s.json'%s))
except Exception as e: print(s,'no result',open('/tmp/try.%s.log'%s).read()[-500:]); sys.exit()
print(s,'rc',r['rc'],'runs',r['runs'],'seed',r.get('seed'),r.get('kind'),r.get('message'),{k:v[0] for k,v in r['probes'].items()}, {k:v[0] for k,v in r['faults'].items()})
PY
 ) &
done; wait
