#!/bin/bash
# tools/pv.sh PID [extra args]: run the prover and print a short report
cd "$(dirname "$0")/.."; P=$1; shift
python3-vt -B -m pydv.prove $P --jobs 7 --out /tmp/pv.$P.json "$@" > /tmp/pv.$P.log 2>&1
tail -3 /tmp/pv.$P.log | cut -c1-300
python3 - $P <<'X'
import json,sys
r=json.load(open(f'/tmp/pv.{sys.argv[1]}.json'))
ok=[o for o in r['obligations'] if o['status']=='discharged']
for o in r['obligations']:
    if o['status']!='discharged': print(o['status'].upper(), o['name'], o.get('checks'), f"{o['seconds']}s", ' '.join(o['detail'].split())[:900])
print(sys.argv[1], len(ok),'discharged of',len(r['obligations']),'| queries',r['queries'],'solver',r['solver_s'],'wall',r.get('wall_s'),'paths',r.get('paths'))
X
