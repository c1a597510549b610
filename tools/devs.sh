#!/bin/bash
# developer aid: tools/devs.sh HARNESS ENTRY [PARAMS] : like dev.sh, one line of result
H=$(dirname "$(dirname "$(readlink -f "$0")")")
rm -f ${W:-/tmp/symxdev}/out.json
$H/tools/dev.sh "$@" >/tmp/devs.log 2>&1 || true
python3 - ${W:-/tmp/symxdev} "$@" <<'P'
import json,sys
try: d=json.load(open(sys.argv[1]+'/out.json'))
except Exception: sys.exit("no result: "+"\n".join([l for l in open("/tmp/devs.log").read().splitlines() if "error" in l or "undefined" in l][:4])[:900])
print(*sys.argv[2:5], d['status'],'paths',d['paths'],'q',d['queries'],'slv %.1f'%d['solver_s'],'maxq %.2f'%d['max_query_s'],'wall %.1f'%d['wall_s'], d['inconclusive'][:3], [(v['kind'],v['msg'],v['loc'][:300]) for v in d['violations'][:2]])
P
