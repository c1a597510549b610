#!/bin/bash
# developer aid: like devs.sh with --icp
H=$(dirname "$(dirname "$(readlink -f "$0")")")
W=${W:-/tmp/symxdev}; export W; rm -f $W/out.json
timeout ${T:-120} $H/tools/dev.sh "$1" "$2" "$3" --icp=${I:-100} > $W.log 2>&1 || true
python3 - $W "$@" <<'P'
import json,sys
try: d=json.load(open(sys.argv[1]+'/out.json'))
except Exception: sys.exit("no result: "+"\n".join([l for l in open(sys.argv[1]+".log").read().splitlines() if "error" in l or "undefined" in l or "symx" in l][:4])[:900])
print(*sys.argv[2:5], d['status'],'paths',d['paths'],'q',d['queries'],'slv %.1f'%d['solver_s'],'maxq %.2f'%d['max_query_s'],'wall %.1f'%d['wall_s'],'icp',d['icp_calls'],d['icp_boxes'], d['inconclusive'][:3], [(v['kind'],v['msg'],v['loc'][:300]) for v in d['violations'][:2]])
P
