#!/bin/bash
# developer aid: tools/dev.sh HARNESS ENTRY [PARAMS] [engine options...] : compile one harness and run the engine on one entry
set -e
H=$(dirname "$(dirname "$(readlink -f "$0")")"); W=${W:-/tmp/symxdev}; mkdir -p $W
src=$1 entry=$2 par=$3; shift 3 || true
cd $H
python3 - "$src" $W <<'P'
import sys, os, json
sys.argv0=sys.argv[:]; src, W = sys.argv[1], sys.argv[2]; sys.argv=["check.py"]
sys.path.insert(0, ".")
import importlib.util
sp=importlib.util.spec_from_file_location("chk","check.py"); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
import specs
o=()
for s in specs.SPECS.values():
    for j in s["jobs"]:
        if j["src"]==src and j.get("opts"): o=tuple(j["opts"])
print(m.Build(W).get(src, o)[0])
P
time build/symx --entry=$entry --out=$W/out.json --time=${T:-120} --tests=2 --seed=1 --src=/repo/ --portfolio=$H/engine/portfolio.py --work-dir=$W ${par:+--param=$par} "$@" $W/${src}_1.bc
