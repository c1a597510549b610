#!/usr/bin/env python3
"""developer aid: builds /verif/seeded/<id>/ from tools/seeds/*.py, after confirming each bug in a scratch copy"""
import json, os, subprocess, sys, tempfile, shutil, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}
def seed(id, prop, file, old, new, needs, breaks, demo, pre="", flags="", srcs="", count=1):
    SEEDS[id] = dict(prop=prop, edits=[(file, old, new)] if isinstance(file, str) else file, needs=needs, breaks=breaks, demo=demo, pre=pre, flags=flags, srcs=srcs)
PRE = '#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <new>\n#define CHECK(c) do { if (!(c)) { printf("FAILED %s line %d\\n", #c, __LINE__); exit(1); } } while (0)\n'
for f in sorted(glob.glob(H + "/tools/seeds/*.py")):
    exec(open(f).read())
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = """#!/bin/bash
# run in the repository's root: exit 0 when the property holds for this demonstration
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -w -fpermissive -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=undefined %s -DNANOSTL__NULLPTR -include stddef.h -Iinclude "$d/demo.cc" %s -o "$t/demo" || exit 1
timeout 100 "$t/demo"
"""
def main():
    want = sys.argv[1:] or [s for s in SEEDS if not os.path.exists("%s/seeded/%s/patch.diff" % (H, s))]
    assert not sh("git -C /repo status --porcelain").stdout.strip()
    for s in want:
        d = SEEDS[s]; out = "%s/seeded/%s" % (H, s); os.makedirs(out, exist_ok=True)
        open(out + "/demo.cc", "w").write(PRE + d["pre"] + "\nint main() {\n" + d["demo"] + "\nputs(\"ok\"); return 0; }\n")
        open(out + "/demo.sh", "w").write(DEMO % (d["flags"], d["srcs"])); os.chmod(out + "/demo.sh", 0o755)
        json.dump(dict(property=d["prop"], needs=d["needs"], what_it_breaks=d["breaks"]), open(out + "/meta.json", "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % out, cwd="/repo")
        problems = []
        if r0.returncode: problems.append("demo fails on the unchanged tree: " + r0.stdout[-600:])
        try:
            for f, old, new in d["edits"]:
                p = "/repo/" + f; t = open(p).read()
                if t.count(old) < 1: problems.append("text not found in " + f); continue
                if t.count(old) > 1: problems.append("text found %d times in %s" % (t.count(old), f)); continue
                open(p, "w").write(t.replace(old, new))
            open(out + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            b = sh("bash /opt/vp/build.sh")
            if b.returncode: problems.append("does not build: " + b.stdout[-500:])
            sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            base = json.load(open("/opt/vp/BASELINE.json")); stable = base.get("stable") or base.get("tests") or base.get("passed") or base
            got = json.load(open("/tmp/seedtest.json"))
            stable = [x if isinstance(x, str) else x["name"] for x in stable] if isinstance(stable, list) else list(stable)
            miss = [x for x in stable if x not in got["passed"]]
            if miss: problems.append("tests fail: %s" % miss)
            r1 = sh("bash %s/demo.sh" % out, cwd="/repo")
            if r1.returncode == 0: problems.append("demo passes with the patch")
            msg = r1.stdout.strip().splitlines()[:1]
        finally:
            sh("git -C /repo checkout -- .")
        print(s, d["prop"], "OK" if not problems else problems, msg if not problems else "", flush=True)
        if problems: shutil.rmtree(out)
    sh("bash /opt/vp/build.sh")
main()
