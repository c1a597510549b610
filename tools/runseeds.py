#!/usr/bin/env python3
"""developer aid: runs each planted bug's own check on a scratch copy of /repo; results go to tools/seedtable.json"""
import json, os, subprocess, sys, time, shutil, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = H + "/tools/seedtable.json"
tab = json.load(open(T)) if os.path.exists(T) else {}
want = sys.argv[1:] or [s for s in sorted(os.listdir(H + "/seeded")) if s not in tab]
for s in want:
    s, _, p = s.partition(":")
    m = json.load(open("%s/seeded/%s/meta.json" % (H, s)))
    w = tempfile.mkdtemp(prefix="seedrun."); r = w + "/repo"
    subprocess.check_call(["git", "clone", "-q", "/repo", r])
    subprocess.check_call(["git", "-C", r, "apply", "%s/seeded/%s/patch.diff" % (H, s)])
    t = time.time()
    o = subprocess.run(["python3", H + "/check.py", p or m["property"], "--tier", "quick"], cwd=H, env=dict(os.environ, VERIF_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    v = [l for l in o.stdout.splitlines() if l.startswith("VIOLATION")]
    print(s, p or m["property"], "CAUGHT" if o.returncode == 1 and v else "missed rc=%d" % o.returncode, "%.0fs" % (time.time() - t), (v or o.stdout.strip().splitlines()[-1:])[:1], flush=True)
    tab[s] = dict(property=m["property"], caught=o.returncode == 1 and bool(v), rc=o.returncode, seconds=round(time.time() - t), by=os.path.basename(v[0].split("replay=")[1]) if v else "")
    json.dump(tab, open(T, "w"), indent=1, sort_keys=True)
    shutil.rmtree(w)
