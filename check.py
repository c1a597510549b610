#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--jobs REGEX] [--keep] [-v]

Compiles the harnesses of one property against /repo's working tree, executes them symbolically
(engine/), replays every counterexample natively, and writes evidence/<PROPERTY>.json."""
import argparse, concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import specs

SYMX = os.path.join(HERE, "build", "symx")
COMMON = ["-w", "-fpermissive", "-fno-exceptions", "-ffp-contract=off", "-DFASTFLOAT_FAST_FLOAT_H",
          "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(REPO, "src")]
SYMFLAGS = ["-O0", "-Xclang", "-disable-O0-optnone", "-fno-rtti", "-gline-tables-only",
            "-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow,unreachable,return,array-bounds,builtin",
            "-fsanitize-trap=all", "-emit-llvm", "-c"]
NATFLAGS = ["-O1", "-g1", "-fno-rtti", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=alignment,vptr,function", "-fno-omit-frame-pointer"]

def log(*a):
    print(*a, flush=True)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def ensure_engine():
    srcs = [os.path.join(HERE, "engine", f) for f in os.listdir(os.path.join(HERE, "engine"))]
    if os.path.exists(SYMX) and os.path.getmtime(SYMX) >= max(os.path.getmtime(s) for s in srcs if s.endswith((".cc", ".h"))):
        return
    if os.path.exists(SYMX) and os.environ.get("VERIF_NO_REBUILD"):
        return
    r = sh(["bash", os.path.join(HERE, "engine", "build.sh"), os.path.join(HERE, "build")])
    if r.returncode:
        log(r.stdout); log("ERROR: engine does not build"); sys.exit(2)

class Build:
    def __init__(self, work):
        self.work = work
        self.lock = threading.Lock()
        self.done = {}
    def get(self, src, opts):
        key = (src, tuple(opts))
        with self.lock:
            if key not in self.done:
                self.done[key] = cf.Future()
                mine = True
            else:
                mine = False
            fut = self.done[key]
        if mine:
            try:
                fut.set_result(self.make(src, list(opts)))
            except Exception as e:
                fut.set_exception(e)
        return fut.result()
    def make(self, src, opts):
        tag = src.replace(".", "_") + "_%d" % len(self.done)
        std = [o for o in opts if o.startswith("-std=")] or ["-std=c++11"]
        opts = [o for o in opts if not o.startswith("-std=")]
        extra = [os.path.join(REPO, o[5:]) for o in opts if o.startswith("repo:")]
        opts = [o for o in opts if not o.startswith("repo:")]
        f = os.path.join(HERE, "harness", src + ".cc")
        raw, bc, exe = (os.path.join(self.work, tag + x) for x in (".raw.bc", ".bc", ".exe"))
        rt = os.path.join(self.work, tag + ".rt.bc")
        nat = subprocess.Popen(["clang++-18"] + std + COMMON + NATFLAGS + opts + [f, os.path.join(HERE, "harness", "native.cc")] + extra + ["-o", exe, "-rdynamic", "-ldl"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        raws = []
        for i, s in enumerate([f] + extra):
            o = raw + str(i)
            r = sh(["clang++-18"] + std + COMMON + SYMFLAGS + opts + [s, "-o", o])
            if r.returncode:
                nat.kill()
                raise RuntimeError("harness %s does not compile against %s:\n%s" % (s, REPO, r.stdout[:4000]))
            raws.append(o)
        r = sh(["clang-18", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-builtin", "-emit-llvm", "-c", os.path.join(HERE, "harness", "rt.c"), "-o", rt])
        r2 = sh(["llvm-link-18"] + raws + [rt, "-o", raw])
        r3 = sh(["opt-18", "-passes=function(sroa,simplifycfg)", raw, "-o", bc])
        for r in (r, r2, r3):
            if r.returncode:
                raise RuntimeError(r.stdout[:3000])
        out = nat.communicate()[0]
        if nat.returncode:
            raise RuntimeError("native build of %s failed:\n%s" % (src, out[:4000]))
        return bc, exe

def build_tsan(src, opts, exe):
    """The same harness under ThreadSanitizer, to confirm data races; the replay runtime itself is not instrumented."""
    std = [o for o in opts if o.startswith("-std=")] or ["-std=c++11"]
    extra = [os.path.join(REPO, o[5:]) for o in opts if o.startswith("repo:")]
    rest = [o for o in opts if not o.startswith(("-std=", "repo:"))]
    obj = exe + ".native.o"
    for cmd in (["clang++-18"] + std + COMMON + rest + ["-DVERIF_TSAN", "-O1", "-g1", "-c", os.path.join(HERE, "harness", "native.cc"), "-o", obj],
                ["clang++-18"] + std + COMMON + rest + ["-O1", "-g1", "-fsanitize=thread", os.path.join(HERE, "harness", src + ".cc")] + extra + [obj, "-o", exe, "-rdynamic", "-ldl"]):
        r = sh(cmd)
        if r.returncode:
            raise RuntimeError("ThreadSanitizer build of %s failed:\n%s" % (src, r.stdout[:2000]))

def write_inputs(path, inputs, uninit):
    with open(path, "w") as f:
        for w, v in inputs:
            f.write("%d %s\n" % (w, v))
        for u in uninit:
            kind, seq, off, val = u.split()
            f.write("uninit %s %s %s %s\n" % (kind, seq, off, val))

def native(exe, entry, inputs, params, fill=None, timeout=60):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=0", UBSAN_OPTIONS="print_stacktrace=1:exitcode=96")
    env["TSAN_OPTIONS"] = "exitcode=95:halt_on_error=1:report_bugs=1"
    if fill:
        env["VERIF_FILL"] = fill
    try:
        p = subprocess.run([exe, entry, inputs] + ([",".join(map(str, params))] if params else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return 124, "", "does not terminate within %d s" % timeout

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", default="")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--all-violations", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    spec = specs.SPECS[a.prop]
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", 0)) or (780 if tier == "quick" else spec.get("thorough_budget", 7200))
    ensure_engine()
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-%s-" % a.prop, dir=os.path.join(HERE, "build"))
    replays = os.path.join(HERE, "build", "replay")
    os.makedirs(replays, exist_ok=True)
    jobs = []
    for j in spec["jobs"]:
        if j.get("tier", "both") not in ("both", tier):
            continue
        for ps in j.get("params") or [()]:
            ps = tuple(ps) if isinstance(ps, (tuple, list)) else (ps,)
            n = j["src"] + "." + j["entry"] + ("".join("_%d" % p for p in ps))
            if a.jobs and not re.search(a.jobs, n):
                continue
            jobs.append(dict(j, params=ps, name=n))
    jobs.sort(key=lambda j: -j.get("weight", 1))
    bld = Build(work)
    stop = threading.Event()
    live = set()
    llock = threading.Lock()
    nrep = [0]

    tsan_lock = threading.Lock()
    def run_job(j):
        if stop.is_set():
            return dict(j=j, status="skipped")
        try:
            bc, exe = bld.get(j["src"], tuple(j.get("opts", ())))
        except Exception as e:
            return dict(j=j, status="error", why=str(e))
        out = os.path.join(work, j["name"] + ".json")
        left = budget - (time.time() - t0)
        tm = min(j.get("time", 300) * (1 if tier == "quick" else j.get("tscale", 4)), left)
        if tm < 2:
            return dict(j=j, status="inconclusive", why="check budget exhausted")
        cmd = [SYMX, "--entry=" + j["entry"], "--out=" + out, "--time=%g" % tm, "--tests=%d" % j.get("tests", 4), "--seed=%d" % seed,
               "--src=" + REPO.rstrip("/") + "/", "--portfolio=" + os.path.join(HERE, "engine", "portfolio.py"), "--work-dir=" + work,
               "--max-violations=%d" % j.get("max_violations", 4), "--fast-ms=%d" % j.get("fast_ms", 3000), "--ext-sec=%d" % j.get("ext", 240)]
        if j.get("path_steps"):
            cmd.append("--path-steps=%d" % j["path_steps"])
        if j.get("icp"):
            cmd.append("--icp=%g" % j["icp"])
        if j["params"]:
            cmd.append("--param=" + ",".join(map(str, j["params"])))
        p = subprocess.Popen(cmd + [bc], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, errors="replace")
        with llock:
            live.add(p)
        try:
            txt = p.communicate(timeout=tm + 60)[0]
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            txt = p.communicate()[0]
        with llock:
            live.discard(p)
        if stop.is_set() and not os.path.exists(out):
            return dict(j=j, status="skipped")
        if not os.path.exists(out):
            return dict(j=j, status="error", why="engine died (rc %s): %s" % (p.returncode, txt[-500:]))
        r = json.load(open(out))
        r["j"] = j
        r["engine_out"] = txt[-500:]
        confirmed, unconfirmed = [], []
        for v in r["violations"]:
            inp = os.path.join(work, "%s.%d.in" % (j["name"], len(confirmed) + len(unconfirmed)))
            write_inputs(inp, v["inputs"], v["uninit"])
            hit = None
            if v["kind"] == "race":
                texe = exe + ".tsan"
                with tsan_lock:
                    if not os.path.exists(texe):
                        build_tsan(j["src"], list(j.get("opts", ())), texe)
                rc, so, se = native(texe, j["entry"], inp, j["params"])
                if rc and "data race" in se:
                    hit = (rc, se[:3000])
            for fill in () if v["kind"] == "race" else (None, "00", "ff", "7f"):
                # a run that does not end: 20 s, thousands of times what its steps take
                rc, so, se = native(exe, j["entry"], inp, j["params"], fill, 20 if v["kind"] == "termination" else 60)
                if rc not in (0, 77, 3):
                    hit = (rc, se[:3000])
                    break
            rec = dict(property=a.prop, job=j["name"], opts=list(j.get("opts", ())), source="harness/%s.cc" % j["src"], entry=j["entry"], params=j["params"], kind=v["kind"], message=v["msg"],
                       location=v["loc"], inputs=v["inputs"], uninitialised=v["uninit"], native_exit=hit and hit[0], native_output=hit and hit[1])
            (confirmed if hit else unconfirmed).append(rec)
        # differential validation of the engine on sampled paths
        bad = []
        r["replayed"] = 0
        for i, t in enumerate(r["tests"]):
            if any(u.startswith("stack") for u in t["uninit"]):
                continue
            inp = os.path.join(work, "%s.t%d.in" % (j["name"], i))
            write_inputs(inp, t["inputs"], t["uninit"])
            rc, so, se = native(exe, j["entry"], inp, j["params"])
            obs = [l[2:] for l in so.split("\n") if l.startswith("O ")]
            want = [format(int(x, 16), "x") for x in t["obs"]]
            r["replayed"] += 1
            if rc != 0 or obs != want:
                bad.append("path test %d of %s: native rc %s, observations %s, engine %s; %s" % (i, j["name"], rc, obs[:8], want[:8], se[:600]))
        r["bad"] = bad
        r["confirmed"], r["unconfirmed"] = confirmed, unconfirmed
        missing = [x for x in j.get("reach", ("end",)) if x not in r["reach"]]
        r["missing"] = missing
        if confirmed:
            r["status"] = "violation"
        elif unconfirmed:
            r["status"] = "unconfirmed"
        elif r["status"] == "held" and missing:
            r["status"] = "vacuous"
        elif bad:
            r["status"] = "engine-mismatch"
        if r["status"] == "violation" and not j.get("finding") and not a.all_violations:
            stop.set()
            with llock:
                for q in list(live):
                    try: os.killpg(q.pid, signal.SIGTERM)
                    except OSError: pass
        return r

    results = []
    with cf.ThreadPoolExecutor(max_workers=spec.get("workers", 8)) as ex:
        for r in ex.map(run_job, jobs):
            results.append(r)
            if a.v:
                log("%-34s %-12s paths=%s q=%s solver=%.1fs wall=%.1fs %s" % (r["j"]["name"], r["status"], r.get("paths"), r.get("queries"), r.get("solver_s", 0), r.get("wall_s", 0), (r.get("inconclusive") or [""])[0][:160]))
    # ------------------------------------------------------------ verdict
    rc, nviol = 0, 0
    findings = []
    for r in results:
        j = r["j"]
        if r["status"] in ("violation",):
            for v in r["confirmed"]:
                fid = j.get("finding")
                if fid and fid in specs.known_findings():
                    findings.append((fid, v))
                    continue
                nviol += 1
                path = os.path.join(replays, "%s-%s-%d.json" % (a.prop, j["name"], nviol))
                inp = path[:-5] + ".in"
                write_inputs(inp, v["inputs"], v["uninitialised"])
                v["how_to_replay"] = "python3 %s/replay.py %s" % (HERE, path)
                json.dump(v, open(path, "w"), indent=1)
                if nviol <= 5:
                    log("  %s: %s [%s]" % (j["name"], v["message"], v["location"][:300]))
                    log("    inputs %s" % " ".join("%s:%s" % (w, x) for w, x in v["inputs"][:40]))
                    log("    native run: exit %s %s" % (v["native_exit"], (v["native_output"] or "").strip().replace("\n", " | ")[:300]))
                log("VIOLATION property=%s replay=%s" % (a.prop, path))
                rc = 1
    for fid, what in specs.known_findings().items():
        if any(f == fid for f, _ in findings):
            log("KNOWN-FINDING: property=%s %s" % (a.prop, what))
    bad = [r for r in results if r["status"] in ("inconclusive", "error", "unconfirmed", "vacuous", "engine-mismatch")]
    said = set()
    for r in bad:
        why = r.get("why") or "; ".join(r.get("inconclusive", [])[:3]) or (r.get("missing") and "never reached: " + ",".join(r["missing"])) or "; ".join(r.get("bad", [])[:2]) or ""
        if r["status"] == "unconfirmed":
            v = r["unconfirmed"][0]
            why = "counterexample does not reproduce natively: %s at %s inputs %s uninit %s" % (v["message"], v["location"][:300], v["inputs"][:20], v["uninitialised"][:8])
        short = why[:1500] if why not in said else "(as above)"
        said.add(why)
        log("NO-ANSWER job=%s status=%s %s" % (r["j"]["name"], r["status"], short))
    if rc == 0 and (bad or not results):
        rc = 2
    done = [r for r in results if "paths" in r]
    fns = sorted({f for r in done for f in r["functions"]})
    samples = []
    for r in done:
        for t in r["tests"][:1]:
            if len(samples) < 12:
                samples.append(dict(job=r["j"]["name"], inputs=[x[1] for x in t["inputs"][:24]], observed=t["obs"][:8]))
    tot = lambda k: sum(r.get(k, 0) for r in done)
    winners = {}
    for r in done:
        for w in r["portfolio_winners"]:
            winners[w] = winners.get(w, 0) + 1
    cov = dict(states=tot("paths") + tot("forks"), transitions=tot("steps"), traces_validated_against_impl=sum(r.get("replayed", 0) for r in done),
               samples=samples or ["none"], jobs=len(done), jobs_held=sum(r["status"] == "held" for r in done), paths=tot("paths"), forks=tot("forks"),
               assertions_checked=tot("asserts"), memory_accesses_checked=tot("memory_checks"), solver_queries=tot("queries"), sat=tot("sat"), unsat=tot("unsat"), unknown=tot("unknown"),
               interval_solver=dict(queries=tot("icp_calls"), boxes=tot("icp_boxes"), seconds=round(tot("icp_s"), 2)),
               queries_answered_by_portfolio=winners, solver_seconds=round(tot("solver_s"), 2), slowest_query_s=round(max([r["max_query_s"] for r in done] or [0]), 2),
               vacuity="every job reached its end witness" if not any(r.get("missing") for r in done) else "missing witnesses",
               functions_encoded=fns, bounds=spec["bounds"], outside=spec.get("outside", ""),
               per_job=[dict(job=r["j"]["name"], status=r["status"], paths=r["paths"], queries=r["queries"], solver_s=round(r["solver_s"], 2), wall_s=round(r["wall_s"], 2)) for r in done],
               explanation="Symbolic execution of the LLVM IR compiled from /repo's current headers: every feasible path within the bounds is executed with symbolic inputs and each assertion, memory access and UB check is decided by an SMT query; states = paths + forks, transitions = IR instructions executed symbolically.")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.jobs:
        json.dump(dict(property=a.prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
                       assumptions=spec.get("assumptions", []) + specs.GENERAL_ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=nviol),
                  open(os.path.join(HERE, "evidence", a.prop + ".json"), "w"), indent=1)
    log("%s %s: %d jobs, %d paths, %d assertions, %d queries (%.1f s solver), %d native replays, %.1f s -> %s" % (
        a.prop, tier, len(done), tot("paths"), tot("asserts"), tot("queries"), tot("solver_s"), cov["traces_validated_against_impl"], time.time() - t0,
        {0: "HELD", 1: "VIOLATED", 2: "NO ANSWER"}[rc]))
    if not a.keep:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

if __name__ == "__main__":
    try:
        main()
    except Exception:   # an error of the machinery is no verdict
        import traceback
        log(traceback.format_exc())
        sys.exit(2)
