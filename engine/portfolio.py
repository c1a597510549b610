#!/opt/veriftools/pyvenv/bin/python
"""portfolio.py FILE.smt2 SECONDS fp|bv : races several solvers on one query.
Prints `unsat WHO`, or `sat WHO` followed by lines `name hexvalue`, or `unknown`."""
import os, re, selectors, signal, subprocess, sys, tempfile, time

def die_with_parent():
    import ctypes
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)

def worker_blast(path, seconds, sat):
    """bit-blast with z3 and decide the CNF with a SAT solver"""
    import z3
    s = z3.Solver()
    g = z3.Goal()
    fs = z3.parse_smt2_file(path)
    for f in fs:
        g.add(f)
    seen, vs, stack = set(), [], list(fs)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_bv(e):
            vs.append(e)
        stack.extend(e.children())
    for k, v in enumerate(vs):
        for i in range(v.size()):
            g.add(z3.Bool("bit!%d!%d" % (k, i)) == (z3.Extract(i, i, v) == 1))
    t = z3.Then(z3.With("simplify", elim_and=False), "fpa2bv", "simplify", "bit-blast", "simplify", z3.With("tseitin-cnf"))
    r = t(g)[0]
    if r.inconsistent():
        print("unsat " + sat); return
    d = r.dimacs(include_names=True)
    names, lines = {}, []
    for ln in d.splitlines():
        if ln.startswith("c "):
            _, n, nm = ln.split(None, 2)
            names[int(n)] = nm
        else:
            lines.append(ln)
    cnf = path + "." + sat + ".cnf"
    with open(cnf, "w") as f:
        f.write("\n".join(lines) + "\n")
    try:
        p = subprocess.run([sat, "-q", cnf] if sat == "kissat" else [sat, cnf], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, preexec_fn=die_with_parent)
    finally:
        os.unlink(cnf)
    if p.returncode == 20:
        print("unsat " + sat)
    elif p.returncode == 10:
        true = set()
        for ln in p.stdout.splitlines():
            if ln.startswith("v "):
                true.update(int(x) for x in ln[2:].split() if int(x) > 0)
        val = [0] * len(vs)
        for n in true:
            m = re.match(r"bit!(\d+)!(\d+)$", names.get(n, "").strip("|"))
            if m:
                val[int(m.group(1))] |= 1 << int(m.group(2))
        print("sat " + sat)
        for v, x in zip(vs, val):
            print(v.decl().name(), "%x" % x)
    else:
        print("unknown")

def names_of(path):
    return re.findall(r"\(declare-fun\s+(\|[^|]*\||\S+)\s+\(\)\s+\(_ BitVec (\d+)\)\)", open(path).read())

def parse_model(out):
    r = []
    for m in re.finditer(r"\(define-fun\s+(\|[^|]*\||\S+)\s+\(\)\s+\(_ BitVec \d+\)\s+(#x[0-9a-fA-F]+|#b[01]+|\(_ bv(\d+) \d+\))", out):
        v = m.group(2)
        x = int(v[2:], 16) if v.startswith("#x") else int(v[2:], 2) if v.startswith("#b") else int(m.group(3))
        r.append((m.group(1).strip("|"), x))
    return r

def main():
    path, seconds, kind = sys.argv[1], int(float(sys.argv[2])), sys.argv[3]
    text = open(path).read()
    q = path + ".m.smt2"
    with open(q, "w") as f:
        f.write("(set-option :produce-models true)\n" + text.replace("(check-sat)", "(check-sat)\n(get-model)"))
    me = os.path.abspath(__file__)
    cmds = {"z3-new": ["z3-new", "-T:%d" % seconds, q],
            "kissat": [sys.executable, me, "--blast", path, str(seconds), "kissat"]}
    if kind == "bv":
        cmds["cvc5-int"] = ["cvc5", "--solve-bv-as-int=sum", "--tlimit=%d" % (seconds * 1000), q]
    else:
        cmds["cvc5"] = ["cvc5", "--tlimit=%d" % (seconds * 1000), q]
    only = os.environ.get("PORTFOLIO_ONLY")
    if only:
        cmds = {k: v for k, v in cmds.items() if k in only.split(",")}
    procs, files = {}, {}
    for k, c in cmds.items():
        files[k] = tempfile.TemporaryFile("w+")
        procs[k] = subprocess.Popen(c, stdout=files[k], stderr=subprocess.DEVNULL, start_new_session=True, preexec_fn=die_with_parent)
    def stop():
        for p in procs.values():
            if p.poll() is None:
                try: os.killpg(p.pid, signal.SIGKILL)
                except OSError: pass
        for p in procs.values():
            p.wait()
        for x in (q, path + ".kissat.cnf"):
            try: os.unlink(x)
            except OSError: pass
    def onterm(*a):
        stop(); os._exit(1)
    signal.signal(signal.SIGTERM, onterm)
    end = time.time() + seconds
    pending = dict(procs)
    try:
        while pending and time.time() < end:
            for k, p in list(pending.items()):
                if p.poll() is None:
                    continue
                del pending[k]
                files[k].seek(0)
                out = files[k].read()
                first = out.split("\n", 1)[0].strip()
                if first.startswith("unsat") and "(error" not in first:
                    print("unsat " + k); return
                if first.startswith("sat"):
                    print("sat " + k)
                    if k in ("kissat",):
                        print(out.split("\n", 1)[1])
                    else:
                        for n, v in parse_model(out):
                            print(n, "%x" % v)
                    return
            time.sleep(0.02)
        print("unknown")
    finally:
        sys.stdout.flush()
        stop()

die_with_parent()
if sys.argv[1] == "--blast":
    sys.setrecursionlimit(100000)
    worker_blast(sys.argv[2], int(sys.argv[3]), sys.argv[4])
else:
    main()
