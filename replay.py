#!/usr/bin/env python3
"""replay.py FILE.json : rebuilds the harness natively against /repo and replays one counterexample."""
import json, os, subprocess, sys, tempfile
v = json.load(open(sys.argv[1]))
H = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VERIF_REPO", "/repo")
with tempfile.TemporaryDirectory() as d:
    exe, inp = os.path.join(d, "prog"), os.path.join(d, "in")
    opts = v.get("opts", [])
    extra = [os.path.join(R, o[5:]) for o in opts if o.startswith("repo:")]
    opts = [o for o in opts if not o.startswith("repo:")]
    if not any(o.startswith("-std=") for o in opts):
        opts = ["-std=c++11"] + opts
    race = v.get("kind") == "race"
    if race:   # the replay runtime must not be instrumented: compile it apart
        nat = os.path.join(d, "native.o")
        subprocess.check_call(["clang++-18", "-w", "-std=c++11", "-DVERIF_TSAN", "-O1", "-c", os.path.join(H, "harness", "native.cc"), "-o", nat])
    subprocess.check_call(["clang++-18", "-w", "-fpermissive", "-fno-exceptions", "-fno-rtti", "-ffp-contract=off", "-DFASTFLOAT_FAST_FLOAT_H", "-O1", "-g1",
                           *(["-fsanitize=thread"] if race else ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=alignment,vptr,function"]), "-I" + R + "/include", "-I" + R + "/src", "-I" + H + "/harness"] + opts +
                          [os.path.join(H, v["source"]), nat if race else os.path.join(H, "harness", "native.cc")] + extra + ["-o", exe, "-rdynamic", "-ldl"])
    with open(inp, "w") as f:
        for w, x in v["inputs"]:
            f.write("%s %s\n" % (w, x))
        for u in v["uninitialised"]:
            f.write("uninit %s\n" % u)
    p = subprocess.run([exe, v["entry"], inp] + ([",".join(map(str, v["params"]))] if v["params"] else []), env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0", TSAN_OPTIONS="halt_on_error=1:exitcode=95"))
    print("exit status", p.returncode)
    sys.exit(p.returncode)
