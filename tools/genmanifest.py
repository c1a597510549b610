#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import specs
NA = {"C26": "decided by template instantiation at compile time: nothing of it reaches the IR that is executed symbolically, and types cannot be solver variables; the templates that other checks instantiate (move, swap, enable_if in pair, tuple, optional, unique_ptr) are exercised through them"}
checks = []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i not in specs.SPECS:
        NA.setdefault(i, "no check built yet")
        continue
    s = specs.SPECS[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                       technique=s.get("technique", "bounded symbolic execution of the real code's LLVM IR, assertions decided by SMT (z3/cvc5/kissat)"),
                       level="model_checking", level_note="Holds for every input within: %s. Outside: %s. Trusts clang's lowering, the engine in engine/, and the solvers' unsat answers; counterexamples are replayed natively." % (s["bounds"], s.get("outside") or "nothing further")))
m = dict(version=1, setup_cmd="bash engine/build.sh build", checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items()) if k not in specs.SPECS],
         notes="check.py compiles harness/*.cc against /repo's current headers with clang 18, executes the IR symbolically with engine/ (built by setup_cmd) and replays counterexamples natively. No hooks in /repo are needed.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in m["not_applicable"]])
