"""Which harness entries decide which property, and within which bounds."""
import os, re
HERE = os.path.dirname(os.path.abspath(__file__))
GENERAL_ASSUMPTIONS = [
    "clang 18 lowers the C++ to LLVM IR faithfully (IR at -O0 after sroa/simplifycfg; undefined behaviour instrumented by UBSan traps before lowering)",
    "x86-64 data layout, IEEE-754 binary32/64 arithmetic without contraction, allocation never fails",
    "C library primitives memcpy/memmove/memset follow the C standard; operator new/delete are modelled as fresh disjoint blocks",
    "the engine (engine/), z3, cvc5 and kissat are trusted for unsat answers; sat answers are replayed natively",
]
SPECS = {}
def spec(id, jobs, bounds, outside="", **kw):
    SPECS[id] = dict(jobs=jobs, bounds=bounds, outside=outside, **kw)
def J(src, entry, params=None, **kw):
    return dict(src=src, entry=entry, params=params, **kw)
def known_findings():
    r = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: id=(\S+) (.*)", l)
            if m:
                r[m.group(1)] = m.group(2).strip()
    return r
for f in sorted(os.listdir(os.path.join(HERE, "specs.d"))):
    if f.endswith(".py"):
        exec(open(os.path.join(HERE, "specs.d", f)).read())
