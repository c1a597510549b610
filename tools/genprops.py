#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that it stays valid JSON)."""
import json, os, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=False):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, (id, statement.count(". "))
    P.append(d)

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_data.py")).read())
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
