#!/usr/bin/env python3
"""Writes DESIGN.md from its parts, so that bounds, findings and the table of planted bugs stay current."""
import json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import specs
T = lambda f: open(os.path.join(H, "tools", f)).read()
o = T("DESIGN.head.md") + "\n"
how = json.loads(T("how.json"))
props = {}
na = {}
for e in json.load(open(os.path.join(H, "MANIFEST.json"))).get("not_applicable", []): na[e["property_id"] if "property_id" in e else e.get("property", e.get("id"))] = e["reason"]
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l); props[p["id"]] = p
for i, p in sorted(props.items()):
    if i not in specs.SPECS:
        o += "### %s %s\n\nNot applicable: %s\n\n" % (i, p["title"], na.get(i, "")); continue
    s = specs.SPECS[i]
    o += "### %s %s\n\n%s\n\n* Bounds: %s.\n" % (i, p["title"], how.get(i, ""), s["bounds"].rstrip("."))
    if s.get("outside") and s["outside"] != "nothing further": o += "* Outside: %s.\n" % s["outside"].rstrip(".")
    for a in s.get("assumptions") or []: o += "* Assumes: %s.\n" % a.rstrip(".")
    o += "\n"
o += "## Defects found in the code\n\nEvery one was a counterexample of a check, confirmed natively, and repaired by a `fix:` commit in /repo.\n\n"
for l in open(os.path.join(H, "known_findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m: o += "* %s (%s) %s\n" % m.groups()
    m = re.match(r"finding: id=(\S+) (.*)", l)
    if m: o += "* **known finding, not repaired** %s: %s\n" % m.groups()
o += "\n" + T("DESIGN.tail.md") + "\n| planted bug | property | needs | caught by |\n|---|---|---|---|\n"
tab = json.loads(T("seedtable.json"))
for s in sorted(os.listdir(os.path.join(H, "seeded"))):
    f = os.path.join(H, "seeded", s, "meta.json")
    if not os.path.exists(f): continue
    m = json.load(open(f)); t = tab.get(s, {})
    by = re.sub(r"^C\d+-|-\d+\.json$", "", t.get("by", "")) if t.get("caught") else ("**missed**" if t else "not run yet")
    o += "| %s | %s | %s | %s |\n" % (s, m["property"], m["needs"].replace("|", "/"), by)
open(os.path.join(H, "DESIGN.md"), "w").write(o)
