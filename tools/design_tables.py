#!/usr/bin/env python3
"""Refreshes the generated tables of DESIGN.md (seeded bugs; cost of the last runs, from evidence/)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"
t = open(p).read()
def put(name, body):
    global t
    t = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + body + "\n" + m.group(2), t, flags=re.S)
rows = ["| id | property = check that catches it (quick) | needs |", "|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (f.split("/")[-2], m["property"], m["needs"]))
put("seeds", "\n".join(rows))
rows = ["| id | executions | states | transitions | seconds |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(V + "/evidence/C*.json")):
    e = json.load(open(f)); c = e["coverage"]
    if e.get("tier") != "quick":
        continue
    rows.append("| %s | %s | %s | %s | %.0f |" % (e["property"], sum(x.get("executions", 0) for x in c.get("scenarios", [])), c.get("states", ""), c.get("transitions", ""), e["wall_s"]))
if len(rows) > 20:
    put("costs", "\n".join(rows))
open(p, "w").write(t)
