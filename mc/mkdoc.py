"""Fills the tables of DESIGN.md from the catalog, the last evidence, the
findings file and the planted bugs."""
import ast
import glob
import json
import os

import catalog

V = catalog.VERIF
times = {}
tf = os.path.join(V, "mc", "times.json")
if os.path.exists(tf):
    times = json.load(open(tf))


def bounds(check):
    t = ast.parse(open(os.path.join(V, "checks", check + ".py")).read())
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == \
                "BOUNDS":
            return ast.literal_eval(n.value)


rows = []
for p in catalog.PROPS:
    r, c = p["rec"], p["check"]
    if c is None:
        continue
    b = bounds(c)
    q = times.get(r["id"], {})
    rows.append("### %s %s\n\n%s\n\n* Decided by: %s (`checks/%s.py`).\n"
                "* Quick: %s%s.\n* Thorough: %s%s.\n" % (
                    r["id"], r["title"], r["statement"], p["technique"], c,
                    " ".join(b["quick"].split()),
                    " (%s s)" % q["quick"] if "quick" in q else "",
                    " ".join(b["thorough"].split()),
                    " (%s s)" % q["thorough"] if "thorough" in q else ""))
for i, why in catalog.NOT_APPLICABLE:
    rows.append("### %s (not claimed)\n\n%s\n" % (i, why))
d = json.load(open(os.path.join(V, "known_findings.json")))
find = ["Repaired:", ""] + ["* %s" % x for x in d["fixed"]]
find += ["", "Recorded, not repaired:", ""] + \
    ["* %s `%s`: %s" % (k["property"], k["key"], k["what"])
     for k in d["known"]]
if not d["known"]:
    find += ["* none"]
seeds = ["| bug | property | what it breaks | needs | caught by |",
         "|---|---|---|---|---|"]
caught = {}
cf = os.path.join(V, "mc", "caught.json")
if os.path.exists(cf):
    caught = json.load(open(cf))
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    k = os.path.basename(os.path.dirname(m))
    x = json.load(open(m))
    seeds.append("| %s | %s | %s | %s | %s |" % (
        k, x["property"], x["what_it_breaks"], x["needs"],
        caught.get(k, "?")))
s = open(os.path.join(V, "mc", "DESIGN.in")).read()
s = s.replace("@@TABLE@@", "\n".join(rows)).replace(
    "@@FINDINGS@@", "\n".join(find)).replace("@@SEEDED@@", "\n".join(seeds))
open(os.path.join(V, "DESIGN.md"), "w").write(s)
