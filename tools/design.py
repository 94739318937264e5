"""Writes DESIGN.md from DESIGN.in.md, the plans, the findings and the planted bugs."""
import glob
import json
import os

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
ns = {}
exec(open(os.path.join(here, "plans.py")).read(), ns)
props = [json.loads(x) for x in open(os.path.join(root, "properties.jsonl"))]
t = open(os.path.join(here, "DESIGN.in.md")).read()
out = []
for p in props:
    model, mc, runs, cost = ns["PLANS"][p["id"]]
    out.append(f"**{p['id']} {p['title']}.**  \n*Specified:* {model}.  \n*Exhaustively checked:* {mc}.  \n"
               f"*Bound to the code by:* {runs}.  *Cost:* {cost}.\n")
t = t.replace("PROPTABLE", "\n".join(out))
kf = [json.loads(x) for x in open(os.path.join(root, "known_findings.jsonl"))]
fixed = [x for x in kf if x["status"] == "fixed"]
known = [x for x in kf if x["status"] != "fixed"]
t = t.replace("FIXCOUNT", str(len(fixed))).replace("KNOWNCOUNT", str(len(known)))
t = t.replace("KNOWNLIST", "\n".join(f"* {x['property']} `{x['key']}`: {x['what']}" for x in known))
rows = ["| bug | needs | breaks | caught by |", "| --- | --- | --- | --- |"]
for d in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    n = os.path.basename(os.path.dirname(d))
    rows.append(f"| {n} | {m['needs']} | {m['what_it_breaks']} | {ns['SEEDS'].get(n, m['property'])} |")
t = t.replace("SEEDTABLE", "\n".join(rows))
open(os.path.join(root, "DESIGN.md"), "w").write(t)
