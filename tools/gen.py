#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "explicit TLA+ specification checked by TLC; trace validation of the real code against it"
P = []

def prop(id, title, statement, over, text, why, files, mech, note="", level="model_checking", done=True, tech=TECH):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, note=note, level=level, done=done, tech=tech))

exec(open(os.path.join(HERE, "tools", "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }) + "\n")
checks, na = [], []
for p in P:
    if p["done"]:
        checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']}",
            "thorough_cmd": f"./check.sh {p['id']} thorough",
            "technique": p["tech"], "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
