#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from the table below.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a,
                  _t=technique, _n=note))

def na(id, title, statement, over, text, why, files, mech, reason):
    prop(id, title, statement, over, text, why, files, mech, None, None)
    NA.append({"property": id, "reason": reason})

exec(open(os.path.join(here, "tools", "table.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
m = {"version": 1, "setup_cmd": "bash checker/run.sh build",
     "checks": [dict(property=p["id"], quick_cmd="bash checker/run.sh " + p["id"], thorough_cmd="bash checker/run.sh " + p["id"],
                     technique=p["_t"], level="other", level_note=p["_n"]) for p in P if p["_t"]],
     "not_applicable": NA}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(P), "properties", len(m["checks"]), "checks")
