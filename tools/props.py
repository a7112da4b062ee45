#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, technique=None, note=None,
         na=None, state=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, qtext=" ".join(qtext.split()),
                  why=" ".join(why.split()), files=files, mech=mech, observe=observe,
                  technique=technique, note=note, na=na, state=state))


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        rec = {"id": p["id"], "title": p["title"], "statement": p["statement"],
               "quantifier": {"over": p["over"], "text": p["qtext"]},
               "why_tests_cant": p["why"],
               "anchors": {"files": p["files"],
                           "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                           "observe_at": [p["observe"]] if isinstance(p["observe"], str) else p["observe"], "hook_needed": None}}
        if p["state"]:
            rec["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        f.write(json.dumps(rec) + "\n")

man = {"version": 1, "setup_cmd": "bash /verif/setup.sh", "checks": [], "not_applicable": [],
       "notes": "TLA+ specifications in specs/, checked with TLC; see DESIGN.md. No hooks are needed in /repo: "
                "every observation is made through the public API, the command line or the files it writes."}
for p in P:
    if p["technique"] is None:
        man["not_applicable"].append({"property": p["id"], "reason": p["na"] or "check not built yet"})
        continue
    man["checks"].append({
        "property": p["id"],
        "quick_cmd": f"bash /verif/check.sh {p['id']} quick",
        "thorough_cmd": f"bash /verif/check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"], "level": "model_checking",
        "level_note": " ".join(p["note"].split())})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
