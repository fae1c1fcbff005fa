#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note))
exec(open(os.path.join(HERE, "properties_src.py")).read())
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "bash /verif/check.sh build",
     "checks": [{"property": p["id"], "quick_cmd": f"bash /verif/check.sh {p['id']} quick",
                 "thorough_cmd": f"bash /verif/check.sh {p['id']} thorough",
                 "evidence_file": f"evidence/{p['id']}.json",
                 "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P],
     "not_applicable": [],
     "notes": "No hooks: every check drives the cdx binary or the public library API. Replay a failure with: bash /verif/check.sh replay FILE"}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
