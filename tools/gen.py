#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table (see PROPS)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None,
         technique="", level="exploration", note="", area=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, state=state, hook=hook, technique=technique, level=level,
                  note=note, area=area))
exec(open(os.path.join(ROOT, "tools", "props.py")).read())
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
             "observe_at": p["observe"], "hook_needed": p["hook"]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
AREAS = os.path.join(ROOT, "harness", "cmd")
checks, na = [], []
for p in P:
    if p["area"] and os.path.exists(os.path.join(AREAS, p["area"])) and p["id"] in READY:
        checks.append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick",
            "thorough_cmd": f"bash run.sh {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": HOOKS, "checks": checks, "not_applicable": na, "notes": NOTES}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "tools", "areas.txt"), "w").write("".join(f"{p['id']} {p['area']}\n" for p in P))
print(len(P), "properties", len(checks), "checks")
