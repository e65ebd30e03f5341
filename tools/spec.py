#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run after editing."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, technique=technique, note=note, observe=list(observe)))

MODEL = ("Random search only: no absence claim. Trusts the reference model written from the language's "
         "documentation and observed behaviour; generated programs avoid the triggers in known-findings.txt.")
exec(open(os.path.join(ROOT, "tools", "props_core.py")).read())
for extra in ("props_std.py", "props_ui.py", "props_svc.py", "props_dev.py", "props_net.py", "props_cli.py", "props_web.py", "props_pi.py"):
    f = os.path.join(ROOT, "tools", extra)
    if os.path.exists(f):
        exec(open(f).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
manifest = {
    "version": 1,
    "setup_cmd": "./run.sh build",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"./run.sh {p['id']}",
        "thorough_cmd": f"./run.sh {p['id']} thorough",
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in P],
    "not_applicable": [],
    "notes": "No hooks in /repo are needed: the harness uses the public API of the crates only.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
