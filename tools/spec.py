#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, group, title, statement, over, text, why, files, mech, technique, note, level="exploration", env="", observe=None):
    P.append(dict(id=id, group=group, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note, level=level, env=env, observe=observe))

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        if p["observe"]:
            o["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(o, ensure_ascii=False) + "\n")

HOOKS = {"guard": "verif", "enable": "go build -tags verif (run.sh does); VERIF_FLUSH_INTERVAL then shortens the flush interval",
         "source_commits": ["ed09e86"]}
checks = []
for p in sorted(P, key=lambda p: p["id"]):
    cmd = (p["env"] + " " if p["env"] else "") + "./run.sh %s %s" % (p["group"], p["id"])
    checks.append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick " + cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                   "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": HOOKS, "checks": checks, "not_applicable": [],
     "notes": "Every check builds its harness into /repo's module through go build -overlay (nothing is written there), runs generated executions of the real code in worker processes and decides them with online oracles; see DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
