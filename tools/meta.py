#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique=None, note=None, hook=None, state=None, na=None, claimed=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, hook=hook, state=state, na=na, claimed=claimed))
exec(open(os.path.join(HERE, "tools", "props.py")).read())
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": p["hook"]}
        if p["state"]:
            anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": anchors}, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["title"]
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [c.split()[0] for c in commits if c.split(" ", 1)[1].startswith("verif:")]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "cfg(akasa_verif)", "enable": "RUSTFLAGS=\"--cfg akasa_verif\" (set by /verif/env.sh when it builds mc-core)", "source_commits": hooks},
     "checks": [], "not_applicable": []}
for p in P:
    if p["claimed"]:
        m["checks"].append({"property": p["id"], "quick_cmd": f"VERIF_TIER=quick ./check.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
                            "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"] or "no check registered yet"})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
