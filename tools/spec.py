#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, technique=None, level="exploration", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  state=state, observe=observe, technique=technique, level=level, note=note, na=na))

exec(open("/verif/tools/props.py").read())

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]: a["state"] = p["state"]
        if p["observe"]: a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")

m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
     "hooks": {"guard": "none (source overlay built by /verif/mc/cmd/instr; no hook is committed in /repo)",
               "enable": "bash /verif/build.sh DIR: rewrites /repo/src at build time through 'go build -overlay'", "source_commits": []},
     "checks": [], "not_applicable": [], "notes": "See DESIGN.md. Every check builds the prover and the controlled engine from /repo's working tree."}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": f"bash /verif/run.sh {p['id']} quick",
        "thorough_cmd": f"bash /verif/run.sh {p['id']} thorough", "evidence_file": f"evidence/{p['id']}.json",
        "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
