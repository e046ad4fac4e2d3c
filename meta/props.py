#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 meta/props.py"""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mechanism, state=(), observe=(), hook=None,
         technique=None, level="model_checking", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mechanism=mechanism, state=state, observe=observe, hook=hook, technique=technique, level=level, note=note, na=na))


exec(open(os.path.join(V, "meta/properties.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        a = {"files": p["files"], "mechanism": [dict(name=n, where=w) for n, w in p["mechanism"]], "hook_needed": p["hook"]}
        if p["state"]:
            a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = list(p["observe"])
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"].split(), "text": p["quant"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")

checks = [{"property": p["id"], "quick_cmd": "python3 checks/run.py " + p["id"],
           "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + p["id"],
           "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P if not p["na"]]
m = {"version": 1, "setup_cmd": "python3 checks/setup.py",
     "hooks": {"guard": "none", "enable": "no hooks: the checks drive the unmodified tree through its public surface", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
     "notes": "TLA+ with TLC. /repo carries only 'fix:' commits, listed in known_findings.txt. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
