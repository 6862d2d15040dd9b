#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, technique, note, level="model_checking", hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, level=level, hook=hook))

exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())

P.sort(key=lambda p: p["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": p["hook"]},
        }) + "\n")
man = {
    "version": 1,
    "setup_cmd": "bash build.sh",
    "hooks": HOOKS,
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bash check.sh %s quick" % p["id"],
        "thorough_cmd": "bash check.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"], "level": p["level"], "level_note": p["note"],
    } for p in P],
    "not_applicable": NOT_APPLICABLE,
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1); f.write("\n")
print(len(P), "properties")
