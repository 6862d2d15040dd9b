#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + per property (properties, evidence of the last runs, seeds)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
j = lambda *p: os.path.join(ROOT, *p)
props = [json.loads(l) for l in open(j("properties.jsonl"))]
man = {c["property"]: c for c in json.load(open(j("MANIFEST.json")))["checks"]}
notes = {}
cur = None
for l in open(j("tools", "design_notes.md")):
    if l.startswith("## "): cur = l[3:].strip(); notes[cur] = ""
    elif cur: notes[cur] += l
res = json.load(open(j("tools", "seed_results.json")))
out = open(j("tools", "design_head.md")).read().rstrip() + "\n\n## Properties\n"
for p in props:
    id = p["id"]; m = man.get(id)
    out += "\n### %s %s\n\n%s\n\n" % (id, p["title"], p["statement"])
    out += "*Quantified over:* %s.\n\n*Why tests cannot settle it:* %s\n\n" % (p["quantifier"]["text"], p["why_tests_cant"])
    if m:
        out += "*Decided by:* %s. %s\n\n" % (m["technique"], m["level_note"])
    if notes.get(id): out += notes[id].strip() + "\n\n"
    f = j("evidence", id + ".json")
    if os.path.exists(f):
        e = json.load(open(f))
        out += "*Explored by the %s check:*\n" % e.get("tier", "quick")
        for fam in e["coverage"].get("families", []):
            out += "- `%s` (%s cases): %s\n" % (fam["name"], fam["cases"], fam["rule"])
    s = sorted(k for k in res if res[k]["property"] == id)
    if s: out += "\n*Planted:* " + "; ".join("%s (%s)" % (k, "caught" if res[k]["caught"] else "MISSED") for k in s) + "\n"
out += "\n## Planted changes\n\n| id | what it breaks | needs | caught by |\n|---|---|---|---|\n"
for k in sorted(res):
    mt = json.load(open(j("seeded", k, "meta.json")))
    out += "| %s | %s | %s | %s |\n" % (k, mt["what_it_breaks"], mt["needs"], ", ".join(res[k]["caught"]) or "-")
if os.path.exists(j("tools", "design_tail.md")): out += "\n" + open(j("tools", "design_tail.md")).read()
open(j("DESIGN.md"), "w").write(out)
