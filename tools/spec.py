#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, technique=None, level=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  state=state, observe=observe, technique=technique, level=level, note=note, na=na))


exec(open(os.path.join(V, "tools", "properties.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"], "anchors": a}) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": [], "not_applicable": []}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                            "evidence_file": "evidence/%s.json" % p["id"],
                            "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

# DESIGN.md
exec(open(os.path.join(V, "tools", "how.py")).read())
d = open(os.path.join(V, "tools", "DESIGN.in.md")).read()
tab = ""
for p in P:
    if not p["na"]:
        tab += "### %s %s\n\n%s\n\n* *How*: %s\n* *Bounds*: %s.\n* *Beyond tests*: %s.\n\n" % (
            p["id"], p["title"], p["statement"], HOW[p["id"]], p["qtext"].rstrip("."), p["why"].rstrip("."))
na = "".join("* **%s** %s: %s\n" % (p["id"], p["title"], p["na"]) for p in P if p["na"])
seeds = "| seed | property / check | breaks | needs |\n|---|---|---|---|\n"
for n in sorted(os.listdir(os.path.join(V, "seeded"))):
    j = json.load(open(os.path.join(V, "seeded", n, "meta.json")))
    seeds += "| %s | %s | %s | %s |\n" % (n, j["property"], str(j["what_it_breaks"]).replace("|", "/"), str(j["needs"]).replace("|", "/"))
fixed = "Repaired in /repo (`fix:` commits):\n\n"
for l in open(os.path.join(V, "known_findings.txt")):
    if l.startswith("fixed: property="):
        a, b, c = l[len("fixed: property="):].strip().split(" ", 2)
        fixed += "* %s `%s`: %s\n" % (a, b, c)
for k, v in (("DESIGN_TABLE", tab), ("NA_TABLE", na), ("SEED_TABLE", seeds), ("FIXED_TABLE", fixed)):
    d = d.replace(k + "\n", v + "\n")
open(os.path.join(V, "DESIGN.md"), "w").write(d)
