#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
def chk(pid, technique, note, level="exploration"):
    T[pid] = (technique, note, level)

exec(open(os.path.join(V, "tools", "checks.tbl")).read())
NA = {}
exec(open(os.path.join(V, "tools", "na.tbl")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="true", checks=[], not_applicable=[])
for p in props:
    if p in T and os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
        t, n, l = T[p]
        m["checks"].append(dict(property=p, quick_cmd="VERIF_TIER=quick python3 checks/%s.py" % p.lower(),
                                thorough_cmd="VERIF_TIER=thorough python3 checks/%s.py" % p.lower(),
                                evidence_file="evidence/%s.json" % p, technique=t, level=l, level_note=n))
    else:
        m["not_applicable"].append(dict(property=p, reason=NA.get(p, "check not built yet")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
