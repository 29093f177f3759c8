#!/usr/bin/env python3
"""Writes MANIFEST.json: the checks listed in NOTES, everything else not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "bounded exhaustive exploration of the compiled library against an explicit reference model"
H = "exhaustive exploration of all operation histories up to a depth on the real code, compared step by step with an explicit-state model"
NOTES = {
 "C02": (T, "all data sets of the listed families (grids, gap sequences, all distance matrices over a small alphabet, block compositions) x minPts"),
 "C03": (T, "as C02; cycle/weight/order checks and an independent minimum weight per case"),
 "C04": (T, "as C02; every level of every hierarchy compared with component decomposition at that level"),
 "C05": (T, "as C02; every cluster record of every run"),
 "C06": (T, "as C02; maximum-stability antichain computed independently; ties within rounding accepted"),
 "C07": (T, "as C02; every score of every run"),
}
exec(open(os.path.join(V, "tools", "notes.py")).read()) if os.path.exists(os.path.join(V, "tools", "notes.py")) else None
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks = []; na = []
for p in props:
    i = p["id"]
    if i in NOTES:
        t, n = NOTES[i]
        checks.append(dict(property=i, quick_cmd="bin/check " + i, thorough_cmd="VERIF_TIER=thorough bin/check " + i, evidence_file="evidence/%s.json" % i, technique="model checking: " + t, level="model_checking", level_note="exhaustive within stated bounds: " + n))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 bin/setup", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
