#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks
V = os.path.join(HERE, "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = dict(checks.NOT_APPLICABLE)
out = dict(version=1, setup_cmd="bin/setup", checks=[], not_applicable=[],
           notes="Specifications in spec/ (TLA+, TLC); drivers in harness/ (built into golearn's module through a build overlay, no hooks in /repo); bin/check <id> decides one property.")
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        k = checks.CHECKS[i]
        out["checks"].append(dict(property=i, quick_cmd="bin/check %s --tier quick" % i, thorough_cmd="bin/check %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=k["technique"], level=k.get("level", "model_checking"),
            level_note=k.get("note", checks.NOTE)))
    else:
        out["not_applicable"].append(dict(property=i, reason=NA.get(i, "not built yet")))
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks;", [x["property"] for x in out["not_applicable"]], "not applicable")
