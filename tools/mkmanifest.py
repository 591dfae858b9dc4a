#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks/*.py (first docstring line = level note)."""
import json, os, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
checks, na = [], []
for p in props:
    f = "%s/checks/%s.py" % (V, p["id"])
    if os.path.exists(f):
        doc = ast.get_docstring(ast.parse(open(f).read())) or ""
        checks.append(dict(property=p["id"], quick_cmd="VERIF_TIER=quick bin/check " + p["id"],
            thorough_cmd="VERIF_TIER=thorough bin/check " + p["id"], evidence_file="evidence/%s.json" % p["id"],
            technique="TLA+ specification model-checked with TLC; implementation behaviours validated against it by TLC",
            level="model_checking", level_note=" ".join(doc.split())))
    else:
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "no check is registered for this property (see DESIGN.md)")))
m = dict(version=1, setup_cmd="true", hooks=dict(guard="DNSTABLE_VERIF", enable="no hooks were needed in /repo; the checks build the unmodified sources", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="All checks run bin/check <id>: build /repo's working tree into a scratch directory, model-check the specification in spec/, run a driver from harness/, and have TLC judge every recorded behaviour.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
