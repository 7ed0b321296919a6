#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per properties.jsonl entry which has checks/<id>.cpp."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".cpp")):
        n = NOTES.get(i, {})
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
            thorough_cmd="python3 check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
            technique=n.get("technique", "property-based testing (choice-sequence generation, coverage-guided mutation, shrinking) under ASan/UBSan"),
            level="exploration",
            level_note=n.get("note", "Generated-input search against the oracle described in DESIGN.md; no proof of absence. Trusts the harness's reference model, the sanitizers and the fixed build configuration.")))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get("na", "no check built yet")))
m = dict(version=1, setup_cmd="python3 build.py --all", hooks=dict(guard="VERIF_HOOKS", enable="build.py compiles with -DVERIF_HOOKS=1 (no hook is needed so far)", source_commits=[]),
    checks=checks, not_applicable=na, notes="All checks: python3 check.py ID; replay: python3 check.py ID --replay FILE. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
