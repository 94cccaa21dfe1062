#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of implemented checks."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__)) + "/.."
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
cfg = json.load(open(HERE + "/harness/checks.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in cfg:
        c = cfg[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique=c.get("technique", "property-based testing"), level="exploration",
            level_note=c.get("note", "Generated-input search; establishes the absence of violations only on the explored cases."),
            evidence_file="evidence/%s.json" % i))
    else:
        na.append(dict(property=i, reason="check under construction"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
    hooks=dict(guard="none", enable="no hooks: the checks compile /repo's sources unmodified together with the harnesses in /verif/harness", source_commits=[]),
    notes="See DESIGN.md. Every check compiles what it needs from /repo's working tree into /verif/build (ignored by git).")
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not applicable")
