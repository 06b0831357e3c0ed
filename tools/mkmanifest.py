#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules."""
import json, os, glob

root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
notes = json.load(open(os.path.join(root, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.isfile(os.path.join(root, "checks", i.lower() + ".py")):
        t, n = notes.get(i, ["property-based testing (Hypothesis): differential and metamorphic relations over generated cases", ""])
        checks.append(
            dict(
                property=i,
                quick_cmd=f"./check {i}",
                thorough_cmd=f"./check {i} --tier thorough",
                evidence_file=f"evidence/{i}.json",
                technique=t,
                level="exploration",
                level_note=(n + " Bounded search over generated cases; trusts numpy/scipy/xarray and the harness oracle.").strip(),
            )
        )
    else:
        na.append(dict(property=i, reason=notes.get(i + "-na", "check not built yet")))
m = dict(
    version=1,
    setup_cmd="./setup.sh",
    checks=checks,
    not_applicable=na,
    notes="foxes is pure Python: every check imports it directly from /repo's working tree. No hooks are needed in /repo.",
)
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
