"""Writes MANIFEST.json from properties.jsonl and the checks present in props/."""

import importlib
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"))]

checks, na = [], []
for p in props:
    path = os.path.join(ROOT, "props", p["id"].lower() + ".py")
    if not os.path.isfile(path):
        na.append({"property": p["id"], "reason": "the check is not built yet"})
        continue
    src = open(path).read()
    m = re.search(r'^TECHNIQUE = \(?\s*((?:"[^"]*"\s*)+)\)?', src, re.M)
    technique = "".join(re.findall(r'"([^"]*)"', m.group(1))) if m else "property-based testing against a reference model"
    m = re.search(r'^LEVEL_NOTE = \(?\s*((?:"[^"]*"\s*)+)\)?', src, re.M)
    note = "".join(re.findall(r'"([^"]*)"', m.group(1))) if m else (
        "generated cases up to small sizes; passing means no counterexample among the cases counted in the evidence"
    )
    checks.append(
        {
            "property": p["id"],
            "quick_cmd": f"bash run.sh {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {p['id']}",
            "technique": technique,
            "level": "exploration",
            "level_note": note,
            "evidence_file": f"evidence/{p['id']}.json",
        }
    )
manifest = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
