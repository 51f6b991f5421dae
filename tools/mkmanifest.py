#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and the contracts present."""
import json
import os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
have = {f[:3].upper() for f in os.listdir(os.path.join(here, "contracts")) if f.endswith(".py") and f[0] == "c" and f[1:3].isdigit()}
NOTES = json.load(open(os.path.join(here, "tools", "notes.json")))
m = dict(version=1, setup_cmd="/opt/venv/bin/python selfcheck.py --setup", checks=[], not_applicable=[],
         notes="One runner (check.py) discharges every contract of a property against /repo's current source; see DESIGN.md.")
for p in props:
    if p in have:
        m["checks"].append(dict(property=p, quick_cmd=f"/opt/venv/bin/python check.py {p}",
                                thorough_cmd=f"VERIF_TIER=thorough /opt/venv/bin/python check.py {p}", evidence_file=f"evidence/{p}.json",
                                technique=NOTES["technique"].get(p, NOTES["technique"]["*"]), level="exploration" if p in NOTES["bounded_only"] else "proof",
                                level_note=NOTES["level"].get(p, "") + NOTES["level"]["*"]))
    else:
        m["not_applicable"].append(dict(property=p, reason=NOTES["na"].get(p, "no contract built yet")))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print("claimed:", sorted(have))
