#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. DONE lists the properties with a check; NOTES what each check assures."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(HERE, "tools", "manifest_data.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "bash run.sh --build",
    "checks": [
        {
            "property": i,
            "quick_cmd": f"bash run.sh {i} quick",
            "thorough_cmd": f"bash run.sh {i} thorough",
            "technique": TECH[i],
            "level": LEVEL.get(i, "exploration"),
            "level_note": NOTE[i],
        }
        for i in ids
        if i in TECH
    ],
    "not_applicable": [
        {"property": i, "reason": "the check is not built yet"} for i in ids if i not in TECH
    ],
    "notes": "run.sh mirrors /repo's library sources into build/mirror (see tools/mirror.py for why /repo cannot be resolved offline as it is), builds harness/ against it and runs vp-check. Replay a reported case with: bash run.sh --replay FILE.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
