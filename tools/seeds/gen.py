#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the entries in seeds.py: gen.py [ID ...] (development tool)."""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
DEMO = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "demo.sh")).read()
out = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../../seeded"))
pick = set(sys.argv[1:])
for s in SEEDS:
    if pick and s["id"] not in pick:
        continue
    d = os.path.join(out, s["id"])
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        for side in "ab":
            for f, *_ in s["edits"]:
                os.makedirs(os.path.dirname(f"{t}/{side}/{f}"), exist_ok=True)
                shutil.copy(f"/repo/{f}", f"{t}/{side}/{f}")
        for f, old, new in s["edits"]:
            p = f"{t}/b/{f}"
            src = open(p).read()
            n = s.get("nth", 0)
            assert src.count(old) >= 1, (s["id"], f, old)
            assert src.count(old) == 1 or "nth" in s or s.get("all"), (s["id"], "ambiguous", src.count(old))
            if s.get("all"):
                src = src.replace(old, new)
            else:
                i = -1
                for _ in range(n + 1):
                    i = src.index(old, i + 1)
                src = src[:i] + new + src[i + len(old):]
            open(p, "w").write(src)
        diff = ""
        for f in dict.fromkeys(f for f, *_ in s["edits"]):
            subprocess.run(["rustfmt", "--edition", "2021", "--config", "skip_children=true", f"{t}/b/{f}"], stderr=subprocess.DEVNULL)
            diff += subprocess.run(["git", "diff", "--no-index", "--no-color", f"a/{f}", f"b/{f}"], cwd=t, capture_output=True, text=True).stdout.replace(f"a/a/{f}", f"a/{f}").replace(f"b/b/{f}", f"b/{f}")
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.rs", "w").write(s["demo"].lstrip("\n"))
    open(f"{d}/demo.sh", "w").write(DEMO)
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    print(s["id"], len(diff.splitlines()))
