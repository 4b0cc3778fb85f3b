#!/usr/bin/env python3
"""Mutation campaign (development tool): run.py WORK [NAME|PROPERTY ...]

Works on copies under WORK (a scratch directory): WORK/repo of /repo and WORK/verif of /verif, with
the mirror pointed at WORK/repo.  Prints, for each mutant, whether the check of its property caught it."""
import os, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(__file__))
from mutants import M
from mutants2 import M2
from mutants3 import M3
from mutants4 import M4
from mutants5 import M5
from mutants6 import M6
from mutants7 import M7
M = M + M2 + M3 + M4 + M5 + M6 + M7
work, pick = sys.argv[1], set(sys.argv[2:])
repo, verif = work + "/repo", work + "/verif"
os.makedirs(work, exist_ok=True)
if not os.path.exists(repo):
    subprocess.check_call(["cp", "-a", "/repo", repo])
subprocess.check_call(["rsync", "-a", "--exclude", ".git", "--exclude", "seeded", "--exclude", "build/mirror*", "/verif/", verif + "/"]) if shutil.which("rsync") else subprocess.check_call(f"mkdir -p {verif}; cd /verif && tar cf - --exclude=.git --exclude=./seeded --exclude=./build/mirror --exclude=./build/mirror-jwe {'--exclude=./build' if os.path.exists(verif + '/build') else ''} . | tar xf - -C {verif}", shell=True)
p = verif + "/tools/mirror.py"
s = open(p).read().replace('REPO = "/repo"', f'REPO = "{repo}"')
open(p, "w").write(s)
subprocess.run("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", shell=True, cwd=repo, check=True)
env = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
for name, prop, file, *edits in M:
    if pick and not (name in pick or prop in pick):
        continue
    path = os.path.join(repo, file)
    src = orig = open(path).read()
    ok = True
    for old, new in zip(edits[::2], edits[1::2]):
        if src.count(old) < 1:
            print(f"STALE   {prop} {name}: text not found", flush=True); ok = False
        src = src.replace(old, new, 1) if src.count(old) == 1 else src.replace(old, new, 1)
    if not ok:
        continue
    open(path, "w").write(src)
    t = time.time()
    r = subprocess.run([verif + "/run.sh", prop, "quick"], env=env, capture_output=True, text=True)
    open(path, "w").write(orig)
    out = r.stdout + r.stderr
    verdict = "CAUGHT " if r.returncode == 1 and f"VIOLATION property={prop}" in out else "MISSED " if r.returncode == 0 else "NOBUILD"
    extra = ""
    if verdict == "NOBUILD":
        extra = "\n    ".join([l for l in out.splitlines() if "error" in l][:4])
    elif verdict == "CAUGHT ":
        extra = " ".join(out.split("VIOLATION")[0].strip().splitlines()[-1:])[:150]
    print(f"{verdict} {prop} {name} {time.time()-t:.0f}s {extra}", flush=True)
