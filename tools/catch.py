#!/usr/bin/env python3
"""catch.py [ID ...]: run the check of each planted change's property against a scratch copy with the change; print what was caught."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

SEED = "/verif/seeded"


def one(i):
    m = json.load(open(f"{SEED}/{i}/meta.json"))
    d = f"/tmp/catch/{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
    a = subprocess.run(["git", "-C", d + "/repo", "apply", f"{SEED}/{i}/patch.diff"], capture_output=True, text=True)
    if a.returncode:
        return i, m["property"], "PATCH DOES NOT APPLY", a.stderr[-300:]
    env = dict(os.environ, SA_REPO=d + "/repo", SA_EVIDENCE=d + "/evidence", SA_JOBS="4")
    p = subprocess.run([sys.executable, "-m", "sa.check", m["property"]], cwd="/verif", env=env, capture_output=True, text=True, timeout=1500)
    hit = [x for x in p.stdout.splitlines() if x.startswith("VIOLATION property=" + m["property"])]
    shutil.rmtree(d, ignore_errors=True)
    if p.returncode == 1 and hit:
        return i, m["property"], "caught", ""
    return i, m["property"], f"MISSED rc={p.returncode}", "" if p.returncode == 0 else (p.stdout + p.stderr)[-500:]


if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(SEED))
    ids = [j for i in ids for j in sorted(os.listdir(SEED)) if j == i or (j.startswith(i) and len(i) == 3)]
    with cf.ThreadPoolExecutor(2) as ex:
        for r in ex.map(one, ids):
            print(*r, flush=True)
