#!/usr/bin/env python3
"""plant.py FILE.py [ID ...]: confirm planted changes in a scratch copy and store them under /verif/seeded.

FILE.py defines PLANTS, a list of dicts: id, property, edits [(file below src/evotorch, old text, new text)], needs, breaks, demo (python source).
Each is kept only if the stable tests still pass and the demonstration passes without and fails with the change.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import runpy
import shutil
import subprocess
import sys

SEED = "/verif/seeded"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", CUDA_VISIBLE_DEVICES="", MPLBACKEND="Agg", OMP_NUM_THREADS="2", RAY_ADDRESS="local",
           RAY_USAGE_STATS_ENABLED="0", WANDB_MODE="disabled", MLFLOW_DISABLE_TELEMETRY="true", MLFLOW_DISABLE_AGENT_HINT="1", MLFLOW_ALLOW_FILE_STORE="true")
DEMO_SH = '#!/bin/bash\n# exit 0: the property holds; nonzero: it is broken\nexport PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= MLFLOW_DISABLE_AGENT_HINT=1 RAY_ADDRESS=local RAY_USAGE_STATS_ENABLED=0\nexec timeout 280 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def one(p):
    i = p["id"]
    d = "/tmp/plants/" + hashlib.md5(i.encode()).hexdigest()[:6]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = d + "/repo"
    sh(f"git -C /repo worktree prune; git clone -q /repo {w}", "/tmp")
    env = dict(ENV, PYTHONPATH=w + "/src", TMPDIR=d, RAY_TMPDIR=d)
    os.makedirs(d + "/demo")
    with open(d + "/demo/demo.py", "w") as f:
        f.write(p["demo"])
    with open(d + "/demo/demo.sh", "w") as f:
        f.write(DEMO_SH)
    os.chmod(d + "/demo/demo.sh", 0o755)
    rc, out = sh(f"bash {d}/demo/demo.sh", w, env)
    if rc != 0:
        return i, f"demo fails on the unchanged tree (rc {rc})\n" + out[-1500:]
    for fn, old, new in p["edits"]:
        fp = f"{w}/src/evotorch/{fn}"
        with open(fp) as f:
            s = f.read()
        if s.count(old) != 1:
            return i, f"{fn}: {s.count(old)} matches of {old!r}"
        with open(fp, "w") as f:
            f.write(s.replace(old, new))
    rc, out = sh(f"bash {d}/demo/demo.sh", w, env)
    if rc == 0:
        return i, "demo passes with the change"
    tail = out[-300:]
    _, diff = sh("git diff", w)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
    rc, out = sh(f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov --timeout=300 -x --basetemp={d}/pt tests 2>&1 | tail -8", w, env, 1500)
    last = out.strip().splitlines()[-1] if out.strip() else ""
    if "failed" in last or "error" in last or "984 passed" not in last:
        return i, "tests: " + out[-1200:]
    dst = f"{SEED}/{i}"
    os.makedirs(dst, exist_ok=True)
    with open(dst + "/patch.diff", "w") as f:
        f.write(diff)
    for n in ("demo.py", "demo.sh"):
        shutil.copy(f"{d}/demo/{n}", f"{dst}/{n}")
    with open(dst + "/meta.json", "w") as f:
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, f, indent=1)
        f.write("\n")
    shutil.rmtree(d, ignore_errors=True)
    return i, "kept; demo says: " + tail.strip().splitlines()[-1][:160] + " | tests: " + out.strip().splitlines()[-1]


if __name__ == "__main__":
    plants = runpy.run_path(sys.argv[1])["PLANTS"]
    if len(sys.argv) > 2:
        plants = [p for p in plants if p["id"] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(3) as ex:
        for i, msg in ex.map(one, plants):
            print(f"== {i}: {msg}", flush=True)
