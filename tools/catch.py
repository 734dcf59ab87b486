#!/opt/venv/bin/python
"""Runs the checks against the planted bugs in scratch copies of /repo.

usage: catch.py [ID...]      prints one line per bug: caught / MISSED, and by which scenario
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i):
    d = os.path.join(ROOT, "seeded", i)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    work = tempfile.mkdtemp(prefix="catch_")
    try:
        w = os.path.join(work, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
        r = subprocess.run(["git", "-C", w, "apply", os.path.join(d, "patch.diff")], capture_output=True, text=True)
        if r.returncode:
            return f"{i} DOES NOT APPLY {r.stderr[:200]}"
        env = dict(os.environ, VF_REPO=w, VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        r = subprocess.run(["/opt/venv/bin/python", os.path.join(ROOT, "run.py"), prop, "--tier", "quick"], capture_output=True, text=True, env=env)
        hit = r.returncode == 1 and f"VIOLATION property={prop} " in r.stdout
        return f"{i} {'caught' if hit else 'MISSED rc=%d' % r.returncode} {r.stdout.strip()[:160]!r}"
    finally:
        shutil.rmtree(work)


ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
with concurrent.futures.ThreadPoolExecutor(7) as ex:
    for line in ex.map(one, ids):
        print(line, flush=True)
