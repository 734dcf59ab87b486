#!/opt/venv/bin/python
"""Confirms a planted bug in a scratch copy and stores it under seeded/.

usage: plant.py FILE.py [ID...]     FILE defines BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
HEAD = '''import asyncio, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.getcwd())
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import toffee
from toffee import *
from toffee.triggers import *
from fakedut import DUT
toffee.setup_logging(log_level=60, console_display=False)

'''


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def blame_ok(edits):
    """Removed lines must be lines of the first commit."""
    base = sh(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"]).stdout.strip()
    for f in {e[0] for e in edits}:
        pass
    return base


def own_lines(work):
    """Removed lines of the diff that are not from the base commit, and whether any base line is removed at all."""
    base = blame_ok([])
    d = sh(["git", "-C", work, "diff", "-U0"]).stdout
    f, bad, good = None, [], 0
    for line in d.split("\n"):
        if line.startswith("--- a/"):
            f = line[6:]
            blame = sh(["git", "-C", work, "blame", "-l", "-s", "HEAD", "--", f]).stdout.split("\n")
        elif line.startswith("@@"):
            a = line.split()[1][1:]
            n, c = (a.split(",") + ["1"])[:2]
            for k in range(int(n), int(n) + int(c)):
                if blame[k - 1].lstrip("^")[:39] == base[:39]:
                    good += 1
                else:
                    bad.append((f, k, blame[k - 1][:100]))
    return bad, good


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    only = sys.argv[2:]
    for b in bugs:
        if only and b["id"] not in only:
            continue
        work = tempfile.mkdtemp(prefix="plant_")
        try:
            one(b, work)
        finally:
            shutil.rmtree(work)


def one(b, work):
    w = os.path.join(work, "repo")
    sh(["git", "clone", "-q", "/repo", w])
    for f, old, new in b["edits"]:
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "EDIT does not match once:", s.count(old), repr(old[:60]))
            return
        open(p, "w").write(s.replace(old, new))
    bad, good = own_lines(w)
    patch = sh(["git", "-C", w, "diff"]).stdout
    if bad or not good:
        print(b["id"], "touches own lines" if bad else "changes no original line (pure insertion)", bad[:2])
        if bad:
            return
    d = os.path.join(work, b["id"])
    os.makedirs(d)
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    open(os.path.join(d, "demo.py"), "w").write(HEAD + b["demo"].strip() + '\nprint("ok")\n')
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/sh\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    shutil.copy(os.path.join(ROOT, "vf", "dut.py"), os.path.join(d, "fakedut.py"))
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)

    def demo(cwd):
        try:
            r = sh([os.path.join(d, "demo.sh")], cwd=cwd, timeout=100)
        except subprocess.TimeoutExpired:
            return 99, "timeout"
        return r.returncode, (r.stdout + r.stderr)[-300:]

    rc, out = demo("/repo")
    if rc != 0:
        print(b["id"], "DEMO FAILS ON THE UNCHANGED TREE:", out)
        return
    rc, out = demo(w)
    if rc == 0:
        print(b["id"], "DEMO PASSES WITH THE BUG")
        return
    t = sh([PY, "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=w, env=dict(os.environ, PYTHONPATH=w))
    if t.returncode != 0 or "17 passed" not in t.stdout:
        print(b["id"], "TESTS:", t.stdout.strip().split("\n")[-1])
        if "passed" not in t.stdout or "failed" in t.stdout or "error" in t.stdout:
            return
    res = []
    for prop in [b["property"]] + b.get("also", []):
        r = sh([PY, os.path.join(ROOT, "run.py"), prop], env=dict(os.environ, VF_REPO=w, VERIF_SEED="1"))
        hit = r.returncode == 1 and f"VIOLATION property={prop} " in r.stdout
        res.append(f"{prop}:{'caught' if hit else 'MISSED rc=%d' % r.returncode}")
        if hit:
            res.append("   " + r.stdout.split("\n")[0][:170])
        else:
            res.append("   " + (r.stdout + r.stderr)[-150:].replace("\n", " "))
    dst = os.path.join(ROOT, "seeded", b["id"])
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    print(b["id"], *res)


main()
