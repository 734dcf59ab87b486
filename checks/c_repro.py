"""The same testbench in several processes."""

import json
import os
import subprocess
import sys
import tempfile

from checks import Check
from vf import core

WORKER = os.path.join(core.ROOT, "vf", "repro.py")


class R01(Check):
    PROP = "R01"
    quick, thorough = 45, 500
    need = {f"workloads ({k})": n for k, n in dict(env=150, executor=70, bundle=150, coverage=70, code=70, events=70).items()}
    need.update({"lines compared": 25000, "different hash seeds": 40, "different orders": 40})
    rule = (
        "random testbenches (environments with hooks, monitors and executors, tasks with events and queues, bundles, coverage groups, generated "
        "code) are run in two processes with different seeds of Python's string hashes, in different orders and after different other work; "
        "everything they show is compared line by line; distinct by what they showed"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        n = 27
        first = ctx.i * n
        runs = []
        for k in range(2):
            env = dict(os.environ, VF_REPO=core.REPO, PYTHONHASHSEED=str(rng.choice([0, rng.randint(1, 1 << 31)]) if k else rng.randint(1, 1 << 31)), PYTHONDONTWRITEBYTECODE="1")
            order = rng.randint(0, 999)
            out = tempfile.TemporaryFile()
            cmd = [sys.executable, WORKER, str(ctx.seed), str(first), str(n), str(order)]
            runs.append((env["PYTHONHASHSEED"], order, out, subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=out, stderr=out)))
        ctx.note([(a, b) for a, b, _, _ in runs])
        got = []
        for seed, order, out, p in runs:
            # (each worker ends on its own: it limits the CPU time of each workload and finds blocked ones)
            while p.poll() is None:
                try:
                    p.wait(0.5)
                except subprocess.TimeoutExpired:
                    sum(range(100000))  # (so that this process does not look blocked)
            out.seek(0)
            text = out.read().decode()
            out.close()
            lines = {}
            for line in text.splitlines():
                try:
                    d = json.loads(line)
                    lines[d["k"]] = d
                except Exception:
                    ctx.fail(f"a process ended with {p.returncode}: {text[-600:]!r}")
            if p.returncode or len(lines) != n:
                ctx.fail(f"a process with {len(lines)} of {n} workloads ended with {p.returncode}: {text[-300:]!r}")
            got.append(lines)
        if runs[0][0] != runs[1][0]:
            ctx.saw("different hash seeds")
        if runs[0][1] != runs[1][1]:
            ctx.saw("different orders")
        for k in sorted(got[0]):
            a, b = got[0][k], got[1][k]
            for name in ("bad", "what"):
                for x, y in zip(a[name], b[name]):
                    if x != y:
                        ctx.fail(f"workload {k} ({a['kind']}) behaves differently in two processes: {cut(x, y)} and {cut(y, x)}")
                if len(a[name]) != len(b[name]):
                    ctx.fail(f"workload {k} ({a['kind']}) behaves differently in two processes: {len(a[name])} and {len(b[name])} events, the first only has {(a[name] + b[name])[min(len(a[name]), len(b[name]))]}")
            if a["bad"]:
                ctx.fail(f"workload {k} ({a['kind']}): {a['bad'][0]}")
            ctx.saw(f"workloads ({a['kind']})")
            ctx.saw("lines compared", len(a["what"]))
            ctx.key(a["what"])


def cut(x, y):
    """The part of x where it differs from y."""
    k = next((k for k, (c, d) in enumerate(zip(x, y)) if c != d), min(len(x), len(y)))
    return "..." * (k > 60) + x[max(0, k - 60) : k + 200]
