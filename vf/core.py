"""Check runner: workload budget, observation counters, verdict, evidence, replay."""

import gc
import hashlib
import importlib
import json
import logging
import os
import random
import resource
import signal
import sys
import time
import traceback
import contextlib
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")

sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.insert(0, ROOT)


class Hang(KeyboardInterrupt):
    """(asyncio lets this one out of a task at once)"""


class Stop(Exception):
    """Raised by ctx.fail() outside of the code under test."""


class Ctx:
    """One scenario: its randomness and what the monitors saw in it."""

    def __init__(self, prop, seed, i, tier, total):
        self.prop, self.seed, self.i, self.tier = prop, seed, i, tier
        self.rng = random.Random(f"{prop}/{seed}/{i}")
        # sizes grow over the run, so that small counterexamples come first
        self.size = min(1.0, (i + 1) / max(1, total * 0.5))
        self.failures = []
        self.seen = {}
        self.keys = set()
        self.desc = []

    def saw(self, kind, n=1):
        self.seen[kind] = self.seen.get(kind, 0) + n

    def key(self, *parts):
        self.keys.add(hashlib.sha1(repr(parts).encode()).hexdigest()[:16])

    def note(self, text):
        if len(self.desc) < 40:
            self.desc.append(str(text))

    def bad(self, msg):
        """Record a violation; may be called from inside the run."""
        if len(self.failures) < 20:
            self.failures.append(str(msg))

    def fail(self, msg):
        self.bad(msg)
        raise Stop()

    def expect(self, cond, msg):
        if not cond:
            self.bad(msg() if callable(msg) else msg)
        return cond

    def equal(self, got, want, what):
        if got != want or type(got) is bool and type(want) is not bool:
            self.bad(f"{what}: expected {short(want)}, observed {short(got)}")
            return False
        return True

    def up(self, lo, hi):
        """A size between lo and hi which grows over the run."""
        return self.rng.randint(lo, max(lo, int(lo + (hi - lo) * self.size)))


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + f"... ({len(s)} chars)"


class LogCapture(logging.Handler):
    def __init__(self):
        super().__init__(level=0)
        self.records = []

    def emit(self, record):
        self.records.append((record.levelname, record.getMessage()))

    def at(self, *levels):
        return [m for lv, m in self.records if lv in levels]


@contextlib.contextmanager
def capture_logs(level=logging.DEBUG):
    lg = logging.getLogger("TOFFEE")
    h = LogCapture()
    old = lg.level
    lg.setLevel(level)
    lg.addHandler(h)
    try:
        yield h
    finally:
        lg.removeHandler(h)
        lg.setLevel(old)


def quiet():
    import toffee

    toffee.setup_logging(log_level=logging.CRITICAL + 10, console_display=False)
    lg = logging.getLogger("TOFFEE")
    lg.propagate = False
    logging.getLogger("asyncio").setLevel(logging.CRITICAL + 10)


class Guard:
    """Ends a scenario that loops inside one callback or eats up the memory (in CPU time, not wall-clock time), or one
    that sleeps in a blocking call: on IDLE_TICKS alarms in a row the process has not run at all since the last one."""

    CPU_LIMIT = 40
    MEMORY = 5 << 20  # KiB
    IDLE_TICKS = 12
    ticks = idle = 0
    cpu = 0.0

    @classmethod
    def start(cls):
        cls.ticks = cls.idle = 0
        signal.setitimer(signal.ITIMER_VIRTUAL, 1, 1)
        signal.setitimer(signal.ITIMER_REAL, 5, 5)

    @classmethod
    def stop(cls):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)

    @classmethod
    def alarm(cls, signum, frame):
        now = time.process_time()
        cls.idle = cls.idle + 1 if now - cls.cpu < 0.002 else 0
        cls.cpu = now
        if cls.idle > cls.IDLE_TICKS:
            raise Hang("the scenario is blocked for good")

    @classmethod
    def tick(cls, signum, frame):
        cls.ticks += 1
        if cls.ticks > cls.CPU_LIMIT:
            raise Hang("the scenario used up its CPU-time budget without finishing")
        if resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > cls.MEMORY:
            raise Hang("the scenario uses more and more memory without finishing")


def run_scenario(fn, ctx):
    """Run one scenario; every exception that is not part of the scenario is a failure of the code under test."""
    from vf import loop as vfloop
    from vf import dut as vfdut

    quiet()
    Guard.start()
    try:
        fn(ctx)
    except Stop:
        pass
    except (vfloop.NoProgress, vfdut.TooManySteps, Hang) as e:
        ctx.bad(f"no progress: {e}")
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb][-1:]
        loc = f" at {where[0].filename}:{where[0].lineno}" if where else ""
        ctx.bad(f"unexpected {type(e).__name__}: {e}{loc}")
        if os.environ.get("VF_DEBUG"):
            traceback.print_exc()
    finally:
        Guard.stop()


def load(prop):
    import checks

    return checks.find(prop)


class Refused:
    """The classes of the testbench cannot even be defined."""

    quick = thorough = 1
    need, rule, assumptions = {}, "the definitions of the check's testbench", []

    def __init__(self, e):
        self.e = e

    def scenario(self, ctx):
        ctx.fail(f"toffee refuses the definitions of the testbench: {type(self.e).__name__}: {self.e}")


def known_findings(prop):
    """[(mechanism, text)] of the findings that are listed as not repaired."""
    path = os.path.join(ROOT, "KNOWN_FINDINGS")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                fields = line[len("known:") :].strip().split(None, 2)
                if fields[0] == f"property={prop}" and fields[1].startswith("mech="):
                    out.append((fields[1][5:], fields[2]))
    return out


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", type=int)
    ap.add_argument("-n", type=int)
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"

    import toffee

    where = os.path.realpath(os.path.dirname(toffee.__file__))
    if where != os.path.realpath(os.path.join(REPO, "toffee")):
        print(f"harness error: toffee was imported from {where}", file=sys.stderr)
        return 2
    from vf import loop as vfloop

    vfloop.install()
    # aborted runs leave unawaited coroutines behind on purpose
    warnings.filterwarnings("ignore", category=RuntimeWarning)
    sys.unraisablehook = lambda u: None
    signal.signal(signal.SIGVTALRM, Guard.tick)
    signal.signal(signal.SIGALRM, Guard.alarm)

    try:
        chk = load(a.prop)
    except Exception as e:
        if not any(os.path.realpath(f.filename).startswith(where + os.sep) for f in traceback.extract_tb(e.__traceback__)):
            raise
        chk = Refused(e)
    seed, indices = a.seed, None
    if a.replay:
        r = json.load(open(a.replay))
        seed, indices, tier = r["seed"], [r["index"]], r["tier"]
        a.n = r["total"]
    if a.only is not None:
        indices = [a.only]
    total = a.n or (chk.quick if tier == "quick" else chk.thorough)
    budget = (300 if tier == "quick" else 1500) if indices is None else 1e9

    t0 = time.time()
    seen, keys, samples, ran = {}, set(), [], 0
    violation = None
    for i in indices if indices is not None else range(total):
        if time.time() - t0 > budget:
            break
        ctx = Ctx(a.prop, seed, i, tier, total)
        run_scenario(chk.scenario, ctx)
        ran += 1
        for k, v in ctx.seen.items():
            seen[k] = seen.get(k, 0) + v
        keys |= ctx.keys
        if ctx.desc and (len(samples) < 3 or i in (total // 2, total - 1)):
            samples.append({"index": i, "case": ctx.desc[:12]})
        if ctx.failures:
            violation = (i, ctx)
            break
        if i % 50 == 49:
            gc.collect()

    wall = time.time() - t0
    missing = (
        {k: (seen.get(k, 0), n) for k, n in chk.need.items() if seen.get(k, 0) < n * min(1, ran / chk.quick) * 0.8}
        if indices is None
        else {}
    )
    ev = {
        "property": a.prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": ran,
            "distinct_nontrivial": len(keys),
            "rule": chk.rule,
            "samples": samples or ["(none)"],
            "observed": dict(sorted(seen.items())),
            "planned": total if indices is None else len(indices),
        },
        "assumptions": chk.assumptions,
        "wall_s": round(wall, 3),
        "violations": 1 if violation else 0,
    }
    if not a.replay and a.only is None:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{a.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for mech, text in known_findings(a.prop):
        print(f"KNOWN-FINDING: property={a.prop} {text}")

    if violation:
        i, ctx = violation
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", f"{a.prop}-{tier}-{seed}-{i}.json")
        with open(path, "w") as f:
            json.dump(
                {
                    "property": a.prop,
                    "seed": seed,
                    "index": i,
                    "tier": tier,
                    "total": total,
                    "failures": ctx.failures,
                    "case": ctx.desc,
                    "replay": f"python3 /verif/run.py {a.prop} --replay {path}",
                },
                f,
                indent=1,
                default=str,
            )
        for m in ctx.failures[:5]:
            print(f"  scenario {i}: {m}")
        print(f"VIOLATION property={a.prop} replay={path}")
        return 1
    if missing:
        print(f"{a.prop}: inconclusive, the monitors saw too little: {missing}", file=sys.stderr)
        return 2
    print(f"{a.prop}: held on {ran} scenarios, {len(keys)} distinct, {wall:.1f}s, observed {dict(sorted(seen.items()))}")
    return 0
