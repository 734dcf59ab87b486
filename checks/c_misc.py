"""Delayed signals, logging, utilities, debugger."""

import contextlib
import importlib
import io
import itertools
import logging
import os
import re
import shutil
import sys
import tempfile
import traceback

import toffee
import toffee.logger as tlog
from toffee import *
from toffee.utils import LFSR_64, PLRU, TwoBitsCounter
from checks import Check
from vf.dut import DUT


class TBundle(Bundle):
    a, b = Signals(2)


class TAgent(Agent):
    def __init__(self, bundle, period):
        self.period = period
        self.n = 0
        super().__init__(bundle)

    @monitor_method()
    async def mon(self):
        while True:
            await self.bundle.step()
            self.n += 1
            if self.n % self.period == 0:
                return self.n

    @driver_method()
    async def drv(self, v):
        self.bundle.a.value = v
        await self.bundle.step()


class TModel(Model):
    """Hooks that write signals while the cycle settles, which makes the tasks run again."""

    def __init__(self, dut):
        super().__init__()
        self.dut = dut
        self.calls = 0

    @monitor_hook("ag.mon")
    def m(self, v):
        self.calls += 1
        self.dut.b.value = v & 255

    @driver_hook("ag.drv")
    def d(self, v):
        self.calls += 1
        self.dut.b.value = v ^ 255


class TEnv(Env):
    def __init__(self, dut, period):
        super().__init__()
        self.ag = TAgent(TBundle().bind(dut), period)


class Source:
    """Something with a value that is no signal of the design."""

    value = None


class T01(Check):
    PROP = "T01"
    quick, thorough = 6000, 120000
    need = {"reads": 8000, "reads of None": 1000, "hook calls": 1500, "delay 0": 100, "delayers": 700, "late delayers": 200, "other values": 150}
    rule = (
        "clocked runs in which the design, tasks, drivers and hooks change signals; delayed signals are created at any time and read at any "
        "point of a cycle; every read is compared with the recorded settled values; distinct by recorded history"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        dut = DUT({"a": {}, "b": {}, "c": dict(out=True)})
        settled = []
        sigs = ["a", "b", "c", "o"]
        other = Source()
        dut.on_edge.append(lambda c: settled.append({s: dut.xdatas[s]._value for s in sigs[:3]} | {"o": other.value}))
        dut.drivers.append(lambda c: dut.poke("c", rng.randint(0, 255)))
        n = ctx.up(2, 25)
        period = rng.choice([1, 2, 3])
        with_env = rng.random() < 0.7
        live = []  # (delayer, signal, delay, cycle of creation)
        model = None
        delays = [0, 1, 1, 2, 3, 5, 8]
        many = 0
        r = rng.random()
        if r < 0.01:  # long delays
            delays = [rng.randint(1, 400), rng.choice([31, 63, 64, 127, 255, 256, 300])]
            n = max(delays) + rng.randint(2, 20)
            if rng.random() < 0.1:
                delays = [rng.randint(500, 1500), rng.choice([1023, 1024, 1025, 2048, 511, 513])]
                n = max(delays) + rng.randint(2, 20)
            ctx.saw("long delays")
        elif r < 0.03:  # many of them
            many = rng.choice([rng.randint(20, 90), rng.randint(90, 300)])
            ctx.saw("many delayers")

        def make(bundle=None):
            s, d = rng.choice(sigs), rng.choice(delays)
            sig = other if s == "o" else getattr(dut, s)
            if rng.random() < 0.02:
                try:
                    Delayer(sig, -rng.choice([1, 1, 2, 7]))
                except Exception:
                    ctx.saw("negative delays")
                else:
                    ctx.fail("a negative delay is accepted")
            if s == "o":
                ctx.saw("other values")
            if bundle is not None and s in ("a", "b") and rng.random() < 0.5:
                sig = getattr(bundle, s)
            live.append((Delayer(sig, d), s, d, dut.cycle))
            ctx.saw("delayers")
            if d == 0:
                ctx.saw("delay 0")
            if dut.cycle:
                ctx.saw("late delayers")

        def read():
            for x, s, d, born in rng.sample(live, min(10 if many else 3, len(live))):
                k = dut.cycle
                want = settled[k - 1 - d][s] if k - born >= d + 1 else None
                got = x.value
                ctx.saw("reads of None" if want is None else "reads")
                if got != want or type(got) is not type(want):
                    ctx.fail(
                        f"{s} delayed by {d} (since cycle {born}) reads {got} in cycle {k}, expected {want}; settled values "
                        f"{[h[s] for h in settled[-12:]]}"
                    )

        async def task():
            for _ in range(n):
                for _ in range(rng.randint(0, 3)):
                    await toffee.sleep(0)
                read()
                if rng.random() < 0.4:
                    dut.a.value = rng.randint(0, 255)
                read()
                await ClockCycles(dut, rng.choice([1, 1, 2]))

        async def main():
            nonlocal model
            model = TModel(dut)
            env = None
            if rng.random() < 0.5:
                make()
            for _ in range(many):
                make()
            start_clock(dut)
            if with_env:
                env = TEnv(dut, period)
                if rng.random() < 0.8:
                    env.attach(model)
            for _ in range(rng.randint(1, 2)):
                make(env.ag.bundle if env else None)
            ts = [create_task(task()) for _ in range(rng.randint(0, 2))]
            for k in range(n):
                read()
                if rng.random() < 0.7:
                    other.value = rng.choice([None, 0, "", False, 0.5, "x", 7, (1, 2)])
                if rng.random() < 0.15:
                    make(env.ag.bundle if env else None)
                if env and rng.random() < 0.5:
                    await env.ag.drv(rng.randint(0, 255))
                else:
                    await ClockCycles(dut, 1)
            read()
            for t in ts:
                t.cancel()

        toffee.run(main())
        ctx.saw("hook calls", model.calls)
        ctx.note((n, period, with_env, [(s, d, b) for _, s, d, b in live]))
        ctx.key([tuple(h.values()) for h in settled])


COLORS = {"DEBUG": "\x1b[34m", "INFO": "\x1b[37m", "WARNING": "\x1b[33m", "ERROR": "\x1b[31m", "CRITICAL": "\x1b[31m"}
RESET = "\x1b[0m"
ANSI = re.compile("\x1b\\[[0-9;]*m")
LEVELS = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}


class Collect(logging.Handler):
    def __init__(self):
        super().__init__()
        self.got = []

    def emit(self, r):
        self.got.append((r.levelname, getattr(r, "log_id", "<none>"), r.getMessage(), bool(r.exc_info)))


class Console:
    """Everything that reaches file descriptor 2."""

    def __init__(self, path):
        self.path = path

    def __enter__(self):
        sys.stderr.flush()
        self.saved = os.dup(2)
        self.f = open(self.path, "wb+")
        os.dup2(self.f.fileno(), 2)
        return self

    def __exit__(self, *a):
        sys.stderr.flush()
        os.dup2(self.saved, 2)
        os.close(self.saved)
        self.f.close()

    def text(self):
        sys.stderr.flush()
        return open(self.path, encoding="utf-8").read()


FORMATS = [
    None,
    "%(levelname)s|%(log_id)s|%(message)s",
    "%(message)s",
    "[%(name)s] %(message)s %(log_id)s",
    "%(levelname)s %(filename)s %(message)s",
]


class L01(Check):
    PROP = "L01"
    quick, thorough = 6000, 120000
    need = {"records": 4000, "suppressed": 2000, "on console": 2500, "in file": 2500, "ids": 1500, "setups": 600, "summaries": 400, "old files": 150, "by a child logger": 40}
    rule = (
        "random sequences of logging setups and messages of all levels with and without ids; what reaches the console (file descriptor 2) "
        "and every log file is compared line by line with what should; distinct by transcript"
    )

    def scenario(self, ctx):
        d = tempfile.mkdtemp(prefix="vf_log_")
        try:
            with Console(os.path.join(d, "console")) as con:
                self.go(ctx, d, con)
        finally:
            # flushes and closes the handlers of the scenario
            toffee.setup_logging(log_level=CRITICAL + 10, console_display=False)
            shutil.rmtree(d)

    def expect_line(self, fmt, level, log_id, msg, here):
        idt = f"(id: {log_id})" if log_id not in (None, "") else ""
        if fmt is None:
            return f"TOFFEE_{level} @{here}:LINE{idt}:\t{msg}"
        return fmt % dict(levelname=level, log_id=idt, message=msg, name="TOFFEE", filename=here)

    def go(self, ctx, d, con):
        rng = ctx.rng
        here = os.path.basename(__file__)
        tlog.get_logger().propagate = True  # as it is for users; nobody listens there
        files = {}  # path: expected entries
        console = []
        lg = toffee.get_logger() if hasattr(toffee, "get_logger") else tlog.get_logger()
        counts = {}
        uid = itertools.count()
        child = logging.getLogger("TOFFEE.sub")
        child.setLevel(rng.choice([logging.NOTSET, logging.DEBUG]))
        with_child = rng.random() < 0.2
        ids = {}
        summaries = []
        ids0 = dict(tlog.stats_handler.id_stats)
        many = ctx.i % 200 == 199
        for s in range(rng.randint(1, 4)):
            level = rng.choice(list(LEVELS))
            fmt = rng.choice(FORMATS)
            show = rng.random() < 0.7
            path = None
            if rng.random() < 0.7:
                path = os.path.join(d, f"log{rng.randrange(3)}")
                files[path] = []  # a log file starts afresh
            kw = dict(log_level=LEVELS[level], console_display=show)
            if fmt is not None:
                kw["format"] = fmt
            if path is not None:
                kw["log_file"] = path
            tlog.setup_logging(**kw)
            ctx.saw("setups")
            own = Collect() if rng.random() < 0.3 else None
            if own:  # a handler of the user's, which gets the records as they were made
                own.setLevel(LEVELS[level])
                lg.addHandler(own)
            for _ in range(ctx.up(2, 25) if not many else rng.randint(100, 500)):
                if rng.random() < 0.08 and not with_child:
                    # the summary is itself a record
                    tlog.summary()
                    ctx.saw("summaries")
                    summaries.append(LEVELS[level] <= 20)
                    if own:
                        own.got.clear()
                    if LEVELS[level] <= 20:
                        e = ("summary", dict(counts))
                        if show:
                            console.append((fmt, e))
                        if path:
                            files[path].append((fmt, e))
                        counts["INFO"] = counts.get("INFO", 0) + 1
                    continue
                lv = rng.choice(list(LEVELS))
                msg = "" if rng.random() < 0.05 else rng.choice(["plain", "with 100%", "größe ✓", "tab\tinside", "id: (x)", "two\nlines", "\n"]) + f" #{next(uid)}"
                log_id = rng.choice([None, None, "", "id1", "bundle.a", 7, 0, False])
                if rng.random() < 0.03:
                    msg = msg * rng.choice([20, 100, 1000]) + "end"
                    log_id = log_id and str(log_id) * rng.choice([1, 50])
                mk = {} if log_id is None else dict(extra=dict(log_id=log_id))
                style, trace = rng.randrange(4 if with_child and fmt and "name" not in fmt else 3), ""
                if rng.random() < 0.05:
                    # with the traceback of an exception
                    style = None
                f = {"DEBUG": tlog.debug, "INFO": tlog.info, "WARNING": tlog.warning, "ERROR": tlog.error, "CRITICAL": tlog.critical}[lv]
                if style is None:
                    try:
                        raise ValueError(rng.choice(["boom", "größe", ""]))
                    except ValueError:
                        trace = "\n" + traceback.format_exc().rstrip("\n")
                        if lv == "ERROR" or rng.random() < 0.3:
                            lv = "ERROR"
                            tlog.exception(msg, **mk)
                        else:
                            f(msg, exc_info=True, **mk)
                    ctx.saw("tracebacks")
                elif style == 0:
                    f(msg, **mk)
                elif style == 1:
                    tlog.log(LEVELS[lv], "%s", msg, **mk)
                elif style == 2:
                    getattr(lg, lv.lower())("%s", msg, **mk)
                else:
                    # a logger below toffee's, which may let more pass than toffee's does
                    child.log(LEVELS[lv], msg, **mk)
                    ctx.saw("by a child logger")
                if LEVELS[lv] < LEVELS[level]:
                    ctx.saw("suppressed")
                    if own and own.got:
                        ctx.fail(f"a handler added by the user got {own.got} at level {level}")
                    continue
                ctx.saw("records")
                if own:
                    ctx.saw("at own handlers")
                    if own.got != [(lv, "<none>" if log_id is None else log_id, msg, bool(trace))]:
                        ctx.fail(f"a handler added by the user got {own.got} for ({lv}, {log_id!r}, {msg!r})")
                    own.got.clear()
                if log_id not in (None, ""):
                    ctx.saw("ids")
                counts[lv] = counts.get(lv, 0) + 1
                i = "default_id" if log_id is None else "default" if log_id == "" else log_id
                ids[i] = ids.get(i, 0) + 1
                e = (lv, self.expect_line(fmt, lv, log_id, msg, here) + trace)
                if show:
                    console.append((fmt, e))
                    ctx.saw("on console")
                if path:
                    files[path].append((fmt, e))
                    ctx.saw("in file")
        child.setLevel(logging.NOTSET)
        self.compare(ctx, "console", con.text(), console)
        if not with_child:
            i = "default_id"  # that of summaries
            ids[i] = ids.get(i, 0) + sum(1 for s in summaries if s)
            got = {k: n - ids0.get(k, 0) for k, n in tlog.stats_handler.id_stats.items() if n != ids0.get(k, 0)}
            ctx.equal(got, {k: n for k, n in ids.items() if n}, "records counted by id")
        for p, exp in files.items():
            for h in lg.handlers:
                h.flush()
            self.compare(ctx, os.path.basename(p), open(p, encoding="utf-8").read(), exp)
        ctx.saw("old files", max(0, len(files) - 1))
        ctx.note([e for _, e in console][:6])
        ctx.key([e for _, e in console], sorted(files.items()))

    # counts are kept for the process; the first summary of a transcript fixes the offset
    def compare(self, ctx, what, text, exp):
        pos = 0
        offset = None
        for k, (fmt, e) in enumerate(exp):
            if e[0] == "summary":
                m = re.compile("[^\n]*Log Summary\n=+\n[^\n]*\n((?:[A-Z]+:\t\\d+\n)*)([^\n]*)\n").match(text, pos)
                if not m:
                    ctx.fail(f"{what}: entry {k} should be a summary, the text goes on with {text[pos:pos+200]!r}")
                got = {a: int(b) for a, b in (l.split(":\t") for l in m.group(1).split("\n") if l)}
                rel = {lv: got.get(lv, 0) - e[1].get(lv, 0) for lv in LEVELS}
                if offset is None:
                    offset = rel
                elif rel != offset:
                    ctx.fail(f"{what}: a summary reports {got}, {e[1]} records were logged since one that was off by {offset}")
                pos = m.end()
                continue
            lv, line = e
            end = pos - 1
            for _ in range(line.count("\n") + 1):
                end = text.find("\n", end + 1)
            got = text[pos : end if end >= 0 else None]
            plain = ANSI.sub("", got)
            if fmt is None:
                plain = re.sub(r":\d+(?=(\(id: [^)]*\))?:\t)", ":LINE", plain, count=1)
            if plain != line:
                ctx.fail(f"{what}: entry {k} is {plain!r}, expected {line!r}")
            if not (got.startswith(COLORS[lv]) and got.endswith(RESET)):
                ctx.fail(f"{what}: entry {k} of level {lv} has the colour {got[:6]!r}...{got[-5:]!r}")
            pos = end + 1
        if text[pos:]:
            ctx.fail(f"{what}: {text[pos:pos+200]!r} follows the {len(exp)} expected entries")


def ref_lfsr(state, n):
    """Bit-list LFSR, independent of the arithmetic one: shift right, feedback of taps 0, 1, 3, 4 into bit 63."""
    bits = [(state >> k) & 1 for k in range(64)]
    out = []
    for _ in range(n):
        bits = bits[1:] + [(bits[0] + bits[1] + bits[3] + bits[4]) % 2]
        out.append(sum(b << k for k, b in enumerate(bits)))
    return out


class RefPLRU:
    """Each inner node of the tree points to the half that was not used last."""

    def __init__(self, ways):
        self.ways = ways
        self.top = 1
        while self.top < ways:
            self.top *= 2
        self.node = {}  # (lo, size) -> True: victim in the upper half

    def update(self, w):
        lo, size = 0, self.top
        while size > 1:
            half = size // 2
            upper = w >= lo + half
            self.node[(lo, size)] = not upper
            if upper:
                lo += half
            size = half

    def get(self):
        lo, size = 0, self.top
        while size > 1:
            half = size // 2
            if self.node.get((lo, size), False) and lo + half < self.ways:
                lo += half
            size = half
        return lo


class U01(Check):
    PROP = "U01"
    quick, thorough = 8000, 160000
    need = {"lfsr steps": 15000, "plru gets": 8000, "counter updates": 8000, "wide seeds": 30, "zero seeds": 5, "saturated": 1000, "odd way numbers": 20}
    rule = "random seeds, way numbers and histories; every value is compared with an independent reference; distinct by history"

    def scenario(self, ctx):
        rng = ctx.rng
        # a feedback shift register
        k = rng.randrange(6)
        seed = [1, 0, rng.getrandbits(64), rng.getrandbits(90), 1 << rng.randrange(64), rng.getrandbits(8)][k]
        ctx.saw("wide seeds", int(seed >= 1 << 64))
        ctx.saw("zero seeds", int(seed == 0))
        x = LFSR_64() if seed == 1 and rng.random() < 0.5 else LFSR_64(seed)
        y = LFSR_64(seed)
        state = seed % (1 << 64)
        ctx.equal(x.rand, state, f"state of LFSR_64({seed:#x})")
        n = ctx.up(1, 150)
        seen = {state}
        for i, want in enumerate(ref_lfsr(state, n)):
            x.step()
            ctx.saw("lfsr steps")
            if x.rand != want or x.rand != want:
                ctx.fail(f"LFSR_64({seed:#x}) gives {x.rand:#x} after {i + 1} steps, expected {want:#x}")
            if not 0 <= x.rand < 1 << 64:
                ctx.fail(f"LFSR_64 state {x.rand:#x} has more than 64 bits")
            if state and want in seen:
                ctx.fail("the sequence repeats")
            seen.add(want)
        ctx.equal(y.rand, state, "an LFSR that was not stepped")
        # replacement
        ways = rng.choice([1, 2, 2, 4, 4, 8, 16, 32, rng.randint(1, 40)])
        odd = bool(ways & (ways - 1))
        ctx.saw("odd way numbers", int(odd))
        p, q, r = PLRU(ways), PLRU(ways), RefPLRU(ways)
        hist = []
        for _ in range(ctx.up(1, 60)):
            if rng.random() < 0.7:
                w = rng.randrange(ways) if rng.random() < 0.6 else p.get()
                hist.append(w)
                p.update(w)
                r.update(w)
                if ways > 1 and p.get() == w:
                    ctx.fail(f"PLRU({ways}) replaces {w}, which was used last ({hist[-10:]})")
            ctx.saw("plru gets")
            got = p.get()
            if got != r.get():
                ctx.fail(f"PLRU({ways}) gives {got} after {hist[-20:]}, expected {r.get()}")
        ctx.equal(q.get(), 0, f"victim of an unused PLRU({ways})")
        # always replacing the victim goes through all ways before one comes again
        order = []
        for _ in range(ways):
            v = p.get()
            order.append(v)
            p.update(v)
        if sorted(order) != list(range(ways)) and not odd:
            ctx.fail(f"PLRU({ways}) replaced {order} in a row after {hist[-10:]}")
        # two-bit counter
        init = rng.choice([None, 0, 1, 2, 3])
        c = TwoBitsCounter() if init is None else TwoBitsCounter(init)
        v = 2 if init is None else init
        h = []
        for _ in range(ctx.up(1, 50)):
            ctx.equal(bool(c.get_prediction()), v >= 2, f"prediction after {h} from {init}")
            taken = rng.choice([True, False, 1, 0]) if rng.random() < 0.5 else (not h or h[-1])
            h.append(bool(taken))
            c.update(taken)
            ctx.saw("counter updates")
            if v in (0, 3) and bool(taken) == (v == 3):
                ctx.saw("saturated")
            v = min(3, v + 1) if taken else max(0, v - 1)
        ctx.note((hex(seed), ways, hist[:10], h[:10]))
        ctx.key(seed, ways, hist, h)


class GSignal:
    """An internal signal with the write modes of the simulator."""

    def __init__(self, name, width, log):
        self.name, self.width, self.log = name, width, log
        self.v = 0
        self.mode = "nodelay"
        self.forced = False
        self.ignore = True

    def W(self):
        return self.width

    @property
    def value(self):
        return self.v

    @value.setter
    def value(self, v):
        if self.ignore and v == self.v:
            self.log.append(("ignored", self.name, v))
            return
        if self.mode == "force":
            self.forced = True
        elif self.mode == "release":
            self.forced = False
            self.log.append(("released", self.name))
            return
        elif self.forced:
            self.log.append(("no effect", self.name, v))
            return
        self.v = v
        self.log.append(("write", self.name, v, self.mode))

    def SetIgnoreSameDataWrite(self, on):
        self.ignore = on

    def AsVPIWriteForce(self):
        self.mode = "force"

    def AsVPIWriteRelease(self):
        self.mode = "release"

    def AsVPIWriteNoDelay(self):
        self.mode = "nodelay"


class GDUT:
    def __init__(self, sigs):
        self.log = []
        self.sigs = {n: GSignal(n, w, self.log) for n, w in sigs.items()}

    def GetInternalSignal(self, name):
        return self.sigs.get(name)

    def VPIInternalSignalList(self, prefix, deep):
        self.log.append(("list", prefix, deep))
        return [n for n in self.sigs if n.startswith(prefix) and n.count(".") < deep]

    def Step(self, n=1):
        self.log.append(("step", n))

    def FlushWaveform(self):
        self.log.append(("flush",))

    def RefreshComb(self):
        self.log.append(("refresh", {n: (s.v, s.forced) for n, s in self.sigs.items()}))


class G01(Check):
    PROP = "G01"
    quick, thorough = 12000, 240000
    need = {"step": 800, "set": 600, "force": 600, "release": 500, "print": 800, "list": 400, "malformed": 1000, "forced again": 50}
    rule = (
        "random sequences of debugger commands, well-formed and malformed, on a design with forcible signals; design state and output are "
        "compared with a reference after each; distinct by session"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        debug = importlib.import_module("toffee.debug")  # toffee.debug itself is a logging function
        names = ["top.a", "top.b", "top.sub.c", "x", "top.sub.deep.d"]
        dut = GDUT({n: rng.choice([1, 8, 32]) for n in names})
        out = io.StringIO()
        dbg = debug.get(dut, stdout=out, nosigint=True, readrc=False)
        ref = {n: [0, False] for n in names}  # value, forced
        sess = []
        for _ in range(ctx.up(3, 30)):
            n = rng.choice(names + ["nope"]) if rng.random() < 0.3 else rng.choice(names)
            v = rng.choice([0, 1, 1, 5, 77, -1])
            k = rng.choice(["tstep", "tstep", "tset", "tset", "tforce", "tforce", "trelease", "tprint", "tprint", "tlist", "tflush", "bad", "bad"])
            shown = rng.choice([str(v), str(v), str(v), f"{'-' * (v < 0)}0{abs(v)}", f"+{v}" if v >= 0 else str(v), f"  {v} "])
            want = []  # what the design has to see
            printed = None
            good = n in ref
            if k == "tstep":
                c = rng.choice(["", "1", "3", " 12 ", "0", "007", "100000"])
                line = f"tstep {c}".strip()
                want = [("step", int(c) if c else 1), ("flush",)]
                ctx.saw("step")
            elif k == "tset":
                line = f"tset {n} {shown}"
                if good:
                    ctx.saw("set")
                    if not ref[n][1]:
                        ref[n][0] = v
                    want = [("refresh",)]
            elif k == "tforce":
                line = f"tforce {n} {shown}"
                if good:
                    ctx.saw("force")
                    if ref[n][1]:
                        ctx.saw("forced again")
                    ref[n] = [v, True]
                    want = [("refresh",)]
            elif k == "trelease":
                line = f"trelease {n}"
                if good:
                    ctx.saw("release")
                    ref[n][1] = False
                    want = [("refresh",)]
            elif k == "tprint":
                f = rng.choice(["", "bin", "hex", "dec", "HEX"])
                line = f"tprint {n} {f}".strip()
                if good:
                    ctx.saw("print")
                    x = ref[n][0]
                    printed = [f"(width: {dut.sigs[n].width}) value: " + {"": str, "dec": str, "bin": bin, "hex": hex}[f.lower()](x)]
            elif k == "tlist":
                ctx.saw("list")
                r = rng.random()
                pre, deep = "", 99
                if r < 0.3:
                    line = "tlist"
                elif r < 0.6:
                    deep = rng.randint(1, 4)
                    line = f"tlist {deep}"
                else:
                    deep, pre = rng.randint(1, 4), rng.choice(["top", "top.sub", "x", "q"])
                    line = f"tlist {deep} {pre}"
                printed = [m for m in names if m.startswith(pre) and m.count(".") < deep]
                want = [("list", pre, deep)]
            elif k == "tflush":
                line = "tflush"
                want = [("flush",)]
            else:
                good = False
                line = rng.choice(
                    ["tstep x", "tstep 1.5", "tset", "tset x", "tset x abc", "tforce", "tforce x", "tforce x q", "trelease", "trelease nope", "tprint", "tprint x oct", "tprint nope",
                     "tlist x", "tflush now", "tset nope 1", "tforce nope 1", "tset x 0x10", "tforce x 0x1", "tset x 1.0", "tforce x None"]
                )
                ctx.saw("malformed")
            sess.append(line)
            ctx.note(line)
            dut.log.clear()
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                stop = dbg.onecmd(line)
            what = f"{line!r} after {sess[-6:-1]}"
            if stop:
                ctx.fail(f"{what}: the debugger stopped")
            got = [e if e[0] != "refresh" else ("refresh",) for e in dut.log if e[0] in ("step", "flush", "refresh", "list")]
            if got != want:
                ctx.fail(f"{what}: the design saw {got}, expected {want}")
            if k == "tset" and good and ref[n][1]:
                ref[n][0] = dut.sigs[n].v  # whether a write changes what a signal is forced to is up to the simulator
            state = {n: [s.v, s.forced] for n, s in dut.sigs.items()}
            if state != ref:
                ctx.fail(f"{what}: signals are {state}, expected {ref}")
            for e in dut.log:
                if e[0] == "refresh" and {n: list(x) for n, x in e[1].items()} != ref:
                    ctx.fail(f"{what}: the design was refreshed before the signal changed")
            text = [l for l in buf.getvalue().split("\n") if l]
            if printed is not None:
                t = [l[4:] if l.startswith("*** ") else l for l in text]
                if t != printed:
                    ctx.fail(f"{what}: printed {text}, expected {printed}")
            elif k == "bad" and line not in ("tset", "tforce", "trelease", "tprint") and not text:
                ctx.fail(f"{what}: a malformed command goes by without a message")
            elif k != "bad" and not good and k in ("tset", "tforce", "trelease", "tprint") and not any(n in l for l in text):
                ctx.fail(f"{what}: nothing tells that the signal is not there ({text})")
        ctx.key(sess)
