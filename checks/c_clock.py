"""Clocked scheduling: quiescence, clock delivery, triggers, run lifecycle, failures, isolation."""

import asyncio
import functools
import collections

import toffee
from toffee import *
from toffee import triggers
from toffee.asynchronous import Queue, sleep, gather
from checks import Check
from vf import gen
from vf.core import Hang
from vf.dut import DUT, TooManySteps
from vf.loop import NoProgress


class SigBundle(Bundle):
    a, b = Signals(2)


class Elem(Bundle):
    x, y = Signals(2)


class DeepBundle(Bundle):
    sub = Elem.from_prefix("s_")


class ListBundle(Bundle):
    vec = BundleList(Elem, "v#_", 2)


class GapListBundle(Bundle):
    """Only the last element has signals in the design."""

    vec = BundleList(Elem, "v#_", 3, lambda i: str(3 - i))


class SigListBundle(Bundle):
    sl = SignalList("l#", 2)


class EventBundle(Bundle):
    event, step_, wait = Signals(3)
    sub = Elem.from_prefix("s_")


PINS = ["io_event", "io_step_", "io_wait", "io_a", "io_b", "io_s_x", "io_s_y", "io_v0_x", "io_v0_y", "io_v1_x", "io_v1_y", "io_l0", "io_l1"]


class Refs:
    """All the ways to refer to the clock of one DUT."""

    KINDS = ["dut", "pin", "bundle", "bstep", "deep", "deepsub", "list", "elem", "slist", "ev", "pinev", "idle", "gaplist", "evbundle", "evpin", "devent"]

    def __init__(self, dut):
        self.dut = dut
        self.b = SigBundle.from_prefix("io_").bind(dut)
        self.d = DeepBundle.from_prefix("io_").bind(dut)
        self.l = ListBundle.from_prefix("io_").bind(dut)
        self.s = SigListBundle.from_prefix("io_").bind(dut)
        self.g = GapListBundle.from_prefix("io_").bind(dut)
        self.e = EventBundle.from_prefix("io_").bind(dut)

    async def wait(self, kind, n):
        if kind == "dut":
            await triggers.ClockCycles(self.dut, n)
        elif kind == "pin":
            await triggers.ClockCycles(self.dut.io_a, n)
        elif kind == "bundle":
            await triggers.ClockCycles(self.b, n)
        elif kind == "evbundle":
            # signals may be called like the attributes a clock or a pin has
            await triggers.ClockCycles(self.e, n)
        elif kind == "evpin":
            await triggers.ClockCycles(self.e.event, n)
        elif kind == "devent":
            await triggers.ClockCycles(self.dut.event, n)
        elif kind == "bstep":
            await self.b.step(n)
        elif kind == "deep":
            await triggers.ClockCycles(self.d, n)
        elif kind == "deepsub":
            await self.d.sub.step(n)
        elif kind == "list":
            await self.l.step(n)
        elif kind == "gaplist":
            await triggers.ClockCycles(self.g, n)
        elif kind == "elem":
            await self.l.vec[1].step(n)
        elif kind == "slist":
            await triggers.ClockCycles(self.s, n)
        elif kind == "ev":
            for _ in range(n):
                await self.dut.event.wait()
        elif kind == "idle":
            # not a wait for the clock: the design itself wakes the task up n edges later
            if n:
                ev = Event()
                due = self.dut.cycle + n
                self.dut.drivers.append(lambda c: ev.set() if c == due else None)
                await ev.wait()
        elif kind == "pinev":
            for _ in range(n):
                await self.b.b.event.wait()


class NodeAgent(Agent):
    def __init__(self, bundle):
        self.armed = []
        super().__init__(bundle)

    @driver_method()
    async def d(self, key):
        return None

    @driver_method()
    async def e(self, key):
        return None

    @driver_method()
    async def p(self, key):
        return None

    @monitor_method()
    async def m(self):
        if self.armed:
            keys, self.armed = self.armed, []
            return keys


class NodeModel(Model):
    def __init__(self, events):
        super().__init__()
        self.events = events
        self.port = DriverPort("ag.p", maxsize=-1)

    @driver_hook("ag.d")
    def d(self, key):
        self.events[key].set()

    @driver_hook("ag.e", sche_order="dut_first")
    def e(self, key):
        self.events[key].set()

    @monitor_hook("ag.m")
    def m(self, keys):
        for k in keys:
            self.events[k].set()

    async def main(self):
        while True:
            key = await self.port()
            self.events[key].set()


class NodeEnv(Env):
    def __init__(self, bundle):
        super().__init__()
        self.ag = NodeAgent(bundle)


class C01(Check):
    PROP = "C01"
    quick, thorough = 700, 14000
    need = {"wakeups": 2000, "edges": 300, "zero-time wakeups": 1000}
    rule = (
        "random DAGs of tasks (events, queues, task joins, cancelled-task joins, gather, spawns, driver/monitor hooks, "
        "model ports, the wait primitives of asyncio, zero-delay yields, clock waits); a case is non-trivial if a wake-up chain of at least 3 hops has "
        "to finish inside one cycle; distinct by the DAG"
    )
    # the kinds in the second row are the wait primitives of asyncio itself
    EDGES = ["event", "queue", "task", "cancel", "spawn", "gather", "hook", "dfhook", "monhook", "port",
             "agather", "await", "shield", "tgroup", "future", "callsoon", "aevent", "aqueue"]

    def scenario(self, ctx):
        rng = ctx.rng
        shape = ctx.i % 8
        if shape == 0:  # long chain inside one cycle
            n = ctx.up(10, 400)
            kinds = rng.sample(self.EDGES[:7] + self.EDGES[10:], rng.randint(1, 4))
            nodes = [
                dict(preds=[(i - 1, rng.choice(kinds))] if i else [], hops=rng.choice([0, 0, 0, 1, 2]), clocks=0)
                for i in range(n)
            ]
        elif shape == 1:  # one wake-up fans out to many and joins again
            n = ctx.up(5, 150)
            k = rng.choice(["event", "task", "gather", "hook", "agather", "tgroup", "future"])
            nodes = [dict(preds=[], hops=0, clocks=rng.randint(0, 2))]
            nodes += [dict(preds=[(0, k)], hops=rng.randint(0, 3), clocks=0) for _ in range(n)]
            nodes += [dict(preds=[(j, rng.choice(["queue", "task", "event", "agather", "await"])) for j in range(1, n + 1)], hops=1, clocks=1)]
        else:
            n = ctx.up(4, 60)
            nodes = []
            for i in range(n):
                preds = []
                if i:
                    for p in sorted(set(rng.randrange(max(0, i - 6), i) for _ in range(rng.randint(1, 3)))):
                        preds.append((p, rng.choice(self.EDGES)))
                nodes.append(
                    dict(
                        preds=preds,
                        hops=rng.choice([0, 0, 1, 3, rng.randint(0, 20)]),
                        clocks=rng.choice([0, 0, 0, 1, 2]),
                    )
                )
        for nd in nodes:
            nd["calls"] = 0
        if shape == 2 and rng.random() < 0.5:
            # a node that takes many rounds of the loop or many hook calls within its cycle
            nd = rng.choice(nodes)
            if rng.random() < 0.5:
                nd["hops"] = ctx.up(10, 8000)
            else:
                nd["calls"] = ctx.up(3, 700)
        # a spawned node is started by exactly one predecessor; the other dependencies stay ordinary
        for nd in nodes:
            sp = [p for p in nd["preds"] if p[1] == "spawn"]
            nd["spawner"] = sp[0][0] if sp else None
            nd["preds"] = [(p, k if k != "spawn" else "event") for p, k in nd["preds"] if p != nd["spawner"]]
            nd["ckind"] = rng.choice([k for k in Refs.KINDS if k != "idle"])
            nd["hopkind"] = rng.randint(0, 1)

        # oracle: the cycle in which every dependency and every node completes
        want_dep, want_done = {}, {}
        depth = {}
        for i, nd in enumerate(nodes):
            c = want_done[nd["spawner"]] if nd["spawner"] is not None else 0
            dpt = depth[nd["spawner"]] + 1 if nd["spawner"] is not None else 0
            for p, k in nd["preds"]:
                t = want_done[p]
                if k == "monhook":
                    t += 1
                if k == "port":
                    t = max(t, 1)
                dpt = max(dpt, depth[p] + 1)
                c = max(c, t)
                want_dep[(i, p)] = c
            want_done[i] = c + nd["clocks"]
            depth[i] = 0 if nd["clocks"] else dpt

        got_dep, got_done = {}, {}
        holder = {}

        def env_handle():
            dut = DUT(PINS)
            start_clock(dut)
            refs = Refs(dut)
            events = {}
            env = NodeEnv(refs.b)
            env.attach(NodeModel(events))
            holder["dut"] = dut
            return dut, refs, events, env

        async def test(dut, refs, events, env):
            tasks, queues, helpers, started = {}, {}, {}, {}
            succs = {i: [] for i in range(len(nodes))}
            for i, nd in enumerate(nodes):
                started[i] = Event()
                for p, k in nd["preds"]:
                    succs[p].append((i, k))
                    if k == "queue":
                        queues[(p, i)] = Queue()
                    elif k == "aqueue":
                        queues[(p, i)] = asyncio.Queue()
                    elif k == "future":
                        events[(p, i)] = asyncio.get_running_loop().create_future()
                    elif k == "aevent":
                        events[(p, i)] = asyncio.Event()
                    elif k == "cancel":

                        async def blocked():
                            await Event().wait()

                        helpers[(p, i)] = create_task(blocked())
                    else:
                        events[(p, i)] = Event()

            async def waiter(p, i):
                await events[(p, i)].wait()

            async def node(i):
                nd = nodes[i]
                for p, k in nd["preds"]:
                    if k in ("queue", "aqueue"):
                        v = await queues[(p, i)].get()
                        if v != (p, i):
                            ctx.bad(f"queue {p}->{i} delivered {v!r}")
                    elif k == "task":
                        await started[p].wait()
                        await tasks[p]
                    elif k == "cancel":
                        try:
                            await helpers[(p, i)]
                        except asyncio.CancelledError:
                            pass
                    elif k == "gather":
                        await gather(waiter(p, i), waiter(p, i), sleep(0))
                    elif k == "agather":
                        await asyncio.gather(waiter(p, i), sleep(0), waiter(p, i))
                    elif k == "await":
                        await asyncio.wait([create_task(waiter(p, i)) for _ in range(2)])
                    elif k == "shield":
                        await asyncio.shield(create_task(waiter(p, i)))
                    elif k == "tgroup":
                        async with asyncio.TaskGroup() as tg:
                            tg.create_task(waiter(p, i))
                            tg.create_task(waiter(p, i))
                    elif k == "future":
                        await events[(p, i)]
                    else:
                        await events[(p, i)].wait()
                    got_dep[(i, p)] = dut.cycle
                for _ in range(nd["hops"]):
                    if nd["hopkind"]:
                        await sleep(0)
                    else:
                        await asyncio.sleep(0)
                for k in range(nd["calls"]):
                    events[("own", i)] = Event()
                    await (env.ag.d if k % 2 else env.ag.e)(("own", i))
                    await events[("own", i)].wait()
                await refs.wait(nd["ckind"], nd["clocks"])
                got_done[i] = dut.cycle
                for s, k in succs[i]:
                    if k in ("queue", "aqueue"):
                        await queues[(i, s)].put((i, s))
                    elif k == "future":
                        events[(i, s)].set_result(None)
                    elif k == "callsoon":
                        loop = asyncio.get_running_loop()
                        loop.call_soon(loop.call_soon, events[(i, s)].set)
                    elif k == "cancel":
                        helpers[(i, s)].cancel()
                    elif k == "hook":
                        create_task(env.ag.d((i, s)))
                    elif k == "dfhook":
                        create_task(env.ag.e((i, s)))
                    elif k == "port":
                        create_task(env.ag.p((i, s)))
                    elif k == "monhook":
                        env.ag.armed.append((i, s))
                    elif k != "task":
                        events[(i, s)].set()
                for j, nd2 in enumerate(nodes):
                    if nd2["spawner"] == i:
                        tasks[j] = create_task(node(j))
                        started[j].set()

            order = [i for i, nd in enumerate(nodes) if nd["spawner"] is None]
            ctx.rng.shuffle(order)
            for i in order:
                tasks[i] = create_task(node(i))
                started[i].set()
            for i in range(len(nodes)):
                await started[i].wait()
                await tasks[i]
            return dut.cycle

        end = toffee.run(test, env_handle)
        dut = holder["dut"]
        ctx.note(f"{len(nodes)} nodes, edges {[(p, i, k) for i, nd in enumerate(nodes) for p, k in nd['preds']][:6]}")
        for key, c in want_dep.items():
            if got_dep.get(key) != c:
                ctx.fail(f"node {key[0]} (edge kind {dict(nodes[key[0]]['preds'])[key[1]]}) resumed after node {key[1]} in cycle "
                         f"{got_dep.get(key)}, it became runnable in cycle {c}")
        for i, c in want_done.items():
            if got_done.get(i) != c:
                ctx.fail(f"node {i} finished in cycle {got_done.get(i)}, expected {c}")
        ctx.equal(end, max(want_done.values()), "cycle in which the test finished")
        ctx.saw("wakeups", len(want_dep))
        ctx.saw("zero-time wakeups", sum(1 for i, nd in enumerate(nodes) if nd["clocks"] == 0 and (nd["preds"] or nd["hops"])))
        ctx.saw("edges", dut.cycle)
        ctx.saw("nodes", len(nodes))
        for k in self.EDGES:
            ctx.saw("edge:" + k, sum(1 for nd in nodes for _, kk in nd["preds"] if kk == k))
        ctx.saw("edge:spawn", sum(1 for nd in nodes if nd["spawner"] is not None))
        if max(depth.values()) >= 3:
            ctx.key([(nd["preds"], nd["hops"], nd["clocks"], nd["spawner"]) for nd in nodes])


class C02(Check):
    PROP = "C02"
    quick, thorough = 2500, 50000
    need = {"waits": 2000, "edges": 500, "zero waits": 30, "several designs": 50}
    rule = (
        "several tasks, each a random list of waits for n clock edges (n from 0 to 40) through a dut, a pin, a bundle, "
        "a nested bundle, a bundle-list or a signal-list bundle, with zero-delay yields in between, some with up to 600 tasks or "
        "waits of up to 1500 edges; distinct by the plan"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        plans = []
        idle = rng.choice([0, 0, 0.5, 1])
        shape = ctx.i % 50
        ntasks = rng.choice([1, ctx.up(1, 25), ctx.up(1, 25)])
        if shape == 7:  # very many tasks
            ntasks = ctx.up(60, 600)
        for _ in range(ntasks):
            plan = []
            kinds = ["idle"] if rng.random() < idle else Refs.KINDS
            for _ in range(ctx.up(1, 12 if shape not in (7, 17) else 3)):
                n = rng.choice([0, 1, 1, 1, 2, 3, rng.randint(0, 40)])
                if shape == 17:  # very long waits
                    n = rng.choice([n, rng.randint(100, 1500), 1024])
                plan.append((rng.choice(kinds), n, rng.choice([0, 0, 1, 2])))
            plans.append(plan)
        log = []
        box = {}
        # several designs may be clocked in one run, the tasks are spread over them
        designs = rng.choice([2, 2, 3]) if ctx.i % 12 == 5 and shape not in (7, 17) else 1

        async def test():
            duts = [DUT(dict({p: {} for p in PINS}, count=dict(out=True, width=32))) for _ in range(designs)]
            for d in duts:
                d.drivers.append(lambda c, d=d: d.poke("count", c * 3 + 1))
                d.poke("count", 1)
                start_clock(d)
            box["duts"] = duts
            all_refs = [Refs(d) for d in duts]

            async def t(k, plan):
                dut, refs = duts[k % designs], all_refs[k % designs]
                for j, (kind, n, hops) in enumerate(plan):
                    await refs.wait(kind, n)
                    log.append((k, j, dut.cycle, dut.count.value))
                    if len({d.cycle for d in duts}) > 1:
                        box["skew"] = [d.cycle for d in duts]
                    for _ in range(hops):
                        await asyncio.sleep(0)

            # sometimes the test itself is one of the waiting tasks, or the only one
            inline = rng.random() < 0.4
            tasks = [create_task(t(k, p)) for k, p in enumerate(plans) if not (inline and k == 0)]
            if inline:
                await t(0, plans[0])
            for x in tasks:
                await x
            return duts[0].cycle

        end = toffee.run(test)
        got = {(k, j): (c, v) for k, j, c, v in log}
        ctx.equal(len(log), sum(map(len, plans)), "number of finished waits")
        last = 0
        for k, plan in enumerate(plans):
            c = 0
            for j, (kind, n, _) in enumerate(plan):
                c += n
                g = got.get((k, j))
                if g is None or g[0] != c:
                    ctx.fail(f"task {k} wait {j}: waiting {n} cycles via {kind} should end in cycle {c}, ended in {g}")
                if g[1] != c * 3 + 1:
                    ctx.fail(f"task {k} wait {j} in cycle {c} saw the design's output {g[1]}, after that edge it is {c * 3 + 1}")
                ctx.saw("waits")
                ctx.saw("via " + kind)
                if n == 0:
                    ctx.saw("zero waits")
            last = max(last, c)
        if designs == 1:
            ctx.equal(end, last, "cycle at which the test ended")
        else:
            ctx.saw("several designs")
            ctx.expect("skew" not in box, f"the designs of one test are in the cycles {box.get('skew')}")
        for dut in box["duts"]:
            ctx.expect(set(dut.step_args) <= {1}, f"the clock advanced the design by {set(dut.step_args)} cycles at once")
            ctx.saw("edges", dut.cycle)
        ctx.note(plans[0])
        if last:
            ctx.key(plans)


class C03(Check):
    PROP = "C03"
    quick, thorough = 6000, 120000
    need = {"fired": 400, "not fired": 50, "edges": 500, "delay 0": 50}
    rule = (
        "random waveforms driven by the design on several pins (short periods, long runs of equal values, multi-bit values, "
        "0), random triggers started in random cycles; a trigger is non-trivial if it fires after at least one edge; "
        "distinct by (waveforms, triggers)"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        wide = bool(gen.big(ctx, 100, True))
        npins = rng.choice([1, 2, 3, 4, 10]) if not wide else rng.choice([20, 33, 70])
        late = bool(gen.big(ctx, 70, True))
        length = ctx.up(6, 60) if not late else rng.randint(100, 400)
        waves = {}
        for p in range(npins):
            vals = rng.choice([[0, 1], [0, 1, 2], [0, 3, 255], [1], [0], [5, 6], [0, 0, 0, 1], [2, 3, 1, 0, 0], [0, 70000, 2**40], [70000, 70001], [0, 2**32], [2**100, 2**100 + 1, 0], [2**63, 2**64, 1]] if not wide else [[1] * 9 + [0], [1] * 40 + [0], [7]])
            w = []
            while len(w) < length + 2:
                w += [rng.choice(vals)] * rng.choice([1, 1, 2, 3])
            waves[p] = w[: length + 2]
        trig = []
        for _ in range(ctx.up(1, 15)):
            kind = rng.choice(["Value", "AllValid", "Condition", "Change", "RisingEdge", "FallingEdge"])
            start = rng.randint(0, length // 2)
            delay = rng.choice([None, 0, 1, 2, 5, rng.randint(0, 30)] if not late else [0, 1, rng.randint(0, length)])
            pins = [rng.randrange(npins)]
            if kind == "AllValid":
                pins = [rng.randrange(npins) for _ in range(rng.choice([1, 2, 3, rng.randint(1, 12)]))] if not wide else rng.sample(range(npins), rng.randint(10, npins))
            arg = rng.choice([0, 1, 2, 3, 255, 5, True, True, False, 4, -1, 1.0, 1.5, None])
            if rng.random() < 0.3:
                arg = rng.choice(waves[pins[0]])
            item = rng.choice(["dut", "pin", "bundle"])
            trig.append((kind, start, delay, tuple(pins), arg, item))
        truth = rng.choice([(False, True)] * 3 + [(0, 1), (0, 6), (None, -1), ("", "x"), ([], (0,)), (0.0, {1: 2})])  # what conditions return

        def expected(tr):
            kind, s, delay, pins, arg, item = tr
            d = 1 if delay is None else delay
            w = waves[pins[0]]
            if kind == "Value":
                ok = lambda c: c >= s + d and w[c] == arg
            elif kind == "AllValid":
                ok = lambda c: c >= s + d and all(waves[p][c] for p in pins)
            elif kind == "Condition":
                ok = lambda c: c >= s + d and w[c] != arg
            elif kind == "Change":
                ok = lambda c: c > s and w[c] != w[s]
            elif kind == "RisingEdge":
                ok = lambda c: c > s and w[c - 1] == 0 and w[c] != 0
            else:
                ok = lambda c: c > s and w[c - 1] != 0 and w[c] == 0
            for c in range(s, length + 1):
                if ok(c):
                    return c
            return None

        fired = {}

        class PB(Bundle):
            signals = [f"p{i}" for i in range(npins)]

        async def test():
            dut = DUT({f"p{i}": dict(out=True, width=128) for i in range(npins)})

            def drive(c):
                for i in range(npins):
                    dut.poke(f"p{i}", waves[i][min(c, length + 1)])

            drive(0)
            dut.drivers.append(drive)
            start_clock(dut)
            bundle = PB().bind(dut)

            async def t(k, tr):
                kind, s, delay, pins, arg, item = tr
                await triggers.ClockCycles(dut, s)
                pin = getattr(dut, f"p{pins[0]}")
                kw = {} if delay is None else {"delay": delay}
                if kind == "Value":
                    await triggers.Value(pin, arg, **kw)
                elif kind == "AllValid":
                    await triggers.AllValid(*[getattr(dut, f"p{p}") for p in pins], **kw)
                elif kind == "Condition":
                    if item == "dut":
                        await triggers.Condition(dut, lambda d: truth[getattr(d, f"p{pins[0]}").value != arg], **kw)
                    elif item == "pin":
                        await triggers.Condition(pin, lambda p: truth[p.value != arg], **kw)
                    else:
                        await triggers.Condition(bundle, lambda b: truth[b[f"p{pins[0]}"].value != arg], **kw)
                else:
                    await getattr(triggers, kind)(pin)
                fired[k] = fired.get(k, ()) + (dut.cycle,)

            for k, tr in enumerate(trig):
                create_task(t(k, tr))
            await triggers.ClockCycles(dut, length)
            return dut.cycle

        toffee.run(test)
        ctx.note((waves, trig[:2]))
        nontrivial = False
        for k, tr in enumerate(trig):
            want = expected(tr)
            got = fired.get(k)
            if got is not None and len(got) > 1:
                ctx.fail(f"trigger {tr} returned twice")
            got = got[0] if got else None
            if got != want:
                ctx.fail(f"{tr[0]} started in cycle {tr[1]} (delay {tr[2]}, pins {tr[3]}, arg {tr[4]}) on waveform "
                         f"{waves[tr[3][0]]} returned in cycle {got}, expected {want}")
            ctx.saw("fired" if want is not None else "not fired")
            ctx.saw(tr[0])
            if tr[2] == 0:
                ctx.saw("delay 0")
            nontrivial |= want is not None and want > tr[1]
        ctx.saw("edges", length + 1)
        if nontrivial:
            ctx.key(waves, trig)


class Boom(Exception):
    pass


Pair = collections.namedtuple("Pair", "first second")


class MyTuple(tuple):
    pass


class MainModel(Model):
    def __init__(self, log, dut, tag):
        super().__init__()
        self.log, self.dut, self.tag = log, dut, tag

    async def main(self):
        self.log.append(("main", self.tag, self.dut.cycle))
        while True:
            await triggers.ClockCycles(self.dut)
            self.log.append(("tick", self.tag, self.dut.cycle))


def called(rng, f):
    """f, or something else that is called like it."""

    class Caller:
        def __call__(self, *args):
            return f(*args)

        method = __call__

    return rng.choice([f, f, f, lambda *a: f(*a), functools.partial(f), Caller(), Caller().method])


class C04(Check):
    PROP = "C04"
    quick, thorough = 8000, 160000
    need = {"runs": 250, "background tasks": 500, "failing tests": 20, "no clock": 15}
    rule = (
        "random tests: coroutine/function/handle form, result values including falsy ones, exceptions, 0 to 30 cycles, "
        "background tasks blocked in different ways or runnable when the test ends, models with a main loop; distinct by plan"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        form = rng.choice(["coro", "func", "handle0", "handle1", "handle2", "handleN", "handleX"])
        cycles = rng.choice([0, 1, 2, rng.randint(0, 30)])
        clock = rng.random() > 0.12
        if not clock:
            cycles = 0
        fails = rng.random() < 0.12
        value = rng.choice([None, 0, False, "", [], (), (1, 2), {"a": 1}, object(), 17, Boom("data"), asyncio.CancelledError(), Boom, [1], True])
        bg = [
            (rng.choice(["forever", "event", "queue", "hops", "finish", "spawn", "wake"]), rng.randint(0, 6))
            for _ in range(rng.randint(0, 8))
        ]
        models = rng.randint(0, 3) if clock else 0
        # the run is started by the framework, or the wrapper for tests is run in a loop that exists (as pytest plugins do)
        launch = rng.choice(["run", "run", "wrapper", "inner", "early"])
        lag = rng.choice([0, 1, 2, 5])
        ctx.note((launch, form, cycles, clock, fails, repr(value), bg, models))
        log, box = [], {}
        extra = [rng.choice([0, None, "x", (), [1]]) for _ in range(rng.choice([0, 1, 2, 3, 3]))]
        single = rng.choice([[], [1], [1, 2], {}, {"a": 1}, "", "xy", 0, False, set(), range(3), iter([1]), object()])

        def build():
            if "dut" in box:
                ctx.equal(box["dut"].cycle, 0, "clock edges before the run started")
                return box["dut"]
            dut = DUT(PINS)
            box["dut"] = dut
            if clock:
                start_clock(dut)
            dut.on_edge.append(lambda c: log.append(("edge", c)))
            for m in range(models):
                MainModel(log, dut, m)
            return dut

        def start(*args):
            if launch == "run":
                return toffee.run(*args)
            if launch == "wrapper":
                return asyncio.run(toffee.main_coro(*args))

            async def outer():
                if launch == "early":
                    build()
                for _ in range(lag):
                    await asyncio.sleep(0.0001 * (lag % 2))
                return await toffee.main_coro(*args)

            return asyncio.run(outer())

        async def background(dut, k, kind, h):
            try:
                if kind == "event":
                    await Event().wait()
                elif kind == "queue":
                    await Queue().get()
                elif kind == "hops":
                    for _ in range(h):
                        await sleep(0)
                    log.append(("bgdone", k, dut.cycle))
                    return
                elif kind == "wake":
                    await box["end"].wait()
                    for _ in range(h):
                        await sleep(0)
                    log.append(("woken", k, dut.cycle))
                    await Event().wait()
                elif kind == "spawn":
                    await box["end"].wait()
                    box["tasks"].append(create_task(background(dut, k, "hops", h)))
                    return
                elif kind == "finish" or not clock:
                    return
                else:
                    while True:
                        await triggers.ClockCycles(dut)
                        log.append(("bgtick", k, dut.cycle))
            except asyncio.CancelledError:
                log.append(("cancelled", k, dut.cycle))
                # the clean-up of a task may take some rounds of the loop
                for _ in range(2 * h):
                    await asyncio.sleep(0)
                log.append(("cleaned", k))
                raise

        async def body(dut):
            box["end"] = Event()
            # (asyncio only keeps weak references to tasks)
            box["tasks"] = [create_task(background(dut, k, kind, h)) for k, (kind, h) in enumerate(bg)]
            if clock:
                await triggers.ClockCycles(dut, cycles)
            else:
                for _ in range(3):
                    await sleep(0)
            log.append(("end", dut.cycle))
            box["end"].set()
            if fails:
                raise Boom("test failed")
            return value

        async def test_noarg():
            return await body(build())

        async def test1(x):
            if form == "handle0":
                ctx.expect(x is None, f"the test got {x!r} instead of the handle's None")
                return await body(build())
            if form == "handle1":
                return await body(x)
            ctx.expect(x == box["sent"][0] and x is box["sent"][0], f"test argument {x!r} is not what the handle returned")
            return await body(box["dut"])

        async def testn(*args):
            ctx.expect(
                len(args) == len(box["sent"]) and all(a is b for a, b in zip(args, box["sent"])),
                f"the test got {args!r}, the handle returned {box['sent']!r}",
            )
            return await body(box["dut"])

        def handle():
            if form == "handle0":
                return None
            dut = build()
            if form == "handle1":
                return dut
            if form == "handle2":
                box["sent"] = (single, dut)
                return box["sent"]
            if form == "handleX":
                box["sent"] = (single,)
                return single
            box["sent"] = rng.choice([tuple, MyTuple])(extra)
            if len(extra) == 2 and rng.random() < 0.5:
                box["sent"] = Pair(*extra)
            return box["sent"]

        raised = None
        result = None
        try:
            if form == "coro":
                result = start(test_noarg())
            elif form == "func":
                result = start(called(rng, test_noarg))
            elif form in ("handle0", "handle1"):
                result = start(called(rng, test1), called(rng, handle))
            else:
                result = start(called(rng, testn), called(rng, handle))
        except Boom as e:
            raised = e
        n_at_return = len(log)
        dut = box["dut"]
        if fails:
            ctx.expect(raised is not None, "the exception of the test did not come out of the run")
            ctx.saw("failing tests")
        else:
            if raised is not None:
                ctx.fail("the run failed, the test did not")
            ctx.expect(result is value, f"the run returned {result!r}, the test returned {value!r}")
            if clock:
                # the last cycle is closed by an edge; the run may need a little more to wind down, nothing runs in it
                ctx.expect(cycles < dut.cycle <= cycles + 3, f"{dut.cycle} clock edges in a run whose test took {cycles} cycles")
                self.last_cycle(ctx, log, bg, cycles)
                for m in range(models):
                    starts = [x for x in log if x[:2] == ("main", m)]
                    # the main of a model built before the first edge starts right after it
                    if cycles >= 1:
                        ctx.equal(starts, [("main", m, 1)], f"main of model {m}")
                    ticks = [x[2] for x in log if x[:2] == ("tick", m)]
                    ctx.equal(ticks, list(range(2, cycles + 1)), f"cycles seen by the main of model {m}")
            else:
                ctx.equal(dut.cycle, 0, "clock edges without a clock")
                ctx.saw("no clock")
        ctx.equal(len(log), n_at_return, "activity after the run returned")
        ctx.saw("runs")
        ctx.saw("background tasks", len(bg))
        ctx.saw("edges", dut.cycle)
        if bg:
            ctx.key(launch, lag, form, cycles, clock, fails, repr(type(value)), bg, models)

    @staticmethod
    def last_cycle(ctx, log, bg, cycles):
        edge = [i for i, x in enumerate(log) if x == ("edge", cycles)]
        ctx.equal(len(edge), 1, "edges after the end of the test")
        before = log[: edge[0]] if edge else log
        for k, (kind, h) in enumerate(bg):
            if kind == "wake":
                ctx.expect(("woken", k, cycles) in before, f"background task {k}, runnable when the test ended, did not run before the last edge")
            if kind == "spawn":
                ctx.expect(("bgdone", k, cycles) in before, f"task spawned by background task {k} in the last cycle did not finish in it")
            if kind == "forever":
                ctx.equal([x[2] for x in log if x[:2] == ("bgtick", k)], list(range(1, cycles + 1)), f"cycles seen by background task {k}")
            if kind in ("event", "queue", "wake", "forever"):
                c = [x for x in log if x[:2] == ("cancelled", k)]
                ctx.equal(len(c), 1, f"cancellations of the unfinished background task {k}")
                ctx.equal(log.count(("cleaned", k)), 1, f"completed clean-ups of the unfinished background task {k}")


class Outcome(BaseException):
    """Like the outcomes of pytest, which are no Exceptions."""


class Strange(ValueError):
    def __init__(self, a, b):
        super().__init__(a)

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    __hash__ = None


FAILURES = [Boom, Boom, ValueError, KeyError, RuntimeError, AssertionError, Outcome, TypeError, AttributeError, StopIteration,
            asyncio.TimeoutError, EOFError, lambda m: Strange(m, 1), NotImplementedError, asyncio.QueueEmpty, asyncio.QueueFull,
            asyncio.InvalidStateError, StopAsyncIteration, MemoryError, Warning, lambda m: ExceptionGroup(m, [ValueError(m)])]


class FailAgent(Agent):
    def __init__(self, bundle, plan, dut):
        self.plan, self.dut = plan, dut
        super().__init__(bundle)

    @driver_method()
    async def d(self, x):
        for _ in range(self.plan["dlen"]):
            await self.bundle.step()
        if self.plan["kind"] == "driver" and x == self.plan["at"]:
            raise self.plan["exc"]("driver")
        if self.plan["kind"].endswith("mismatch") and x == self.plan["at"]:
            self.plan["exc"]("")
        return x

    @monitor_method()
    async def m(self):
        if self.plan["kind"] == "monitor" and self.dut.cycle == self.plan["cycle"]:
            raise self.plan["exc"]("monitor")
        if self.plan["kind"] == "monitor-late" and self.dut.cycle == self.plan["cycle"]:
            await self.bundle.step()
            self.plan["exc"]("")
            assert False, "late monitor"
        return self.dut.cycle


class FailModel(Model):
    def __init__(self, plan, dut, bad):
        super().__init__()
        self.plan, self.dut, self.bad = plan, dut, bad

    def kind(self, name):
        return self.bad and self.plan["kind"] == name

    @driver_hook("ag.d")
    def d(self, x):
        if x == self.plan["at"]:
            if self.kind("dhook"):
                raise self.plan["exc"]("driver hook")
            if self.kind("mismatch"):
                return [x]
        return x

    @agent_hook(methods=["ag.d"], sche_order="dut_first")
    def all_d(self, name, args):
        if args["x"] == self.plan["at"]:
            if self.kind("ahook"):
                raise self.plan["exc"]("agent hook")
            if self.kind("dfmismatch"):
                return x_other
        return None

    @monitor_hook("ag.m")
    def m(self, item):
        if self.kind("mhook") and item == self.plan["cycle"]:
            raise self.plan["exc"]("monitor hook")

    async def main(self):
        if self.kind("main"):
            await triggers.ClockCycles(self.dut, max(0, self.plan["cycle"] - 1))
            raise self.plan["exc"]("main")
        if self.kind("main-child"):

            async def child():
                raise self.plan["exc"]("child")

            await triggers.ClockCycles(self.dut, max(0, self.plan["cycle"] - 1))
            await gather(child(), sleep(0))


x_other = "something else"


class FailEnv(Env):
    def __init__(self, bundle, plan, dut):
        super().__init__()
        self.ag = FailAgent(bundle, plan, dut)


class C05(Check):
    PROP = "C05"
    quick, thorough = 5000, 100000
    KINDS = ["none", "test", "driver", "dhook", "ahook", "mhook", "mismatch", "dfmismatch", "monitor", "monitor-late", "main",
             "main-child", "task", "group", "gather-blocked", "group-blocked", "any-blocked", "wait-blocked", "group-any", "group-later", "group-wait-none", "group-wait-any", "gather", "exec-body", "condition", "callback", "factory"]
    need = {"failures planted": 200, "clean runs": 15}
    rule = (
        "one failure (exception, failed assertion or mismatch) planted in one of 26 places, in a random cycle of a random "
        "test with several models, of which one is faulty; non-trivial if a failure was planted; distinct by plan"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        cycles = ctx.up(3, 20)
        kind = self.KINDS[ctx.i % len(self.KINDS)]
        plan = dict(kind=kind, cycles=cycles, dlen=rng.randint(1, 2), cycle=rng.randint(1, cycles), at=None, exc=rng.choice(FAILURES))
        ncalls = cycles // plan["dlen"]
        plan["at"] = rng.randrange(ncalls)
        if kind == "monitor-late":
            plan["cycle"] = rng.randint(1, cycles - 1)
        nmodels = rng.randint(1, 3)
        badmodel = rng.randrange(nmodels)
        how = rng.choice(["await", "exec"])
        pad = rng.choice([0, 0, 1, 2, ctx.up(3, 130)])
        ctx.note((plan, nmodels, badmodel, how))
        reached = []
        make = plan["exc"]

        def exc(msg):
            reached.append(box["dut"].cycle)
            return make(msg)

        box = {}
        plan["exc"] = exc

        def handle():
            dut = box["dut"] = DUT(PINS)
            start_clock(dut)
            if kind == "callback":

                def callback(cycle):
                    if dut.cycle == plan["cycle"]:
                        raise plan["exc"]("callback")

                dut.StepRis(callback)
            if kind == "factory":
                raise plan["exc"]("factory")
            env = FailEnv(SigBundle.from_prefix("io_").bind(dut), plan, dut)
            for i in range(nmodels):
                env.attach(FailModel(plan, dut, i == badmodel))
            return dut, env

        async def test(dut, env):
            async def boom_task(n):
                await triggers.ClockCycles(dut, n)
                raise plan["exc"]("background task")

            async def quick_group():
                await triggers.ClockCycles(dut, 1)

            if kind == "task":
                create_task(boom_task(rng.randint(0, cycles)))
            for k in range(ncalls):
                if kind == "test" and k == plan["at"]:
                    raise plan["exc"]("test")
                if kind == "exec-body" and k == plan["at"]:
                    async with Executor(exit=rng.choice(["all", "none", "any"])) as exe:
                        for n in range(rng.randint(0, 2)):
                            exe(quick_group(), sche_group=str(n))
                        if exe is not None:
                            raise plan["exc"]("block")
                if kind == "condition" and k == plan["at"]:
                    looks = []

                    def holds(_):
                        looks.append(1)
                        if len(looks) > plan["cycle"] % 3:
                            raise plan["exc"]("condition")

                    await triggers.Condition(dut, holds)
                if kind == "gather" and k == plan["at"]:
                    await gather(quick_group(), boom_task(rng.randint(0, 2)), quick_group())
                if kind == "gather-blocked" and k == plan["at"]:
                    many = [Event().wait(), boom_task(rng.randint(0, 2)), quick_group()] + [quick_group() for _ in range(pad)]
                    await gather(*rng.sample(many, len(many)))
                if kind in ("group-blocked", "any-blocked", "wait-blocked") and k == plan["at"]:
                    # a group that never ends
                    mode = {"group": "all", "any": "any", "wait": "none"}[kind[:-8]]
                    async with Executor(exit=mode) as exe:
                        names = ["g", "h"] + (list(range(pad)) if mode != "any" else [])
                        for n in rng.sample(names, len(names)):
                            exe(Event().wait() if n == "g" else boom_task(rng.randint(0, 3)) if n == "h" else quick_group(), sche_group=n)
                    await exe.wait_all()
                if kind.startswith("group-wait") and k == plan["at"]:
                    async with Executor(exit=kind[11:]) as exe:
                        exe(triggers.ClockCycles(dut, 0), sche_group="first")
                        exe(boom_task(rng.randint(1, 3)), sche_group="g")
                        exe(quick_group())
                    await triggers.ClockCycles(dut, rng.randint(0, 4))
                    await exe.wait_all()
                elif kind.startswith("group") and k == plan["at"]:
                    mode = "any" if kind == "group-any" else "all"
                    async with Executor(exit=mode) as exe:
                        before = rng.random() < 0.5
                        if mode == "all":
                            exe(quick_group())
                        for n in range(rng.randint(1, 3) if mode == "any" and before else 0):
                            exe(triggers.ClockCycles(dut, 50), sche_group=f"long{n}")
                        if kind == "group-later":
                            exe(quick_group(), sche_group="g")
                        exe(boom_task(rng.randint(0, 2)), sche_group="g")
                        if mode == "any" and not before:
                            exe(triggers.ClockCycles(dut, 50))
                if how == "await":
                    r = await env.ag.d(k)
                else:
                    async with Executor() as exe:
                        exe(env.ag.d(k))
                    r = exe.get_results()["ag.d"]
                ctx.expect(r == k, f"driver returned {r!r} for {k}")
            await triggers.ClockCycles(dut, cycles - ncalls * plan["dlen"] + rng.randint(0, 2))
            return "passed"

        err, res = None, None
        try:
            res = toffee.run(test, handle)
        except (Hang, NoProgress, TooManySteps):
            raise
        except BaseException as e:
            err = e
        if kind == "none":
            if err is not None:
                raise err
            ctx.equal(res, "passed", "result of the clean run")
            ctx.saw("clean runs")
        else:
            if err is None:
                ctx.fail(f"failure '{kind}' planted in {plan} (model {badmodel} of {nmodels}): the run passed")
            late = box["dut"].cycle - reached[0] if reached else 99
            if late > (6 if kind.startswith("group-wait") else 1):
                ctx.fail(f"failure '{kind}' in {plan}: it happened in cycle {reached}, the run went on to cycle {box['dut'].cycle}")
            ctx.saw("failures planted")
            ctx.saw("fail:" + kind)
            ctx.key(plan, nmodels, badmodel, how)


class IsoAgent(Agent):
    def __init__(self, bundle, log, dut):
        self.log, self.dut = log, dut
        super().__init__(bundle)

    @driver_method()
    async def d(self, x, n=1):
        self.log.append(("drive", x, self.dut.cycle))
        for _ in range(n):
            await self.bundle.step()
        return x

    @monitor_method()
    async def m(self):
        if self.dut.cycle % 2:
            return self.dut.cycle


class IsoModel(Model):
    def __init__(self, log, dut, delayers):
        super().__init__()
        self.log, self.dut = log, dut
        self.m_port = MonitorPort("ag.m", maxsize=3)

    @driver_hook("ag.d")
    def d(self, x, n=1):
        self.log.append(("hook", x, n, self.dut.cycle))
        return x

    @agent_hook(agents=["ag"], sche_order="dut_first")
    def agent_d(self, name, item):
        self.log.append(("ahook", name, dict(item) if isinstance(item, dict) else item, self.dut.cycle))

    async def main(self):
        while True:
            v = await self.m_port()
            self.log.append(("port", v, self.dut.cycle))


class IsoEnv(Env):
    def __init__(self, bundle, log, dut):
        super().__init__()
        self.ag = IsoAgent(bundle, log, dut)


class UnfitModel(IsoModel):
    def __init__(self):
        super().__init__([], None, None)

    @driver_hook("ag.unknown")
    def u(self):
        pass


class C06(Check):
    PROP = "C06"
    quick, thorough = 1200, 24000
    need = {"aborted runs": 50, "compared events": 1200, "runs in one event loop": 50, "testbenches in one test": 50, "testbenches in threads": 40}
    rule = (
        "a reference run of a random test, then 1 to 4 other runs in the same process that end normally, with an exception, "
        "inside a hook, with calls pending or with executor settings pending, then the reference again: both traces must be "
        "equal; distinct by (test, disturbances)"
    )

    def bench(self, rng, plan, abort=None):
        from toffee import Delayer

        log, box = [], {}

        def handle():
            dut = DUT(dict({p: {} for p in PINS}, cnt=dict(out=True, width=16)))
            box["dut"] = dut
            dut.drivers.append(lambda c: dut.poke("cnt", c))
            if abort and abort[0] == "noclock":
                raise Boom("no clock")
            if plan["clock first"]:
                start_clock(dut)
            dut.on_edge.append(lambda c: log.append(("edge", c, box["del"].value)))
            box["del"] = Delayer(dut.cnt, plan["delay"])
            env = IsoEnv(SigBundle.from_prefix("io_").bind(dut), log, dut)
            model = IsoModel(log, dut, None)
            env.attach(model)
            if abort and abort[0] == "attach":
                env.attach(UnfitModel())
            box["model"] = model
            if plan["queue"]:
                env.ag.start_monitor("m", plan["queue"])
            if not plan["clock first"]:
                start_clock(dut)
            return dut, env

        async def test(dut, env):
            for k, (op, n, pr) in enumerate(plan["ops"]):
                if op == "await":
                    await env.ag.d(k, n)
                elif op == "bg":
                    create_task(env.ag.d(k, n=n))
                elif op == "exec":
                    async with Executor(exit=rng.choice(["all"])) as exe:
                        exe(env.ag.d(k, n), priority=pr, sche_order=None)
                elif op == "execnone":
                    async with Executor(exit="none") as exe:
                        exe(env.ag.d(k, n), sche_order="dut_first")
                elif op == "mon" and plan["queue"]:
                    log.append(("got", await env.ag.m(), dut.cycle))
                else:
                    await triggers.ClockCycles(dut, n)
                if abort and k == abort[1]:
                    if abort[0] == "raise":
                        raise Boom("abort")
                    if abort[0] == "pending":
                        for j in range(3):
                            create_task(env.ag.d(1000 + j, 2))
                        for _ in range(abort[2]):
                            await sleep(0)
                        raise Boom("abort")
                    if abort[0] == "hook":
                        def bad(*a, **k):
                            raise Boom("hook")
                        box["model"].log = type("L", (), {"append": lambda s, x: bad()})()
                        for j in range(3):
                            create_task(env.ag.d(2000 + j, 1))
                        await triggers.ClockCycles(dut, 3)
                    if abort[0] == "task":
                        async def boom():
                            raise Boom("task")

                        create_task(boom())
                        await triggers.ClockCycles(dut, 3)
                    if abort[0] == "exec":
                        async with Executor(exit="none") as exe:
                            for j in range(3):
                                exe(env.ag.d(3000 + j, 1), priority=0, sche_order="dut_first")
                        raise Boom("abort")
            box["events"] = len(log)
            return len(log)

        return log, box, handle, test

    def go(self, rng, plan, abort=None):
        log, box, handle, test = self.bench(rng, plan, abort)
        err = None
        try:
            if self.runner is not None:
                self.runner.run(toffee.main_coro(test, handle))
            else:
                toffee.run(test, handle)
        except (Boom, RuntimeError, ValueError) as e:
            err = type(e).__name__
        if "dut" in box:
            box["dut"].closed = True
            self.duts.append(box["dut"])
        self.last = box
        return log, err

    def scenario(self, ctx):
        import random

        rng = ctx.rng

        def mkplan():
            return dict(
                delay=rng.randint(0, 3),
                queue=rng.choice([0, 1, 4]),
                **{"clock first": rng.random() < 0.5},
                ops=[(rng.choice(["await", "bg", "exec", "execnone", "clk", "mon"]), rng.randint(1, 2), rng.choice([None, 0, 50]))
                     for _ in range(ctx.up(2, 12))],
            )

        plan = mkplan()
        seed = rng.random()
        self.duts = []
        # the runs may even use the same event loop, one after the other
        if ctx.i % 6 == 1:
            self.runner = None
            self.together(ctx, plan, mkplan, seed)
        elif ctx.i % 24 == 5:
            self.runner = None
            self.threads(ctx, plan, mkplan, seed)
        elif ctx.i % 6 == 3:
            with asyncio.Runner() as self.runner:
                self.compare(ctx, plan, mkplan, seed, [None])
        else:
            self.runner = None
            self.compare(ctx, plan, mkplan, seed, [None, None, "raise", "pending", "hook", "exec", "pending", "exec", "task", "noclock", "attach"])

    @staticmethod
    def cycles(log):
        """The events of each cycle; their order in the cycle is of no matter."""
        out = [[]]
        for e in log:
            if e[0] == "edge":
                out.append([])
            out[-1].append(repr(e))
        return [sorted(c) for c in out]

    def together(self, ctx, plan, mkplan, seed):
        """Testbenches of several designs that run in one test do not influence each other either."""
        import random

        rng = ctx.rng
        plans = [plan] + [mkplan() for _ in range(rng.choice([1, 1, 2]))]
        alone = [self.go(random.Random(seed), p) + (self.last["events"],) for p in plans]
        benches = [self.bench(random.Random(seed), p) for p in plans]

        async def both(*args):
            return await gather(*[b[3](*args[2 * k : 2 * k + 2]) for k, b in enumerate(benches)])

        toffee.run(both, lambda: tuple(x for b in benches for x in b[2]()))
        ctx.note(plans)
        for k, ((want, err, n), (log, box, _, _)) in enumerate(zip(alone, benches)):
            if err:
                ctx.fail(f"the reference run failed: {err}")
            # the run goes on until all of them are done
            # the run goes on until all of them are done; where in its last cycle each one resumed is of no matter
            if abs(box["events"] - n) > 6:
                ctx.fail(f"testbench {k} of {len(plans)}: over after {box['events']} events, alone after {n}")
            n = min(n, box["events"])
            n = max((j for j in range(n) if want[j][0] == "edge"), default=0)
            want, log = self.cycles(want[:n]), self.cycles(log[:n])
            if log != want:
                d = next((j for j, (a, b) in enumerate(zip(want, log)) if a != b), min(len(want), len(log)))
                ctx.fail(f"testbench {k} of {len(plans)} in one test: event {d} alone {want[d:d+2]}, together {log[d:d+2]}")
            ctx.saw("compared events", n)
        ctx.saw("testbenches in one test", len(plans))
        ctx.key("together", plans)

    def threads(self, ctx, plan, mkplan, seed):
        """Nor do runs of several threads, each with its own event loop and design."""
        import random, sys, threading, time

        rng = ctx.rng
        plans = [plan] + [mkplan() for _ in range(rng.choice([1, 1, 2]))]
        alone = [self.go(random.Random(seed), p) for p in plans]
        benches = [self.bench(random.Random(seed), p) for p in plans]
        errs = {}
        turns = []
        setup = threading.Lock()

        def go(k):
            log, box, handle, test = benches[k]

            def handle2():
                with setup:  # (models of one class are attached one at a time)
                    r = handle()

                def turn(c):
                    turns.append(k)
                    time.sleep(0)

                box["dut"].on_edge.append(turn)
                return r

            try:
                toffee.run(test, handle2)
            except BaseException as e:
                errs[k] = e

        ctx.note(plans)
        interval = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=go, args=(k,), daemon=True) for k in range(len(plans))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(interval)
        for k, ((want, err), (log, box, _, _)) in enumerate(zip(alone, benches)):
            if err:
                ctx.fail(f"the reference run failed: {err}")
            if k in errs:
                ctx.fail(f"testbench {k} of {len(plans)} in threads: alone it passes, next to the others {errs[k]!r}")
            if log != want:
                d = next((j for j, (a, b) in enumerate(zip(want, log)) if a != b), min(len(want), len(log)))
                ctx.fail(f"testbench {k} of {len(plans)} in threads: event {d} alone {want[d:d+2]}, with the others {log[d:d+2]}")
            ctx.saw("compared events", len(log))
        ctx.saw("testbenches in threads", len(plans))
        ctx.saw("switches between threads", sum(a != b for a, b in zip(turns, turns[1:])))
        ctx.key("threads", plans)

    def compare(self, ctx, plan, mkplan, seed, aborts):
        import random

        rng = ctx.rng
        ref, err = self.go(random.Random(seed), plan)
        if err:
            ctx.fail(f"the reference run failed: {err}")
        dist = []
        for _ in range(rng.randint(1, 4)):
            if self.runner is not None and rng.random() < 0.2:
                async def short():
                    return await gather(sleep(0), sleep(0)) and len(dist)

                ctx.equal(self.runner.run(toffee.main_coro(short)), len(dist), "result of a test without a clock")
                ctx.saw("tests without a clock")
            p = rng.choice([plan, mkplan()])
            ab = rng.choice(aborts)
            ab = ab and (ab, rng.randrange(len(p["ops"])), rng.randint(0, 6))
            _, e = self.go(random.Random(seed), p, ab)
            dist.append((ab, e))
            if e:
                ctx.saw("aborted runs")
            if bool(e) != bool(ab):
                ctx.fail(f"disturbance {ab}: run outcome {e}")
        again, err = self.go(random.Random(seed), plan)
        ctx.note((plan, dist))
        if err or again != ref:
            d = next((k for k, (a, b) in enumerate(zip(ref, again)) if a != b), min(len(ref), len(again)))
            ctx.fail(f"after {dist} the same test behaves differently ({err}): event {d} was {ref[d:d+2]}, now {again[d:d+2]}")
        for n, d in enumerate(self.duts):
            ctx.expect(not d.late, f"the design of run {n} was used after the end of the run: {d.late[:3]}, runs: {dist}")
        ctx.saw("compared events", len(ref))
        if self.runner is not None:
            ctx.saw("runs in one event loop", len(dist) + 2)
        if any(e for _, e in dist) or self.runner is not None:
            ctx.key(plan, dist)
