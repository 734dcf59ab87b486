"""Executor: groups, order, results, exit conditions."""

import itertools

import toffee
from toffee import *
from checks import Check
from vf import gen
from vf.gen import Rec

COROS = ["work", "work2", "load", "d", "ag.d", "Work", "ag2"]
AGENTS = ["ag", "ag2", "Ag"]
GROUPS = ["g", "h", "ag.d", "work", "g", "G", "", 0, ("ag", "d"), "Ag.d", 1.5]


def rval(uid):
    """The result of a coroutine, of every type."""
    return [("r", uid), ["r", uid], [uid], [], {"r": uid}, ("r", uid), (), "", [["r", uid]], 0, ["r"], [None]][uid % 12]


class ExAgent(Agent):
    def __init__(self, bundle, log, dut):
        self.log, self.dut = log, dut
        super().__init__(bundle)

    async def _do(self, uid, n):
        self.log.append(("start", uid, self.dut.cycle))
        for _ in range(n):
            await self.bundle.step()
        self.log.append(("end", uid, self.dut.cycle))
        return rval(uid)

    @driver_method()
    async def d(self, uid, n):
        return await self._do(uid, n)

    @driver_method()
    async def d2(self, uid, n=1):
        return await self._do(uid, n)

    @driver_method()
    async def plain(self, uid, n):
        await self._do(uid, n)
        return ("r", uid)

    @driver_method()
    async def none(self, uid, n):
        await self._do(uid, n)


class ExModel(Model):
    def __init__(self):
        super().__init__()
        self.log = []

    @driver_hook("ag.d")
    def h(self, uid, n):
        self.log.append(uid)

    @agent_hook(agents=["ag"], sche_order="dut_first")
    def a(self, path, item):
        self.log.append(item["uid"])


class ExEnv(Env):
    def __init__(self, dut, log):
        super().__init__()
        for n in AGENTS:
            setattr(self, n, ExAgent(gen.MonBundle.from_prefix("io_").bind(dut), log, dut))


def named(name, uid, n, log, dut, local):
    async def f():
        log.append(("start", uid, dut.cycle))
        for k in range(n):
            await ClockCycles(dut, 1)
        log.append(("end", uid, dut.cycle))
        return rval(uid)

    # a local variable of the user's coroutine may have any name
    async def agent_local(agent):
        return await f()

    async def driver_local(driver, agent=None, self=None):
        return await f()

    if local is None:
        c = f()
    elif local == "driver":
        c = driver_local(local)
    else:
        c = agent_local(local)
    c.__name__ = name
    return c


def rand_items(rng, uid, n, durations):
    items = []
    for _ in range(n):
        d = rng.choice(durations)
        if rng.random() < 0.6:
            ag, m = rng.choice(["ag", "ag", "ag2", "Ag"]), rng.choice(["d", "d", "d2", "none"])
            it = dict(kind="driver", env=rng.randrange(2), agent=ag, method=m, key=f"{ag}.{m}", res=m != "none")
        else:
            nm = rng.choice(COROS)
            it = dict(kind="coro", name=nm, key=nm, res=True, local=rng.choice([None, None, None, "driver", "x", 0, [], "ag", "ag2", "Ag"]))
        it.update(uid=next(uid), n=d, prio=None, order=None, hops=0)
        if it["kind"] == "driver":
            it["prio"] = rng.choice([None, None, 0, 50, 99])
            it["order"] = rng.choice([None, None, "dut_first", "model_first", "parallel"])
        if rng.random() < 0.35:
            it["key"] = it["group"] = rng.choice(GROUPS)
        items.append(it)
    return items


def add(exe, it, envs, log, dut):
    if it["kind"] == "driver":
        c = getattr(getattr(envs[it["env"]], it["agent"]), it["method"])(it["uid"], n=it["n"])
    else:
        local = getattr(envs[0], it["local"]) if it["local"] in AGENTS else it["local"]
        c = named(it["name"], it["uid"], it["n"], log, dut, local)
    kw = {}
    for k in ("prio", "order", "group"):
        if it.get(k) is not None:
            kw[{"prio": "priority", "order": "sche_order", "group": "sche_group"}[k]] = it[k]
    exe(c, **kw)


def grouped(items):
    g = {}
    for it in items:
        g.setdefault(it["key"], []).append(it)
    return g


def want_results(groups):
    out = {}
    for k, its in groups.items():
        r = [rval(it["uid"]) if it["res"] else None for it in its]
        out[k] = r[0] if len(r) == 1 else r
    return out


def check_results(ctx, got, want, what):
    if got != want or list(got) != list(want) and set(got) != set(want):
        bad = [k for k in want.keys() | got.keys() if k not in want or k not in got or got[k] != want[k]]
        ctx.fail(f"{what}: result of {bad[0]!r} is {got.get(bad[0], '(missing)')!r}, expected {want.get(bad[0], '(none)')!r}")


def timeline(ctx, log, groups, t0, until=None):
    """Items of one group run one after the other without gaps, all groups start at once."""
    st = {u: (k, c) for k, (w, u, c) in enumerate(log) if w == "start"}
    en = {u: (k, c) for k, (w, u, c) in enumerate(log) if w == "end"}
    for key, its in groups.items():
        c, last = t0, -1
        for it in its:
            u = it["uid"]
            if until is not None and c > until:
                break
            if u not in st:
                ctx.fail(f"item {it} of group {key!r} never started")
            if st[u][1] != c:
                ctx.fail(f"item {it} of group {key!r} started in cycle {st[u][1]}, expected {c} (executor started in {t0})")
            if st[u][0] < last:
                ctx.fail(f"item {it} started before its predecessor in group {key!r} had ended")
            c += it["n"]
            if until is not None and c > until:
                break
            if u not in en or en[u][1] != c:
                ctx.fail(f"item {it} of group {key!r} ended in {en.get(u)}, expected cycle {c}")
            last = en[u][0]
            ctx.saw("items")
        if len(its) > 1:
            ctx.saw("serial groups")
    if len(groups) > 1:
        ctx.saw("parallel groups", len(groups))


class C(Check):
    pass


class X01(Check):
    PROP = "X01"
    quick, thorough = 2500, 50000
    need = {"items": 2000, "serial groups": 400, "parallel groups": 800, "results": 1000}
    rule = (
        "several executors, one after the other and at the same time, with random drivers of two envs, own coroutines and named "
        "groups, with and without hooks; start, end and result of every item are checked; distinct by the plan"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        uid = itertools.count()
        durations = rng.choice([[1], [0, 1, 2], [1, 2, 3, 7], [0]])
        tasks = [
            [(rand_items(rng, uid, ctx.up(1, rng.choice([12, 12, 12, 60])), durations), rng.randint(0, 2)) for _ in range(rng.randint(1, 3))]
            for _ in range(rng.choice([1, 1, 2, 3]))
        ]
        if gen.big(ctx, 60, True):
            # one executor with many items: a few long groups, or very many groups
            items = rand_items(rng, uid, rng.randint(80, 300), durations)
            pool = rng.choice([GROUPS, ["g"], ["g", "h", 0]]) if rng.random() < 0.6 else [f"g{k}" for k in range(200)]
            for it in items:
                if rng.random() < 0.8:
                    it["key"] = it["group"] = rng.choice(pool)
            tasks[0][0] = (items, 0)
        nmodels = rng.randint(0, 2)
        slow = rng.random() < 0.2
        log = []
        recs = []

        def handle():
            dut = gen.build_dut(Rec())
            envs = [ExEnv(dut, log) for _ in range(2)]
            for _ in range(nmodels):
                envs[0].attach(ExModel())
            return dut, envs

        async def test(dut, envs):
            async def t(plan):
                for items, wait in plan:
                    await ClockCycles(dut, wait)
                    t0 = dut.cycle
                    async with rng.choice([Executor, lambda: Executor("all"), lambda: Executor(exit="all")])() as exe:
                        for it in items:
                            add(exe, it, envs, log, dut)
                            if slow and rng.random() < 0.3:
                                await ClockCycles(dut, rng.randint(0, 2))
                        if any(u == it["uid"] for it in items for _, u, _ in log):
                            ctx.bad("something ran before the executor block was left")
                        if not slow and dut.cycle != t0:
                            ctx.bad("adding calls to an executor took time")
                        t0 = dut.cycle
                    recs.append((items, t0, dut.cycle, exe.get_results()))

            ts = [create_task(t(p)) for p in tasks]
            for x in ts:
                await x

        toffee.run(test, handle)
        for items, t0, t1, res in recs:
            g = grouped(items)
            timeline(ctx, log, g, t0)
            ctx.equal(t1 - t0, max(sum(i["n"] for i in its) for its in g.values()), "cycles that the executor took")
            check_results(ctx, res, want_results(g), "results")
            ctx.saw("results", len(g))
            for u in (it["uid"] for it in items):
                ctx.equal(sum(1 for w, v, _ in log if v == u), 2, f"start and end events of item {u}")
        ctx.equal(len(recs), sum(map(len, tasks)), "executors that finished")
        ctx.note([[(i["key"], i["n"]) for i in items] for items, _ in tasks[0]])
        if any(len(grouped(i)) > 1 for p in tasks for i, _ in p):
            ctx.key(tasks, nmodels)


class X02(Check):
    PROP = "X02"
    quick, thorough = 3000, 60000
    need = {"all": 250, "any": 400, "none": 400, "items": 6000, "results": 2000, "waited later": 400, "overlapping": 400}
    rule = (
        "executors with each exit condition over random groups (ties, zero-length, one much longer; alone, several at the same time, "
        "and inside items of another one), followed by other work, wait_all and get_results; entry, exit and completion cycles "
        "are predicted; distinct by plan"
    )

    def plan(self, ctx, uid, durations, top):
        rng = ctx.rng
        mode = rng.choice(["all", "any", "any", "none", "none"])
        items = rand_items(rng, uid, ctx.up(1, 12 if top else 4) if rng.random() < 0.95 else 0, durations)
        if rng.random() < 0.3:
            # one or two long groups
            for it in items:
                it["key"] = it["group"] = rng.choice(["g", "g", "g", "h"])
        return dict(mode=mode, items=items, before=rng.randint(0, 3), between=rng.choice([0, 0, 1, 3, 30]),
                    twice=rng.random() < 0.3, inside=None if top or rng.random() < 0.5 else rng.choice(["all", "any", "none"]))

    def scenario(self, ctx):
        rng = ctx.rng
        uid = itertools.count()
        durations = rng.choice([[1], [0, 1, 2], [1, 2, 3, 7], [2, 20], [0]])
        plans = [self.plan(ctx, uid, durations, True)]
        if rng.random() < 0.3:
            plans += [self.plan(ctx, uid, durations, False) for _ in range(rng.randint(1, 3))]
        nmodels = rng.randint(0, 2)
        log = []
        outs = [{} for _ in plans]

        def handle():
            dut = gen.build_dut(Rec())
            envs = [ExEnv(dut, log) for _ in range(2)]
            for _ in range(nmodels):
                envs[0].attach(ExModel())
            return dut, envs

        async def test(dut, envs):
            async def one(plan, out):
                await ClockCycles(dut, plan["before"])
                out["t0"] = dut.cycle
                async with Executor(exit=plan["mode"]) as exe:
                    for it in plan["items"]:
                        add(exe, it, envs, log, dut)
                out["t1"] = dut.cycle
                out["log1"] = list(log)
                if plan["mode"] == "all":
                    out["early"] = exe.get_results()
                await ClockCycles(dut, plan["between"])
                out["tb"] = dut.cycle
                await exe.wait_all()
                out["t2"] = dut.cycle
                out["res"] = exe.get_results()
                if plan["twice"]:
                    await exe.wait_all()
                    out["t3"] = dut.cycle
                    out["res2"] = exe.get_results()

            async def nested(plan, out):
                async with Executor(exit=plan["inside"]) as exe:
                    exe(one(plan, out), sche_group="nested")
                    exe(ClockCycles(dut, 1))
                await exe.wait_all()

            ts = [create_task((nested if p["inside"] else one)(p, o)) for p, o in zip(plans[1:], outs[1:])]
            await one(plans[0], outs[0])
            for t in ts:
                await t
            await ClockCycles(dut, 2)

        toffee.run(test, handle)
        for plan, out in zip(plans, outs):
            self.judge(ctx, plan, out, log)
        if len(plans) > 1:
            ctx.saw("overlapping", len(plans))
        p = plans[0]
        ctx.note([(p["mode"], [(i["key"], i["n"]) for i in p["items"]], p["before"], p["between"]) for p in plans])
        if len({sum(i["n"] for i in its) for its in grouped(p["items"]).values()}) > 1:
            ctx.key(plans, nmodels)

    def judge(self, ctx, plan, out, log):
        mode, items = plan["mode"], plan["items"]
        g = grouped(items)
        lens = {k: sum(i["n"] for i in its) for k, its in g.items()}
        t0 = out["t0"]
        timeline(ctx, log, g, t0)
        longest = max(lens.values(), default=0)
        exit_at = {"all": longest, "any": min(lens.values(), default=0), "none": 0}[mode]
        ctx.equal(out["t1"] - t0, exit_at, f"cycles until the executor (exit={mode!r}, group lengths {lens}) went on")
        if mode == "any":
            done = {u for w, u, _ in out["log1"] if w == "end"}
            if g and not any(all(i["uid"] in done for i in its) for its in g.values()):
                ctx.fail("exit='any' went on before any group was complete")
        ctx.equal(out["t2"], max(out["tb"], t0 + longest), "cycle in which wait_all returned")
        if out["t2"] > out["tb"]:
            ctx.saw("waited later")
        check_results(ctx, out["res"], want_results(g), f"results after wait_all (exit={mode!r})")
        if mode == "all":
            check_results(ctx, out["early"], want_results(g), "results after exit='all'")
        if plan["twice"]:
            ctx.equal(out["t3"], out["t2"], "second wait_all")
            check_results(ctx, out["res2"], want_results(g), "results after a second wait_all")
        for it in items:
            ctx.equal(sum(1 for w, v, _ in log if v == it["uid"]), 2, f"start and end events of item {it['uid']}")
        ctx.saw(mode)
        ctx.saw("results", len(g))


class Part(toffee.asynchronous.Component):
    """A component that is no model."""

    def __init__(self, start):
        self.start = start
        super().__init__()

    async def main(self):
        await self.start()


class PartModel(Model):
    def __init__(self, start):
        self.start = start
        super().__init__()

    async def main(self):
        await self.start()


ITEMS = [None, 0, False, "", (), [], 1, "x", (1, 2), StopIteration(), ValueError("an item")]
ANSWERS = [None, None, 0, False, "", [], {}, (1,), ("r",), [None], ValueError("a result"), KeyError, "x", 5.0]


class X03(Check):
    PROP = "X03"
    quick, thorough = 5000, 100000
    need = {"gathers": 5000, "nested": 800, "gathered": 20000, "items taken": 15000, "readers that waited": 3000, "woken": 5000, "passed": 1000, "mains": 3000}
    rule = (
        "trees of gathers over coroutines, driver calls and executors of different lengths from several tasks; queues with several writers and "
        "readers, events that are set and cleared at any time, and components made before and during the run; distinct by plan"
    )

    def rand_tree(self, rng, durations, depth, n):
        """A gather: the list of its parts."""
        out = []
        for _ in range(n):
            kind = rng.choice(["coro", "coro", "hops", "driver", "none", "exec"] + ["gather"] * depth)
            out.append(
                dict(kind=kind, n=rng.choice(durations), hops=rng.choice([0, 0, 1, 3, 10]), value=rng.choice(ANSWERS))
                if kind != "gather"
                else dict(kind=kind, parts=self.rand_tree(rng, durations, depth - 1, rng.randint(0, 4)))
            )
        return out

    def length(self, part):
        return max(map(self.length, part["parts"]), default=0) if part["kind"] == "gather" else part["n"] if part["kind"] != "hops" else 0

    def scenario(self, ctx):
        rng = ctx.rng
        durations = rng.choice([[1], [0, 1, 2], [1, 2, 3, 7], [0], [1, 20], list(range(10))])
        big = gen.big(ctx, 100, "gather", "queue", "waiters", "mains")
        count = lambda lo, hi, dim: rng.randint(30, 200) if big == dim else ctx.up(lo, hi)
        trees = [
            [(rng.randint(0, 2), self.rand_tree(rng, durations, 2, count(0, 8, "gather"))) for _ in range(rng.randint(1, 3))]
            for _ in range(rng.randint(0, 2))
        ]
        length = rng.choice([2, 5, 12, 30])
        at = lambda: (rng.randint(0, length), rng.choice([0, 0, 0, 1, 2, 5]))  # cycle, rounds in it
        queues = [
            dict(
                writers=[[(at(), rng.choice([0, 1, 1, 2, 5])) for _ in range(count(1, 6, "queue"))] for _ in range(rng.randint(1, 3))],
                readers=[[(rng.choice([0, 0, 0, 1, 3]), rng.choice([0, 0, 1, 2])) for _ in range(count(0, 12, "queue"))] for _ in range(rng.randint(1, 3))],
                own=rng.random() < 0.8,
            )
            for _ in range(rng.randint(0, 2))
        ]
        events = [
            dict(
                sets=sorted((at(), rng.choice(["set", "set", "clear", "pulse"])) for _ in range(ctx.up(1, 6))),
                waiters=[at() for _ in range(count(1, 10, "waiters"))],
                again=rng.random() < 0.5,
            )
            for _ in range(rng.randint(0, 2))
        ]
        parts = [rng.choice(["early", None, None, at()]) for _ in range(count(0, 4, "mains"))]
        lag = rng.choice([0, 0, 1, 5])  # between early components and the clock
        box, gathered, marks, log, mains, keep = {}, [], [], [], [], []
        uid = itertools.count()

        def now():
            return box["dut"].cycle if "dut" in box else 0

        def part_main(k):
            async def main():
                mains.append((k, now()))
                await ClockCycles(box["dut"], 1 + k % 3)
                mains.append((k, now()))

            return main

        def make_part(k):
            born = now()
            keep.append((Part if k % 2 else PartModel)(part_main(k)))
            marks.append((k, born))

        def make_early():
            for k, p in enumerate(parts):
                if p == "early":
                    make_part(k)

        def handle(early=True):
            if early:
                make_early()
            dut = box["dut"] = gen.build_dut(Rec())
            box["env"] = ExEnv(dut, [])
            for k, p in enumerate(parts):
                if p is None:
                    make_part(k)

        def coro(part, starts):
            u = next(uid)

            async def f():
                starts.append((u, now()))
                for _ in range(part["hops"]):
                    await sleep(0)
                for _ in range(part["n"] if part["kind"] != "hops" else 0):
                    await ClockCycles(box["dut"], 1)
                return part["value"]

            async def ex():
                starts.append((u, now()))
                async with Executor() as exe:
                    exe(f_inner(), sche_group="a")
                    exe(ClockCycles(box["dut"], part["n"]), sche_group="b")
                return exe.get_results()["a"]

            async def f_inner():
                return part["value"]

            ag = box["env"].ag
            if part["kind"] == "driver":
                return ag.plain(u, part["n"])
            if part["kind"] == "none":
                return ag.none(u, n=part["n"])
            if part["kind"] == "gather":
                return self.run(ctx, part["parts"], coro, now, gathered)
            return ex() if part["kind"] == "exec" else f()

        async def until(c, hops):
            if c > now():
                await ClockCycles(box["dut"], c - now())
            for _ in range(hops):
                await sleep(0)

        async def test(*_):
            dut = box["dut"]

            async def tree(plan):
                for wait, p in plan:
                    await ClockCycles(dut, wait)
                    await self.run(ctx, p, coro, now, gathered)

            async def writer(k, q, w, plan):
                for (c, hops), n in sorted(plan):
                    await until(c, hops)
                    for j in range(n):
                        item = (w, j, now()) if rng.random() < 0.7 else rng.choice(ITEMS)
                        log.append(("put", k, item))
                        await q.put(item)

            async def reader(k, q, r, plan):
                for c, hops in plan:
                    await until(now() + c, hops)
                    log.append(("ask", k, r, now()))
                    v = await q.get()
                    log.append(("got", k, r, now(), v))

            async def setter(k, e, plan):
                for (c, hops), op in plan:
                    await until(c, hops)
                    log.append((op, k))
                    if op != "clear":
                        e.set()
                    if op != "set":
                        e.clear()

            async def waiter(k, e, w, when, again):
                await until(*when)
                for _ in range(1 + again):
                    log.append(("wait", k, w, now()))
                    await e.wait()
                    log.append(("woke", k, w, now()))
                    await ClockCycles(dut, 1)

            async def maker(k, when):
                await until(*when)
                make_part(k)

            def edge(c):
                log.append(("edge",))

            dut.on_edge.append(edge)
            bg = []
            for k, q in enumerate(queues):
                qo = toffee.Queue()
                box["q", k] = qo
                bg += [writer(k, qo, w, p) for w, p in enumerate(q["writers"])] + [reader(k, qo, r, p) for r, p in enumerate(q["readers"])]
            for k, e in enumerate(events):
                eo = toffee.Event()
                box["e", k] = eo
                bg += [setter(k, eo, e["sets"])] + [waiter(k, eo, w, x, e["again"]) for w, x in enumerate(e["waiters"])]
            bg += [maker(k, p) for k, p in enumerate(parts) if p not in (None, "early")]
            rng.shuffle(bg)
            ts = [create_task(x) for x in bg]
            tt = [create_task(tree(p)) for p in trees]
            await ClockCycles(dut, length + 6)
            for t in tt:
                await t
            keep.append(ts)
            return "done"

        if rng.random() < 0.5:
            result = toffee.run(test, handle)
        else:

            async def whole():
                make_early()
                for _ in range(lag):
                    await sleep(0)
                handle(False)
                return await test()

            result = toffee.run(whole())
        ctx.equal(result, "done", "result of the run")
        for parts_, starts, t0, t1, res, d0 in gathered:
            ctx.saw("gathers")
            ctx.saw("gathered", len(parts_))
            ctx.equal(t1 - t0, max(map(self.length, parts_), default=0), f"cycles of a gather of {[self.length(p) for p in parts_]}")
            if any(c != t0 for _, c in starts):
                ctx.fail(f"gathered coroutines started in the cycles {[c for _, c in starts]}, the gather in {t0}")
            ctx.equal(list(range(len(res))), list(range(len(parts_))), "number of results of a gather")
            for k, (p, r) in enumerate(zip(parts_, res)):
                if p["kind"] == "gather":
                    ctx.saw("nested")
                    ctx.equal(len(r), len(p["parts"]), f"results of the nested gather {k}")
                elif p["kind"] == "driver":
                    ctx.equal(r[0], "r", f"result {k}")
                elif p["kind"] == "none":
                    ctx.equal(r, None, f"result {k}")
                elif r is not p["value"]:
                    ctx.fail(f"result {k} of a gather is {r!r}, the coroutine returned {p['value']!r}")
            calls = [r[1] for p, r in zip(parts_, res) if p["kind"] == "driver"]
            if calls != sorted(calls):
                ctx.fail(f"results of driver calls made in the order of their numbers: {calls}")
        self.queues(ctx, queues, log, box)
        self.events(ctx, events, log)
        for k, born in marks:
            ctx.saw("mains")
            have = [c for j, c in mains if j == k]
            last = length + 6
            want = [c for c in (born + 1, born + 2 + k % 3) if c <= last]
            if [c for c in have if c <= last] != want:
                ctx.fail(f"the main routine of a component made in cycle {born} started and ended in the cycles {have}, expected {want}")
        ctx.note((trees[:1], queues[:1], events[:1], parts))
        ctx.key(trees, queues, events, parts)

    async def run(self, ctx, parts, coro, now, gathered):
        starts = []
        cs = [coro(p, starts) for p in parts]
        t0 = now()
        res = await gather(*cs)
        gathered.append((parts, starts, t0, now(), res, len(gathered)))
        return res

    def queues(self, ctx, queues, log, box):
        for k, q in enumerate(queues):
            inside, waiting = [], set()
            for e in log:
                if e[0] == "put" and e[1] == k:
                    inside.append(e[2])
                elif e[0] == "ask" and e[1] == k:
                    waiting.add(e[2])
                    if not inside:
                        ctx.saw("readers that waited")
                elif e[0] == "got" and e[1] == k:
                    waiting.discard(e[2])
                    ctx.saw("items taken")
                    if not inside:
                        ctx.fail(f"a queue handed over {e[4]!r} although everything in it had been taken")
                    want = inside.pop(0)
                    if e[4] is not want:
                        ctx.fail(f"a queue handed over {e[4]!r}, the oldest item is {want!r}")
                elif e[0] == "edge" and inside and waiting:
                    ctx.fail(f"a clock edge came although {inside[:3]} are in a queue and {len(waiting)} readers wait for it")
            ctx.equal(box["q", k].qsize(), len(inside), "items left in a queue")
            ctx.equal(box["q", k].empty(), not inside, "whether a queue is empty")

    def events(self, ctx, events, log):
        for k, _ in enumerate(events):
            on, waiting, due = False, set(), {}
            for e in log:
                if e[0] in ("set", "pulse") and e[1] == k:
                    on = e[0] == "set"
                    due.update(dict.fromkeys(waiting))
                    waiting.clear()
                elif e[0] == "clear" and e[1] == k:
                    on = False
                elif e[0] == "wait" and e[1] == k:
                    if on:
                        due[e[2]] = None
                        ctx.saw("passed")
                    else:
                        waiting.add(e[2])
                elif e[0] == "woke" and e[1] == k:
                    if e[2] not in due:
                        ctx.fail(f"waiter {e[2]} of an event that was not set went on")
                    del due[e[2]]
                    ctx.saw("woken")
                elif e[0] == "edge" and due:
                    ctx.fail(f"a clock edge came although the event for the waiters {sorted(due)} had been set")
