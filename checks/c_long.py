"""Long runs."""

import gc
import logging
import sys
import weakref

import toffee
import toffee.funcov as fc
from toffee import *
from checks import Check
from vf import core
from vf import loop as vfloop
from vf.dut import DUT


class Nothing(list):
    """A log that keeps nothing."""

    def append(self, x):
        pass


class LSub(Bundle):
    x, y = Signals(2)


class LBundle(Bundle):
    a, b, valid = Signals(3)
    sub = LSub.from_prefix("s_")
    vec = BundleList(LSub, "v#_", 2)
    sl = SignalList("l#", 2)
    gone = LSub.from_prefix("nowhere_")


class LAgent(Agent):
    def __init__(self, bundle):
        super().__init__(bundle)
        self.due = []

    @driver_method()
    async def f(self, x, y=3):
        self.bundle.a.value = x & 255
        await self.bundle.step()
        return x

    @driver_method()
    async def g(self, x):
        return x

    @monitor_method()
    async def mon(self):
        if self.due:
            return self.due.pop(0)

    @monitor_method()
    async def watch(self):
        if self.bundle.a.value & 1:
            return self.bundle.as_dict()


class LEnv(Env):
    def __init__(self, bundle):
        super().__init__()
        self.ag = LAgent(bundle)


class LHooks(Model):
    def __init__(self):
        super().__init__()
        self.n = 0

    @driver_hook("ag.f", priority=3)
    def h(self, x, y=3):
        self.n += 1
        return x

    @agent_hook("ag", sche_order="dut_first")
    def all(self, path, item):
        self.n += 1
        return item["x"] if path.endswith(".f") or path.endswith(".g") else None

    @monitor_hook("ag.mon")
    def m(self, item):
        self.n += 1


class LPorts(Model):
    def __init__(self):
        super().__init__()
        self.f = DriverPort("ag.f")
        self.any = AgentPort("ag")
        self.mon = MonitorPort("ag.mon")

    async def main(self):
        while True:
            x = await self.f()
            await self.any()


class LPlainPorts(Model):
    def __init__(self):
        super().__init__()
        self.f = DriverPort("ag.f")
        self.mon = MonitorPort("ag.mon")


def drain(*ports):
    for p in ports:
        while not p.empty():
            p.get_nowait()


class LDeaf(Model):
    """Is told nothing: the ports have been closed by taking everything out."""

    @monitor_hook("ag.watch")
    def m(self, item):
        item.clear()


class R02(Check):
    PROP = "R02"
    quick, thorough = 90, 1500
    need = {"units": 13000, "cycles": 50000, "runs": 90, "objects watched": 600}
    rule = (
        "one run repeats a random unit of work (driver calls with hooks and ports, executors, tasks, events, queues, triggers, models that are "
        "attached and detached, bundles that are bound again, assigned and asked, coverage, messages) hundreds of times; after a warm-up, the number of objects and "
        "the memory must not grow with the units; when the run is over nothing of it is alive; distinct by plan"
    )

    warm = False
    LEFT = 0.8  # per repetition

    def scenario(self, ctx):
        rng = ctx.rng
        names = [k for k in dir(self) if k.startswith("act_")]
        plan = rng.sample(names, rng.randint(2, 4)) if ctx.i >= len(names) else [names[ctx.i]]
        # it takes a while until all tables have their final size, most of all in a fresh process
        if not R02.warm:
            R02.warm = True
            for n in names:
                R02().repeat(core.Ctx("R02", 0, 0, ctx.tier, 1), [n], [60])
                core.Guard.start()
        rounds = [30, 40, rng.choice([70, 70, 200])]
        self.repeat(ctx, plan, rounds)

    def repeat(self, ctx, plan, rounds):
        rng = ctx.rng
        ctx.note((plan, list(rounds)))
        ctx.key(plan, rounds)
        fill = rng.random() < 0.3
        pins = ["io_" + n for n in "a b valid s_x s_y v0_x v0_y v1_x v1_y l0 l1".split()]
        pins += [f"x{k}" for k in range(rng.choice([0, 0, 5, 30]))]
        sizes = []
        self.watched = []

        def size():
            gc.collect()
            gc.collect()
            return sys.getallocatedblocks(), len(gc.get_objects())

        def grown():
            out = []
            for j, what in enumerate(["blocks of memory", "objects"]):
                g = [(sizes[k + 1][j] - sizes[k][j]) / rounds[k + 1] for k in range(len(sizes) - 1)]
                if min(g) >= self.LEFT:
                    out.append(f"{min(g):.1f} {what}")
            return out

        async def main():
            dut = DUT(pins, max_steps=10**9)
            dut.step_args = Nothing()
            for x in dut.xdatas.values():
                x.writes = Nothing()
            dut.drivers.append(lambda c: dut.poke("io_b", c % 3))
            start_clock(dut)
            b = LBundle.from_prefix("io_").bind(dut)
            env = LEnv(b)
            if fill:
                env.attach(LHooks())
                self.watch(LDeaf()).attached = 1
                env.attach(LDeaf())
            for m in rng.sample(["mon", "watch"], rng.randint(0, 2)):
                env.ag.start_monitor(m, rng.choice([1, 4, 100]))
            self.watch(dut, b, b.sub, b.vec, env, env.ag)
            acts = [getattr(self, n)(ctx, dut, b, env) for n in plan]
            while True:
                n = rounds[len(sizes)]
                for k in range(n):
                    for a in acts:
                        await a()
                    if k % 4 == 0:
                        await drained(env.ag)
                    ctx.saw("units")
                await ClockCycles(dut, 3)
                await drained(env.ag)
                sizes.append(size())
                if len(sizes) == len(rounds):
                    # once more, longer: what grows has to go on growing
                    if len(rounds) == 1 or len(rounds) > 4 or not grown():
                        break
                    rounds.append(rounds[-1] * 2)
                    ctx.saw("runs made longer")
            ctx.saw("cycles", dut.cycle)

        toffee.run(main())
        ctx.saw("runs")
        for g in grown() if len(rounds) > 1 else ():
            ctx.bad(f"each repetition of {[n[4:] for n in plan]} leaves {g} behind (runs of {rounds} repetitions)")
        vfloop.Policy.last = None
        gc.collect()
        for name, r in self.watched:
            ctx.saw("objects watched")
            if r() is not None:
                ctx.bad(f"after the run, {name} is kept")
        self.watched = []

    def watch(self, *xs):
        for x in xs:
            if len(self.watched) < 30:
                self.watched.append((type(x).__name__, weakref.ref(x)))
        return xs[0]

    def act_calls(self, ctx, dut, b, env):
        env.attach(self.watch(LHooks()))

        async def act():
            await env.ag.f(3)
            await env.ag.g(x=5)

        return act

    def act_ports(self, ctx, dut, b, env):
        env.attach(m := self.watch(LPlainPorts()))

        async def act():
            await env.ag.f(3)
            env.ag.due.append([4])
            await b.step(2)
            drain(m.f, m.mon)

        return act

    def act_main(self, ctx, dut, b, env):
        env.attach(m := self.watch(LPorts()))

        async def act():
            await env.ag.f(3)
            env.ag.due.append(4)
            await b.step(2)
            drain(m.f, m.mon, m.any)

        return act

    def act_executor(self, ctx, dut, b, env):
        async def own(n):
            await ClockCycles(dut, n)
            return [1] * 10

        async def act():
            async with Executor(exit=ctx.rng.choice(["all", "any", "none"])) as exe:
                exe(env.ag.f(1), sche_group="one")
                exe(env.ag.g(1), sche_group="two", priority=4)
                exe(own(2), sche_group="one")
                exe(own(1))
            await exe.wait_all()
            exe.get_results()

        return act

    def act_nested(self, ctx, dut, b, env):
        """Executors and gathers inside of others."""

        async def inner(k):
            async with Executor(exit="any") as exe:
                exe(env.ag.g(k), sche_group="a")
                exe(env.ag.f(k), sche_group="b")
            await exe.wait_all()

        async def act():
            async with Executor() as exe:
                exe(inner(1))
                exe(gather(inner(2), env.ag.g(3)))

        return act

    def act_gather(self, ctx, dut, b, env):
        async def act():
            await gather(env.ag.f(1), env.ag.g(2), ClockCycles(dut, 2), sleep(0))

        return act

    def act_sync(self, ctx, dut, b, env):
        shared = Event(), Queue()

        async def act():
            ev, q = Event(), Queue()

            async def one():
                await ev.wait()
                await q.put([1])
                await shared[1].put((b, [1]))

            t = create_task(one())
            await ClockCycles(b, 1)
            ev.set()
            await q.get()
            await shared[1].get()
            await t
            t = create_task(shared[0].wait())
            await sleep(0.0)
            shared[0].set()
            await t
            shared[0].clear()

        return act

    def act_cancel(self, ctx, dut, b, env):
        """Tasks that are given up while they wait for something that goes on."""
        ev, q = Event(), Queue()

        async def act():
            waits = [ev.wait(), q.get(), ClockCycles(dut, 50), b.step(50), Value(dut.io_a, 1 << 20), sleep(1000), env.ag.f(1), gather(ev.wait(), ClockCycles(dut, 9))]
            tasks = [create_task(w) for w in waits]
            await ClockCycles(dut, 2)
            for t in tasks:
                t.cancel()
            await ClockCycles(dut, 1)

        return act

    def act_failures(self, ctx, dut, b, env):
        """Failures that are dealt with."""

        async def bad():
            await ClockCycles(dut, 1)
            raise ValueError("x")

        async def act():
            for t in [bad(), gather(bad(), ClockCycles(dut, 2))]:
                try:
                    await t
                except ValueError:
                    pass
            try:
                env.attach(LUnknown())
            except ValueError:
                pass
            try:
                b["nothing"].value = 1
            except Exception:
                pass
            await ClockCycles(dut, 2)

        return act

    def act_triggers(self, ctx, dut, b, env):
        async def act():
            await Value(dut.io_b, 1)
            await Change(dut.io_b)
            await RisingEdge(dut.io_b)
            await FallingEdge(dut.io_b)
            await Condition(b, lambda _: b.b.value == 1)
            b.valid.value = 1
            await AllValid(b.valid, dut.io_valid)

        return act

    def act_attach(self, ctx, dut, b, env):
        async def act():
            m, n = self.watch(LHooks()), LPlainPorts()
            env.attach(m)
            env.attach(n)
            await env.ag.f(1)
            env.ag.due.append(2)
            await b.step(2)
            env.unattach(m)
            env.unattach(n)

        return act

    def act_rebind(self, ctx, dut, b, env):
        async def act():
            b.bind(dut)
            Bundle.detect_unconnected_signals(dut)
            Bundle.detect_multiple_connections(dut)
            b.all_signals_rule()
            list(b.all_signals())
            b.detect_connectivity("io_a")
            b.detect_specific_connectivity("io_a", "a")
            await b.step()

        return act

    def act_bundle(self, ctx, dut, b, env):
        async def act():
            b.assign({"*": 1})
            b.assign({"a": 1, "sub": {"x": 2}, "vec": [{"x": 1}, {"y": 3}], "sl": [1, 2]})
            b.assign({"a": 3, "sub.y": 2}, False)
            b.as_dict()
            b.as_dict(False)
            b.randomize_all()
            b.set_all(2)
            str(b)
            b["a"].value = 3
            b.set_write_mode_as_rise()
            b.set_write_mode_as_imme()

        return act

    def act_requests(self, ctx, dut, b, env):
        dut2 = DUT(["io_a", "io_b"], max_steps=10**9)
        other = LBundle.from_prefix("io_").bind(dut2)
        other.a.xdata.writes = dut2.step_args = Nothing()

        async def act():
            seen = []
            other.process_requests([{"a": 1}, {"a": 2, "__funcs__": lambda c, x: seen.append(c), "__return_bundles__": other}, lambda c, x: {"a": 4}])
            other.process_requests({"a": 3, "__condition_func__": lambda c, x, args: c % args == 0, "__condition_args__": 3, "__return_bundles__": [other, other]})

        return act

    def act_coverage(self, ctx, dut, b, env):
        g = fc.CovGroup("g")
        g.add_watch_point(b, {"one": lambda x: x.a.value == 1, "two": [lambda x: x.b.value, lambda x: True], "never": lambda x: False}, name="p")
        g.add_watch_point(b.a, {"one": fc.CovEq(1), "two": fc.CovGe(1)}, name="q", once=True)

        async def act():
            b.a.value = ctx.rng.randint(0, 4)
            g.sample()
            g.mark_function("p", "some", bin_name="*")
            g.mark_function("q", act, bin_name="one")
            str(g)
            g.as_dict()
            g.is_all_covered()
            g.stop_sample()
            g.sample()
            g.resume_sample()
            g.reset_point("p")
            g.add_watch_point(b.b, {"x": fc.CovEq(9)}, name="r")
            g.del_point("r")

        return act

    def act_delay(self, ctx, dut, b, env):
        d = [Delayer(b.a, k) for k in (0, 1, 7)]

        async def act():
            b.a.value = 500 + ctx.rng.randint(0, 99)
            await ClockCycles(dut, 3)
            [x.value for x in d]

        return act

    def act_log(self, ctx, dut, b, env):
        toffee.setup_logging(log_level=ctx.rng.choice([0, logging.INFO]), console_display=False)

        async def act():
            toffee.debug("a")
            toffee.info("b")
            toffee.warning("c %s", 5)
            toffee.error("d")

        return act


class LUnknown(Model):
    @driver_hook("nobody.f")
    def h(self, x):
        pass


async def drained(agent):
    """Whatever the monitors have seen is taken."""
    for m in ("mon", "watch"):
        while agent.monitor_size(m):
            await getattr(agent, m)()
