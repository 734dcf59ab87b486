"""Runs testbenches and prints, one line each, everything that can be observed of them in the order it happened.

usage: repro.py SEED FIRST COUNT ORDER     (a helper of the check R01, which compares several such processes)"""

import json
import os
import random
import re
import signal
import sys
import tempfile
import warnings

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vf import core  # noqa: E402  (sets the path to toffee)
from vf import loop as vfloop  # noqa: E402

KINDS = ["env", "env", "executor", "bundle", "bundle", "coverage", "code", "code from tree", "events"]


def env(ctx, out):
    import itertools

    import toffee
    from checks import c_driver
    from vf import gen

    rng = ctx.rng
    spec, models = c_driver.rand_env(ctx, uid=True, kind=rng.choice(["hooks", "ports"]), nmodels=4)
    inst = c_driver.rand_inst(rng, models, 2)
    uid = itertools.count()
    tasks = c_driver.rand_tasks(ctx, spec, 2, uid, (1, 6), (1, 4))
    rec = gen.Rec()

    async def mon_body(agent, path):
        return ("mon", rec.dut.cycle) if (rec.dut.cycle + len(path)) % 3 == 0 else None

    rec.mon_body = mon_body
    if rng.random() < 0.3:  # some results differ
        rec.drv_ret = lambda path, args: args["uid"]
        rec.hook_ret = lambda model, it, path, args: args["uid"] + (args["uid"] + model) % 5 // 4
    box = {}

    def handle():
        dut, envs = gen.build(spec, rec, 2)
        box["models"] = c_driver.attach_all(rec, spec, models, inst, envs)
        for e in envs:
            out.append([(n, [m.__name__ for m in getattr(e, n).all_driver_method()]) for n in e.all_agent_names()])
        return dut, envs

    async def test(dut, envs):
        await gen.run_ops(rec, envs, dut, tasks)
        return [
            (k, a, [getattr(m, a).get_nowait() for _ in range(getattr(m, a).qsize())])
            for k, m in enumerate(box["models"])
            for a in sorted(vars(m))
            if isinstance(getattr(m, a), toffee.model.Port)
        ]

    try:
        out.append(toffee.run(test, handle))
    except Exception as e:
        out.append(("failed", repr(e)))
    out += rec.log


def executor(ctx, out):
    import toffee
    from toffee import ClockCycles, Executor, create_task, start_clock
    from vf.dut import DUT

    rng = ctx.rng

    async def main():
        dut = DUT(["a"])
        start_clock(dut)

        async def work(name, n, fails):
            out.append(("start", name, dut.cycle))
            if n:
                await ClockCycles(dut, n)
            out.append(("end", name, dut.cycle))
            if fails:
                raise ValueError(name)
            return name

        for r in range(rng.randint(1, 4)):
            exe = Executor(exit=rng.choice(["all", "any", "none"]))
            async with exe:
                for k in range(rng.randint(1, 14)):
                    g = rng.choice(["one", "two", "g", "zz", "a", f"own{k}", f"{rng.random()}"])
                    exe(work(f"{r}.{k}", rng.randint(0, 3), rng.random() < 0.02), sche_group=g)
            out.append(("exit", dut.cycle))
            await exe.wait_all()
            out.append(list(exe.get_results().items()))

    try:
        toffee.run(main())
    except Exception as e:
        out.append(("failed", repr(e)))


def bundle(ctx, out):
    from toffee import Bundle
    from vf import bgen
    from vf.dut import DUT

    rng = ctx.rng
    node = bgen.rand_tree(rng, 2, most=40)
    cls = bgen.bundle_class(node)
    b = bgen.make(cls, node["method"])
    for _ in range(rng.randint(1, 2)):
        names, used = bgen.fit(rng, node, rng.choice([1.0, 0.8, 0.4]), extra=4)
        dut = DUT({n: dict(width=rng.choice([1, 8, 40]), out=rng.random() < 0.3) for n in sorted(names)})
        b.bind(dut)
        out.append(b.as_dict())
        out.append(b.as_dict(False))
        out.append([n for n, _ in b.all_signals()])
        out.append(list(b.all_signals_rule().items()))
        out.append(Bundle.detect_unconnected_signals(dut))
        random.seed(ctx.i)
        b.randomize_all()
        out.append(b.as_dict())
        out.append([(n, x.writes) for n, x in dut.xdatas.items()])
        out.append(str(b))
        b.assign({"*": 1}, False)
        out.append([(n, x.writes) for n, x in dut.xdatas.items()])


def coverage(ctx, out):
    import toffee.funcov as fc
    from checks import c_cov

    rng = ctx.rng
    dom = c_cov.Domain(rng.choice([1, 3, 7]), "int")
    dut, targets, change = c_cov.targets_for(rng, dom)
    g = fc.CovGroup("g", rng.random() < 0.5)
    g.filename, g.lineno = "", 0
    funcs = [c_cov.plain_one, c_cov.plain_two, "some::name", "other::name", "x", "f.py::t"]
    for k in range(rng.randint(1, 6)):
        bins = {n: rng.choice([fc.CovEq, fc.CovGe, fc.CovNe])(dom.draw(rng)) for n in rng.sample(c_cov.BIN_NAMES, rng.randint(1, 8))}
        g.add_watch_point(rng.choice(list(targets.values()))[0], bins, name=f"p{k}")
        for _ in range(rng.randint(0, 3)):
            g.mark_function(f"p{k}", rng.sample(funcs, rng.randint(1, 5)), bin_name="*")
    for _ in range(rng.randint(0, 10)):
        change()
        g.sample()
    out.append(str(g))
    out.append([g.is_all_covered(), g.cover_points() and list(g.cover_points())])


def code(ctx, out):
    from checks import c_bundle
    from vf.dut import DUT

    rng = ctx.rng
    g = c_bundle.load_script("bundle_code_gen.py")
    names = ["_".join(rng.choice(["io", "valid", "bits", "ready", "data", "x9", "Q"]) for _ in range(rng.randint(1, 4))) for _ in range(rng.randint(1, 40))] + ["io_a"]
    dut = DUT(list(dict.fromkeys(n for n in names if not hasattr(DUT([]), n))))
    out.append(g.gen_bundle_code_from_prefix("B", dut, "io_"))
    out.append(g.gen_bundle_code_from_regex("B", dut, r"^io_(.*)$"))
    out.append(g.gen_bundle_code_from_dict("B", dut, {f"s{k}": n for k, n in enumerate(dut.xdatas)}))


def code_from_tree(ctx, out):
    from checks import c_bundle

    rng = ctx.rng
    words = ["valid", "bits", "ready", "data", "addr", "req", "resp", "a", "b", "c"]

    def tree(depth):
        d = {}
        for w in rng.sample(words, rng.randint(1, 6)):
            d[w] = tree(depth - 1) if depth and rng.random() < 0.6 else 1
        return d

    g = c_bundle.load_script("bundle_code_intel_gen.py")
    with tempfile.TemporaryDirectory() as tmp:
        src, dst = os.path.join(tmp, "in.json"), os.path.join(tmp, "out.py")
        with open(src, "w") as f:
            json.dump(tree(rng.randint(1, 3)), f)
        g.main(src, dst)
        out.append(open(dst).read())


def events(ctx, out):
    import toffee
    from toffee import ClockCycles, Event, Queue, create_task, gather, start_clock
    from vf.dut import DUT

    rng = ctx.rng

    async def main():
        dut = DUT(["a"])
        start_clock(dut)
        ev, q = [Event() for _ in range(3)], [Queue() for _ in range(3)]
        # as much is put as is taken, and all events are set in the end
        plans = [[(rng.choice(["clk", "set", "put", "clk", "wait", "get"]), rng.randrange(3)) for _ in range(rng.randint(1, 8))] for _ in range(rng.randint(2, 12))]

        async def task(k, plan):
            for op, x in plan:
                if op == "clk":
                    await ClockCycles(dut, x + 1)
                elif op == "set":
                    ev[x].set()
                elif op == "wait":
                    await ev[x].wait()
                elif op == "put":
                    await q[x].put((k, op))
                else:
                    out.append(await q[x].get())
                out.append((k, op, x, dut.cycle))

        async def rest():
            await ClockCycles(dut, 40)
            for e in ev:
                e.set()
            for x in q:
                for k in range(200):
                    await x.put(("rest", k))

        await gather(rest(), *[task(k, p) for k, p in enumerate(plans)])

    toffee.run(main())


def clean(x):
    return re.sub(r"0x[0-9a-f]{6,}", "0x", repr(x))


def one(seed, k):
    kind = KINDS[k % len(KINDS)]
    fn = globals()[kind.replace(" ", "_")]
    ctx = core.Ctx("R01", seed, k, "quick", 1)
    out = []

    def scenario(ctx):
        with core.capture_logs() as logs:
            try:
                fn(ctx, out)
            finally:
                # (the summary counts over all the runs of a process)
                out.append([r for r in logs.records if not r[1].startswith("Log Summary")])

    random.seed(k)
    core.run_scenario(scenario, ctx)
    return dict(k=k, kind=kind, what=[clean(x) for x in out], bad=[clean(x) for x in ctx.failures])


def main(seed, first, count, order):
    vfloop.install()
    warnings.filterwarnings("ignore", category=RuntimeWarning)
    sys.unraisablehook = lambda u: None
    signal.signal(signal.SIGVTALRM, core.Guard.tick)
    signal.signal(signal.SIGALRM, core.Guard.alarm)
    ks = list(range(int(first), int(first) + int(count)))
    random.Random(order).shuffle(ks)
    for k in ks:
        print(json.dumps(one(int(seed), k)), flush=True)


if __name__ == "__main__":
    main(*sys.argv[1:])
