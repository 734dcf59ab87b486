"""Driver calls: fan-out to models, order, priorities, comparison, ports."""

import itertools
from collections import Counter

import toffee
from toffee import *
from checks import Check
from vf import gen
from vf.core import capture_logs
from vf.gen import Rec, freeze


def rand_env(ctx, nmodels=3, uid=False, clocks=(0, 1, 1, 2), monitors=True, big=None, kind="hooks", mix=True, **kw):
    rng = ctx.rng
    classes = gen.rand_classes(rng, monitors=monitors, clocks=clocks)
    if big == "calls":
        classes = classes[:1]
        del classes[0]["drivers"][1:]
    if uid:
        gen.add_uid(classes)
    spec = dict(classes=classes)
    spec["agents"] = gen.rand_agents(rng, classes, 1 if big in ("calls", "models", "hooks") else 3, rng.randint(8, 24) if big == "agents" else 0)
    n = rng.randint(8, 40) if big == "models" else rng.randint(1, nmodels)
    # some models have hooks and ports, also for the same driver
    other = "mixed" if mix else kind
    models = [
        gen.rand_model(
            rng, spec, density=rng.choice([0.4, 0.8, 1.0]), many=rng.randint(10, 40) if big == "hooks" else 0, kind=rng.choice([kind, kind, kind, other]), **kw
        )
        for _ in range(n)
    ]
    return spec, models


def rand_tasks(ctx, spec, nenvs, uid, ops, tasks, big=None, **kw):
    rng = ctx.rng
    if big == "calls":
        return [gen.rand_ops(rng, spec, nenvs, uid, rng.randint(50, 350), **kw) for _ in range(rng.randint(1, 2))]
    return [gen.rand_ops(rng, spec, nenvs, uid, ctx.up(*ops), **kw) for _ in range(ctx.up(*tasks))]


def attach_all(rec, spec, models, inst, envs):
    """inst: [(model index, env index)] -> model objects; instances of one class share the class."""
    classes = [gen.instantiate(rec, m, spec) for m in models]
    out = []
    for k, (mi, ei) in enumerate(inst):
        m = classes[mi]()
        m.vf_id = k
        envs[ei].attach(m)
        out.append(m)
    rec.models = out
    return out


def execute(rec, spec, models, inst, nenvs, tasks, early=None):
    box = {}

    def handle():
        dut, envs = gen.build(spec, rec, nenvs)
        if not early:
            attach_all(rec, spec, models, inst, envs)
        box["envs"] = envs
        return dut, envs

    async def test(dut, envs):
        if early:
            await gen.run_ops(rec, envs, dut, early)
            await ClockCycles(dut, 3)
            rec.log.clear()
            attach_all(rec, spec, models, inst, envs)
        await gen.run_ops(rec, envs, dut, tasks)
        return "done"

    r = toffee.run(test, handle)
    return r, box


def rand_inst(rng, models, nenvs):
    inst = [(k, rng.randrange(nenvs)) for k in range(len(models))]
    for k in range(len(models)):
        if rng.random() < 0.3:
            inst.append((k, rng.randrange(nenvs)))
    rng.shuffle(inst)
    return inst


class D01(Check):
    PROP = "D01"
    quick, thorough = 1600, 32000
    need = {"calls": 1500, "hook calls": 800, "agent hook calls": 800, "calls with defaults": 300, "calls by drivers": 300}
    rule = (
        "random agents (shared classes, look-alike names), driver signatures (positional, keyword-only, defaults), models with "
        "driver hooks and agent hooks of all forms, several instances and envs, calls by await, task, gather, Executor and other drivers; "
        "non-trivial if at least one hook had to be called; distinct by the plan"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        big = gen.big(ctx, 50, "models", "calls", "hooks", "agents")
        spec, models = rand_env(ctx, kind="hooks", big=big)
        nenvs = rng.choice([1, 1, 2])
        inst = rand_inst(rng, models, nenvs)
        uid = itertools.count()
        tasks = rand_tasks(ctx, spec, nenvs, uid, (1, 8), (1, 4), big)
        rec = Rec()
        if rng.random() < 0.3:
            gen.add_inner(rng, rec, spec)
        mutate = rng.random() < 0.3
        mut_model = rng.randrange(len(inst))

        got_args = []

        def hook_ret(model, it, path, args):
            got_args.append((model, it["attr"], it["type"], path, freeze(dict(args)), type(args)))
            if mutate and it["type"] == "agent_hook" and model == mut_model:
                args.clear()
                args["uid"] = "overwritten"

        rec.hook_ret = hook_ret
        execute(rec, spec, models, inst, nenvs, tasks)

        want_body, want_hook = Counter(), Counter()
        ctx.saw("calls by drivers", len(rec.inner_calls))
        for c in [*gen.all_calls(tasks), *rec.inner_calls]:
            path = ".".join(c["path"])
            want_body[(path, freeze(c["bound"]))] += 1
            ctx.saw("calls")
            if len(c["args"]) + len(c["kwargs"]) < len(c["bound"]):
                ctx.saw("calls with defaults")
            for k, (mi, ei) in enumerate(inst):
                if ei != c["env"]:
                    continue
                for it in models[mi]["items"]:
                    if it["type"] in ("driver_hook", "agent_hook") and c["path"] in it["cover"]:
                        want_hook[(k, it["attr"], path, freeze(c["bound"]))] += 1
                        ctx.saw("hook calls" if it["type"] == "driver_hook" else "agent hook calls")
        got_body = Counter((e[1], freeze(e[2])) for e in rec.of("body"))
        got_hook = Counter((m, a, p, f) for m, a, t, p, f, ty in got_args)
        for m, a, t, p, f, ty in got_args:
            if t == "agent_hook" and not issubclass(ty, dict):
                ctx.fail(f"agent hook {a} got its arguments as {ty}")
        diff(ctx, "executions of the driver function", want_body, got_body)
        diff(ctx, "hook calls", want_hook, got_hook)
        nret = Counter(e[1] for e in rec.of("return"))
        for ops in tasks:
            for op in ops:
                for c in [op[1]] if op[0] in ("await", "bg") else op[1] if op[0] == "gather" else []:
                    if nret[c["uid"]] != 1:
                        ctx.fail(f"call {c['uid']} returned {nret[c['uid']]} times")
        ctx.note((spec, [[(i['type'], i['form'], i['kw'], i['attr']) for i in m["items"]] for m in models], inst))
        if want_hook:
            ctx.key(spec, models, tasks, inst)


def diff(ctx, what, want, got):
    for k in want.keys() | got.keys():
        if want[k] != got[k]:
            ctx.fail(f"{what}: {k} expected {want[k]} times, observed {got[k]} times")


class D02(Check):
    PROP = "D02"
    quick, thorough = 2500, 50000
    need = {"model_first": 600, "dut_first": 600, "overridden": 300, "calls by drivers": 300}
    rule = (
        "as D01 with overlapping calls of the same drivers and per-call sche_order/priority given to Executors; every "
        "(call, hook) pair is checked; non-trivial if at least one call was overridden; distinct by the plan"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        big = gen.big(ctx, 80, "models", "calls", "hooks", "agents")
        spec, models = rand_env(ctx, uid=True, kind="hooks", monitors=False, big=big)
        inst = rand_inst(rng, models, 1)
        uid = itertools.count()
        tasks = rand_tasks(ctx, spec, 1, uid, (1, 8), (1, 4), big)
        rec = Rec()
        if rng.random() < 0.3:
            gen.add_inner(rng, rec, spec)
        execute(rec, spec, models, inst, 1, tasks)
        ctx.saw("calls by drivers", len(rec.inner_calls))
        body, end, hooks = {}, {}, {}
        for k, e in enumerate(rec.log):
            if e[0] == "body":
                body[e[2]["uid"]] = (k, e[3])
            elif e[0] == "bodyend":
                end[e[2]["uid"]] = (k, e[3])
            elif e[0] in ("hook", "ahook"):
                hooks[(e[1], e[2], e[4]["uid"])] = (k, e[5])
        any_over = False
        for c in [*gen.all_calls(tasks), *rec.inner_calls]:
            u = c["uid"]
            if u not in body or u not in end:
                ctx.fail(f"call {c} never ran to its end")
            for k, (mi, _) in enumerate(inst):
                for it in models[mi]["items"]:
                    if c["path"] not in it["cover"] or it["type"].endswith("_port"):
                        continue
                    h = hooks.get((k, it["attr"], u))
                    if h is None:
                        ctx.fail(f"hook {it['attr']} of model {k} not called for {c}")
                    order = it["order"] or "model_first"
                    if c["order"]:
                        order = "model_first" if c["order"] == "parallel" else c["order"]
                        if order != (it["order"] or "model_first"):
                            ctx.saw("overridden")
                            any_over = True
                    ctx.saw(order)
                    if order == "model_first":
                        ok = h[0] < body[u][0] and h[1] == body[u][1]
                    else:
                        ok = h[0] > end[u][0] and h[1] == end[u][1]
                    if not ok:
                        ctx.fail(
                            f"{order} {it['type']} {it['attr']} of model {k} for call {u} of {c['path']} (override {c['order']}) ran at event "
                            f"{h[0]} in cycle {h[1]}; the driver ran from event/cycle {body[u]} to {end[u]}"
                        )
        ctx.note((len(tasks), [(c["path"], c["order"]) for c in gen.all_calls(tasks)][:8]))
        if any_over:
            ctx.key(spec, models, tasks)


class D03(Check):
    PROP = "D03"
    quick, thorough = 2000, 40000
    need = {"ordered pairs": 1500, "cycles with several priorities": 300, "executor priorities": 150}
    rule = (
        "many calls and monitors that become due in the same cycles, hooks with random priorities (ties included), several "
        "models, per-call priorities from Executors; non-trivial if a cycle had hooks of at least two priorities; distinct by plan"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        # drivers take at least one cycle: no hook can then depend on another hook of the same cycle
        big = gen.big(ctx, 80, "models", "calls", "hooks", "agents")
        spec, models = rand_env(ctx, uid=True, kind="hooks", clocks=(1, 1, 2, 3), nmodels=4, big=big)
        inst = rand_inst(rng, models, 1)
        uid = itertools.count()
        tasks = rand_tasks(ctx, spec, 1, uid, (1, 8), (1, 5), big, weights=["await", "exec", "exec", "gather", "clk", "bg"])
        rec = Rec()
        calls = {c["uid"]: c for c in gen.all_calls(tasks)}

        async def mon_body(agent, path):
            return ("mon", rec.dut.cycle) if (rec.dut.cycle + len(path)) % 2 else None

        rec.mon_body = mon_body
        # calls made before the models are there, with priorities and orders of their own, leave nothing behind
        early = rand_tasks(ctx, spec, 1, uid, (1, 3), (1, 3), big, weights=["exec", "exec", "await", "bg"]) if rng.random() < 0.3 else None
        execute(rec, spec, models, inst, 1, tasks, early)
        if early:
            ctx.saw("early calls")
        prio = {}
        for k, (mi, _) in enumerate(inst):
            for it in models[mi]["items"]:
                prio[(k, it["attr"])] = it["priority"]
        cycles = {}
        for e in rec.log:
            if e[0] in ("hook", "ahook", "mhook"):
                p = prio[(e[1], e[2])]
                item = e[4]
                if e[0] != "mhook" and isinstance(item, dict):
                    c = calls[item["uid"]]
                    if c["prio"] is not None:
                        p = c["prio"]
                        ctx.saw("executor priorities")
                cycles.setdefault(e[5], []).append((p, e))
        nontriv = False
        for c, evs in sorted(cycles.items()):
            for (p1, e1), (p2, e2) in zip(evs, evs[1:]):
                ctx.saw("ordered pairs")
                if p1 > p2:
                    ctx.fail(f"cycle {c}: hook call {e1} with priority {p1} ran before {e2} with priority {p2}")
            if len({p for p, _ in evs}) > 1:
                ctx.saw("cycles with several priorities")
                nontriv = True
        ctx.note([(c, [p for p, _ in evs]) for c, evs in sorted(cycles.items())][:6])
        if nontriv:
            ctx.key(spec, models, tasks)


class Seen:
    """A driver result that records what it is compared with."""

    def __init__(self, uid, log):
        self.uid, self.log = uid, log

    def __eq__(self, other):
        self.log.append((self.uid, getattr(other, "tag", other)))
        return True

    __hash__ = None

    def __repr__(self):
        return f"Seen({self.uid})"


class Ref:
    def __init__(self, uid, tag, log):
        self.uid, self.tag, self.log = uid, tag, log

    def __eq__(self, other):
        # the design's result is the first operand, so that its __eq__ is asked
        self.log.append(("wrong order", getattr(other, "uid", other), self.tag))
        return True

    __hash__ = None


class Alike:
    """Values that differ but look the same."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return isinstance(other, Alike) and self.v == other.v

    def __hash__(self):
        return 1

    def __repr__(self):
        return "Alike()"


class Odd:
    """A result whose comparison does not answer with a boolean."""

    def __init__(self, answer):
        self.answer = answer

    def __eq__(self, other):
        return self.answer

    def __repr__(self):
        return f"Odd({self.answer!r})"


MATCH = [(Odd(1), 5), (Odd("yes"), "no"), (Odd([0]), Odd(0)), (Alike(1), Alike(1)), (0, 0), (False, False), ("", ""), ([], []), ({}, {}), (5, 5), ((1, 2), (1, 2)), (0, 0.0), ({"a": [1]}, {"a": [1]}),
         (1, True), (b"", b""), ({1, 2}, {2, 1}), (1, 1.0), ({"a": 1, "b": 2}, {"b": 2, "a": 1}), (2**70, 2**70)]
MISMATCH = [(Odd(0), 5), (Odd(""), ""), (Odd(None), Odd(True)), (Odd([]), []), (Alike(1), Alike(2)), (Alike(1), Alike(2)), ([Alike(1)], [Alike(2)]), (Alike(0), 0), (0, Alike(0)), (0, 1), (1, 0), (None, 0), (None, False), (None, ""), (None, []), ("", "x"), (0, ""), ([1], [1, 2]), (5, -5),
            (0, "0"), ("0", 0), ("1", 1), (1, "1"), ("[1]", [1]), ([1], "[1]"), ("False", False), (1, 1.5), (0, 1e-300), (-1, 2**64 - 1),
            ((1, 2), [1, 2]), ({"a": 1}, {"a": 2}), ({"a": 1}, {"a": 1, "b": 2}), ([1, 2], [2, 1]), (float("nan"), 0.0), (b"a", "a"),
            (True, False), ({"a": 1}, {}), ((1,), [1]), (None, 5), ("a", "A"), (2**70, 2**70 + 1)]


class D04(Check):
    PROP = "D04"
    quick, thorough = 2500, 50000
    need = {"compared pairs": 500, "mismatch planted": 150, "clean": 150, "no result": 300, "calls by drivers": 300}
    rule = (
        "hooks that return nothing, an equal result (falsy values included), or in one planted place a different one; results "
        "that record their comparisons; non-trivial if a comparison was due; distinct by plan"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        big = gen.big(ctx, 80, "models", "calls", "hooks", "agents")
        spec, models = rand_env(ctx, uid=True, kind="hooks", monitors=False, big=big)
        inst = rand_inst(rng, models, 1)
        uid = itertools.count()
        tasks = rand_tasks(ctx, spec, 1, uid, (1, 6), (1, 3), big)
        due = []

        def hooks_of(c):
            for k, (mi, _) in enumerate(inst):
                for it in models[mi]["items"]:
                    if c["path"] in it["cover"] and it["type"].endswith("_hook"):
                        yield (c["uid"], k, it["attr"])

        for c in gen.all_calls(tasks):
            due += hooks_of(c)
        mode = rng.choice(["record", "clean", "mismatch", "mismatch"])
        plan, result, log = {}, {}, []
        bad = rng.choice(due) if mode == "mismatch" and due else None

        def answers(c):
            u = c["uid"]
            dv, mv = rng.choice(MATCH)
            if bad and bad[0] == u:
                dv, badv = rng.choice(MISMATCH)
                mv = dv
            if mode == "record":
                dv = Seen(u, log)
            result[u] = dv
            for d in hooks_of(c):
                if mode == "record":
                    plan[d] = rng.choice([None, Ref(u, d, log), Ref(u, d, log)])
                else:
                    plan[d] = rng.choice([None, mv, mv])
                if d == bad:
                    plan[d] = badv
                ctx.saw("compared pairs" if plan[d] is not None else "no result")

        for c in gen.all_calls(tasks):
            answers(c)
        rec = Rec()
        if rng.random() < 0.3:
            gen.add_inner(rng, rec, spec)

            def on_inner(c):
                due.extend(hooks_of(c))
                answers(c)

            rec.on_inner = on_inner
        rec.drv_ret = lambda path, args: result[args["uid"]]
        rec.hook_ret = lambda model, it, path, args: plan[(args["uid"], model, it["attr"])]
        err = None
        with capture_logs() as cap:
            try:
                execute(rec, spec, models, inst, 1, tasks)
            except (AssertionError, RuntimeError) as e:
                err = e
        ctx.note((mode, bad, len(due)))
        ctx.saw("calls by drivers", len(rec.inner_calls))
        if bad:
            if err is None:
                ctx.fail(f"the result {plan[bad]!r} of hook {bad} differs from the driver's {result[bad[0]]!r}, the run passed")
            if not cap.at("ERROR"):
                ctx.fail("a mismatch was not logged as an error")
            ctx.saw("mismatch planted")
        else:
            if err is not None:
                ctx.fail(f"all results agree ({[(result[d[0]], plan[d]) for d in due][:8]}), the run failed: {err!r} {cap.at('ERROR')[:2]}")
            for c in [op[1] for ops in tasks for op in ops if op[0] in ("await", "bg")]:
                r = [e for e in rec.of("return") if e[1] == c["uid"]]
                if len(r) != 1 or r[0][2] is not result[c["uid"]]:
                    ctx.fail(f"call {c['uid']} returned {r}, the driver function returned {result[c['uid']]!r}")
            ctx.saw("clean")
        if mode == "record":
            want = {(d[0], d) for d in due if plan[d] is not None}
            got = set(log)
            if want != got:
                ctx.fail(f"comparisons not done: {sorted(want - got)[:4]}, done but not due: {sorted(got - want, key=repr)[:4]}")
        if any(v is not None for v in plan.values()):
            ctx.key(spec, models, tasks, mode, bad)


class D05(Check):
    PROP = "D05"
    quick, thorough = 700, 14000
    need = {"delivered": 1500, "dropped": 150, "ports": 800}
    rule = (
        "models with driver, monitor and agent ports of all forms and sizes, drained never, now and then, by main() or at the "
        "end; the content is predicted by a bounded FIFO model; non-trivial if something was delivered; distinct by plan"
    )

    def many(self, ctx):
        """Ports that are not read for a long time."""
        rng = ctx.rng
        n = rng.choice([257, 300, 600, 1100, 2500, 4500])
        size = rng.choice([-1, -1, 64, 200, 256, n - 1, n, 1000])
        if ctx.i % 400 == 39:
            n, size = 4500, -1
        per = rng.randint(5, 60)

        class Many(Agent):
            @driver_method()
            async def d(self, x):
                return None

            @monitor_method()
            async def m(self):
                return dut_box[0].cycle

        class ManyModel(Model):
            def __init__(self):
                super().__init__()
                self.drv = DriverPort("ag.d", maxsize=size)
                self.ag = AgentPort(methods=["ag.d"], maxsize=size)
                self.mon = MonitorPort("ag.m", maxsize=size)

        class ManyEnv(Env):
            def __init__(self, dut):
                super().__init__()
                self.ag = Many(gen.MonBundle.from_prefix("io_").bind(dut))

        dut_box, out = [], {}

        async def test():
            rec = Rec()
            dut = gen.build_dut(rec)
            dut_box.append(dut)
            env, model = ManyEnv(dut), ManyModel()
            env.attach(model)
            k = 0
            while k < n:
                await gather(*[env.ag.d(i) for i in range(k, min(n, k + per))])
                k = min(n, k + per)
                if rng.random() < 0.5:
                    await ClockCycles(dut, 1)
            await ClockCycles(dut, 1)
            for _ in range(5):
                await toffee.asynchronous.sleep(0)
            for name in ("drv", "ag", "mon"):
                out[name] = [await getattr(model, name)() for _ in range(getattr(model, name).qsize())]
            return dut.cycle

        with capture_logs() as cap:
            end = toffee.run(test)
        keep = n if size == -1 else min(n, size)
        ctx.note(("many", n, size, per, end))
        ctx.equal(out["drv"], list(range(keep)), f"driver port of size {size} after {n} calls")
        ctx.equal([(p, dict(a)) for p, a in out["ag"]], [("ag.d", {"x": i}) for i in range(keep)], f"agent port of size {size} after {n} calls")
        ctx.equal(out["mon"], list(range(1, end + 1))[: None if size == -1 else size], "monitor port")
        lost = 2 * (n - keep) + end - len(out["mon"])
        if (lost > 0) != (len(cap.at("ERROR")) > 0):
            ctx.fail(f"{lost} values were dropped, {len(cap.at('ERROR'))} errors logged")
        ctx.saw("long queues")
        ctx.saw("delivered", sum(map(len, out.values())))
        ctx.key("many", n, size, per, end)

    def scenario(self, ctx):
        rng = ctx.rng
        if ctx.i % 40 == 39:
            return self.many(ctx)
        big = gen.big(ctx, 35, "models", "hooks", "agents")
        # hooks that run after the driver do not delay its call
        mix = rng.random() < 0.3
        spec, models = rand_env(ctx, kind="ports", mix=mix, order=lambda: "dut_first" if mix else None, uid=rng.random() < 0.5, big=big)
        for m in models:
            for it in m["items"]:
                it["maxsize"] = rng.choice([-1, 1, 2, "default", 4, 7, -1])
        models = [m for m in models]
        inst = rand_inst(rng, models, 1)
        uid = itertools.count()
        tasks = [gen.rand_ops(rng, spec, 1, uid, ctx.up(2, 14), exec_kw=not mix) for _ in range(ctx.up(1, 3))]
        mode = rng.choice(["end", "some", "main", "end", "some"])
        rec = Rec()
        fifo, got, drops = {}, {}, []

        def covering(path):
            for k, (mi, _) in enumerate(inst):
                for it in models[mi]["items"]:
                    if path in it["cover"] and it["type"].endswith("_port"):
                        yield k, it

        # prediction, driven by the driver bodies and monitor deliveries seen at the boundary
        import itertools as itt

        produced = {}

        def produce(path, as_driver, value):
            for k, it in covering(path):
                if it["type"] == "agent_port":
                    v = (".".join(path), value)
                elif as_driver:
                    v = next(iter(value.values())) if len(value) == 1 else value
                else:
                    v = value
                produced.setdefault((k, it["attr"]), []).append((freeze(v), rec.dut.cycle))

        nmon = itt.count()

        async def mon_body(agent, path):
            if (rec.dut.cycle + len(path)) % 3 == 0:
                v = rng_mon[(rec.dut.cycle * 7 + len(path)) % 3](next(nmon))
                produce(tuple(path.split(".")), False, v)
                return v

        rng_mon = [lambda n: n, lambda n: [n], lambda n: {"v": n}]
        rec.mon_body = mon_body

        async def drv_body(agent, d, path, args):
            # the calls of this driver reach the ports before its function starts
            for _ in range(d["clocks"]):
                await agent.bundle.step()

        rec.drv_body = drv_body
        orig_ev = rec.ev

        def ev(*e):
            orig_ev(*e)
            if e[0] == "body":
                produce(tuple(e[1].split(".")), True, e[2])

        rec.ev = ev
        spoil = rng.random() < 0.4

        def consume(v):
            """What is received belongs to the receiver: changing it must not be visible to others."""
            f = freeze(v)
            if spoil and isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and v[0] in drivers and isinstance(v[1], dict):
                v[1].clear()
                v[1]["overwritten"] = True
            return f

        drivers = {".".join(p) for p in gen.paths(spec)[0]}

        async def main(self):
            if mode != "main":
                return

            async def drain(attr, port):
                while True:
                    got.setdefault((self.vf_id, attr), []).append(consume(await port()))

            self.vf_tasks = [
                create_task(drain(a, p)) for a, p in list(vars(self).items()) if isinstance(p, (DriverPort, MonitorPort, AgentPort))
            ]

        for m in models:
            m["main"] = main

        def handle():
            dut, envs = gen.build(spec, rec, 1)
            attach_all(rec, spec, models, inst, envs)
            return dut, envs

        sizes = {}
        at = set(rng.sample(range(1, 40), 6))

        async def drainer(dut, final=False):
            for k, m in enumerate(rec.models):
                for it in models[inst[k][0]]["items"]:
                    if not it["type"].endswith("_port"):
                        continue
                    p = getattr(m, it["attr"])
                    n = p.qsize() if final else rng.randint(0, p.qsize())
                    for _ in range(n):
                        v = consume(await p())
                        got.setdefault((k, it["attr"]), []).append(v)
                        taken.append((k, it["attr"], dut.cycle))

        taken = []

        async def test(dut, envs):
            async def background():
                while True:
                    await ClockCycles(dut, 1)
                    if mode == "some" and dut.cycle in at:
                        # let everything of this cycle arrive first
                        for _ in range(300):
                            await toffee.asynchronous.sleep(0)
                        await drainer(dut)

            keep = create_task(background())
            await gen.run_ops(rec, envs, dut, tasks)
            keep.cancel()
            for _ in range(300):
                await toffee.asynchronous.sleep(0)
            if mode != "main":
                # what has arrived stays there when the model is no longer attached
                for m in rec.models:
                    how = rng.choice([0, 0, 1, 2])
                    if how:
                        envs[0].unattach(m)
                        ctx.saw("detached with values")
                    if how == 2:
                        envs[0].attach(m)
                await drainer(dut, True)
            return dut.cycle

        with capture_logs() as cap:
            end = toffee.run(test, handle)

        ndrop = 0
        for k, (mi, _) in enumerate(inst):
            for it in models[mi]["items"]:
                if not it["type"].endswith("_port"):
                    continue
                ctx.saw("ports")
                size = {"default": 4, -1: 10**9}.get(it["maxsize"], it["maxsize"])
                key = (k, it["attr"])
                arr = [x for x in produced.get(key, [])]
                g = got.get(key, [])
                tk = [c for kk, a, c in taken if (kk, a) == key]
                if mode == "main":
                    # main() starts reading in cycle 1 and drains whatever arrives; only unbounded ports are predictable
                    if size < 10**9:
                        if not subsequence(g, [v for v, _ in arr]):
                            ctx.fail(f"port {key} delivered {g}, produced {arr}")
                        if len(g) < min(size, len([c for v, c in arr if c <= end])):
                            ctx.fail(f"port {key} (size {size}) delivered only {g} of {arr}")
                        continue
                    want = [v for v, c in arr if c <= end]
                    check_order(ctx, key, it, g, want, [x for x in arr if x[1] <= end])
                else:
                    # bounded FIFO: arrivals of a cycle come before the drain at the end of that cycle
                    q, want, nt, d = 0, [], 0, 0
                    acc = []
                    ti = 0
                    arr2 = [x for x in arr if x[1] <= end]
                    for v, c in arr2:
                        while ti < len(tk) and tk[ti] < c:
                            q -= 1
                            ti += 1
                        if q < size:
                            q += 1
                            acc.append((v, c))
                        else:
                            d += 1
                    ndrop += d
                    want = [v for v, _ in acc]
                    check_order(ctx, key, it, g, want, acc)
                    ctx.saw("dropped", d)
                ctx.saw("delivered", len(g))
        full = [m for m in cap.at("ERROR")]
        if mode != "main":
            if ndrop and len(full) < ndrop:
                ctx.fail(f"{ndrop} values were dropped by full ports, only {len(full)} errors logged")
            if not ndrop and full:
                ctx.fail(f"no port was full, logged {full[:3]}")
        ctx.note((mode, inst, [[(i["type"], i["form"], i["kw"], i["maxsize"]) for i in m["items"]] for m in models]))
        if any(got.values()):
            ctx.key(spec, [m["items"] for m in models], tasks, mode)


def subsequence(a, b):
    it = iter(b)
    return all(any(x == y for y in it) for x in a)


def check_order(ctx, key, it, g, want, arr):
    if sorted(g, key=repr) != sorted(want, key=repr):
        ctx.fail(f"port {key} ({it['type']}, size {it['maxsize']}) delivered {g}, expected {want}")
    if g == want:
        return
    # the order of different methods within one cycle is open, everything else is not
    ok = it["type"] == "agent_port"
    k = 0
    for _, grp in itertools.groupby(arr, key=lambda x: x[1]):
        w = [v for v, _ in grp]
        part = g[k : k + len(w)]
        k += len(w)
        for path in {v[1] for v in w if len(v) == 3} | {v[1] for v in part if len(v) == 3}:
            ok = ok and [v for v in part if v[1] == path] == [v for v in w if v[1] == path]
    if not ok:
        ctx.fail(f"port {key} ({it['type']}, size {it['maxsize']}) delivered {g} in the wrong order, expected {want}")
