"""Monitors and the binding of models to environments."""

import itertools
from collections import Counter

import toffee
from toffee import *
from checks import Check
from vf import gen
from vf.core import capture_logs
from vf.gen import Rec, freeze
from checks.c_driver import rand_inst, rand_tasks, attach_all, diff, check_order

VALUES = [0, False, "", (), [], {}, 1, "v", (1, 2), {"k": 1}, [0], b"", 0.0]


async def settle(n=80):
    for _ in range(n):
        await toffee.asynchronous.sleep(0)


class M01(Check):
    PROP = "M01"
    quick, thorough = 900, 18000
    need = {"values": 2000, "falsy values": 700, "hook deliveries": 800, "queue deliveries": 500, "queue drops": 100, "None results": 1000}
    rule = (
        "monitors that return values (falsy ones, None, repeated objects) after 0 to 3 cycles, hooks and ports of several models, "
        "queues of several sizes started at different times and read in different ways; distinct by plan"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        classes = gen.rand_classes(rng)
        for c in classes:
            if not c["monitors"]:
                c["monitors"] = [dict(name="m")]
        spec = dict(classes=classes)
        big = gen.big(ctx, 40, "long", "models", "hooks", "agents")
        spec["agents"] = gen.rand_agents(rng, classes, 1 if big and big != "agents" else 3, rng.randint(8, 20) if big == "agents" else 0)
        models = [
            gen.rand_model(rng, spec, density=rng.choice([0.5, 1.0]), many=rng.randint(10, 30) if big == "hooks" else 0)
            for _ in range(rng.randint(8, 40) if big == "models" else rng.randint(0 if big != "hooks" else 1, 3))
        ]
        inst = rand_inst(rng, models, 1)
        _, mons = gen.paths(spec)
        length = ctx.up(4, 40) if big != "long" else rng.randint(150, 600)
        patience = 80 + 20 * len(inst) if big else 80
        plan = {}
        for p in mons:
            style = rng.choice([[0], [0, 0, 0, 1], [0, 1, 2, 3]])
            density = rng.choice([0.2, 0.6, 1.0])
            plan[p] = [
                (rng.choice(style), rng.choice(VALUES) if rng.random() < density else None) for _ in range(length + 2)
            ]
        queues = {}
        for p in mons:
            queues[p] = (
                rng.choice([None, 0, 0, 0, rng.randint(0, length)]),
                rng.choice([1, 2, "default", 5, 50] if big != "long" else [50, 100, 256, 300, 1000]),
                rng.choice(["blocking", "timed", "timed", "two"]),
                sorted(rng.sample(range(1, length + 1), min(length, rng.randint(1, 6)))),
            )
        rec = Rec()
        count = Counter()
        returned = {p: [] for p in mons}  # (value, cycle of delivery)

        async def mon_body(agent, path):
            p = tuple(path.split("."))
            k = count[p]
            count[p] += 1
            steps, v = plan[p][k] if k < len(plan[p]) else (0, None)
            for _ in range(steps):
                await agent.bundle.step()
            if v is None:
                ctx.saw("None results")
            else:
                returned[p].append((v, rec.dut.cycle))
                ctx.saw("values")
                if not v:
                    ctx.saw("falsy values")
            return v

        rec.mon_body = mon_body
        got, sizes = {p: [] for p in mons}, []

        def handle():
            dut, envs = gen.build(spec, rec, 1)
            attach_all(rec, spec, models, inst, envs)
            for p in mons:
                if queues[p][0] == 0:
                    start(envs[0], p)
            return dut, envs[0]

        def start(env, p):
            ms = queues[p][1]
            getattr(env, p[0]).start_monitor(p[1], *([] if ms == "default" else [ms]))

        async def consumer(dut, env, p):
            begin, _, how, times = queues[p]
            ag = getattr(env, p[0])
            if begin is None:
                if ag.monitor_size(p[1]) != 0:
                    ctx.bad("size of a monitor that was not started is not 0")
                return
            await ClockCycles(dut, begin)
            if begin:
                await settle(patience)
                start(env, p)
            if how in ("blocking", "two"):
                while True:
                    v = await getattr(ag, p[1])()
                    got[p].append((v, dut.cycle))
            for t in times:
                if t <= dut.cycle:
                    continue
                await ClockCycles(dut, t - dut.cycle)
                await settle(patience)
                n = ag.monitor_size(p[1])
                sizes.append((p, dut.cycle, n))
                for _ in range(min(n, 1 + (t + len(p[1])) % 5)):
                    got[p].append((await getattr(ag, p[1])(), dut.cycle))

        async def test(dut, env):
            keep = []
            for p in mons:
                for _ in range(2 if queues[p][2] == "two" else 1):
                    keep.append(create_task(consumer(dut, env, p)))
                    if queues[p][0]:
                        break
            await ClockCycles(dut, length)
            await settle(300 + 2 * patience)
            for p in mons:
                if queues[p][0] is not None:
                    sizes.append((p, dut.cycle, getattr(env, p[0]).monitor_size(p[1])))
            return dut.cycle

        with capture_logs() as cap:
            end = toffee.run(test, handle)

        # hooks
        want, have = Counter(), Counter()
        seq_want, seq_have = {}, {}
        for p in mons:
            for k, (mi, _) in enumerate(inst):
                for it in models[mi]["items"]:
                    if p in it["cover"] and it["type"] in ("agent_hook", "monitor_hook"):
                        for v, c in returned[p]:
                            seq_want.setdefault((k, it["attr"], p), []).append((id(v), c))
        for e in rec.log:
            if e[0] == "mhook":
                seq_have.setdefault((e[1], e[2], tuple(e[3].split("."))), []).append((id(e[4]), e[5]))
            elif e[0] == "ahook":
                seq_have.setdefault((e[1], e[2], tuple(e[3].split("."))), []).append((id(e[4]), e[5]))
            if e[0] in ("mhook", "ahook"):
                ctx.saw("hook deliveries")
                if e[4] is None:
                    ctx.fail(f"a monitor result None was passed to a hook: {e}")
        for k in seq_want.keys() | seq_have.keys():
            if seq_want.get(k) != seq_have.get(k):
                w, h = seq_want.get(k, []), seq_have.get(k, [])
                d = next((i for i, (a, b) in enumerate(zip(w, h)) if a != b), min(len(w), len(h)))
                ctx.fail(f"hook {k}: monitor returned {[x for x in returned[k[2]]][d:d+3]} from value {d}; calls expected "
                         f"{len(w)}, observed {len(h)}; cycles expected {[c for _, c in w][d:d+3]}, observed {[c for _, c in h][d:d+3]}")
        # ports
        for k, (mi, _) in enumerate(inst):
            for it in models[mi]["items"]:
                if it["type"] not in ("monitor_port", "agent_port"):
                    continue
                port = getattr(rec.models[k], it["attr"])
                inside = []
                while port.qsize():
                    inside.append(port.get_nowait())
                for p in mons:
                    if p not in it["cover"]:
                        continue
                    if it["type"] == "agent_port":
                        vals = [x[1] for x in inside if x[0] == ".".join(p)]
                    else:
                        vals = inside
                    ctx.saw("port deliveries", len(vals))
                    if [id(v) for v in vals] != [id(v) for v, _ in returned[p]]:
                        ctx.fail(f"{it['type']} {it['attr']} got {vals} from monitor {p}, it returned {[v for v, _ in returned[p]]}")
        # own queue
        drops = 0
        for p in mons:
            begin, ms, how, times = queues[p]
            if begin is None:
                continue
            ms = 4 if ms == "default" else ms
            vals = [(v, c) for v, c in returned[p] if c > begin or begin == 0]
            takes = Counter(c for _, c in got[p])
            reads = {c: n for pp, c, n in sizes if pp == p}
            q, accepted, out = [], 0, []
            bycycle = {}
            for v, c in vals:
                bycycle.setdefault(c, []).append(v)
            for c in range(0, end + 1):
                for v in bycycle.get(c, []):
                    if len(q) < ms:
                        q.append(v)
                    else:
                        drops += 1
                        ctx.saw("queue drops")
                if how in ("blocking", "two"):
                    while q:
                        out.append((id(q.pop(0)), c))
                else:
                    if c in reads and len(q) != reads[c] and c != end:
                        ctx.fail(f"monitor_size of {p} in cycle {c} is {reads[c]}, {len(q)} values are waiting")
                    for _ in range(takes.get(c, 0)):
                        if not q:
                            ctx.fail(f"monitor {p}: more values read in cycle {c} than were there")
                        out.append((id(q.pop(0)), c))
            fin = [n for pp, c, n in sizes if pp == p and c == end][-1]
            if fin != len(q):
                ctx.fail(f"monitor_size of {p} at the end is {fin}, {len(q)} values are waiting")
            if out != [(id(v), c) for v, c in got[p]]:
                ctx.fail(f"monitor {p} queue (size {ms}, {how}, started in {begin}) delivered {got[p][:12]}, monitor returned {vals[:12]}")
            ctx.saw("queue deliveries", len(out))
        errors = cap.at("ERROR")
        if (drops > 0) != (len(errors) > 0) or len(errors) < drops:
            ctx.fail(f"{drops} values dropped by full queues, {len(errors)} errors logged: {errors[:2]}")
        ctx.note((plan[mons[0]][:6], queues))
        if any(returned.values()):
            ctx.key(spec, models, plan, queues)


class M02(Check):
    PROP = "M02"
    quick, thorough = 3000, 60000
    need = {"monitor calls": 2000, "driver activity": 1500, "shared cycles": 1000, "samples": 1500}
    rule = (
        "several agents with monitors and drivers that write the same signal, calls from many tasks, with and without hooks; in "
        "every cycle the monitors have to run, and see the values from before that cycle's drivers; distinct by plan"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        classes = gen.rand_classes(rng, clocks=(1, 1, 2, 3))
        for c in classes:
            if not c["monitors"]:
                c["monitors"] = [dict(name="m")]
        gen.add_uid(classes)
        spec = dict(classes=classes)
        big = gen.big(ctx, 150, "calls", "models", "agents")
        if big == "calls":
            del classes[1:]
        spec["agents"] = gen.rand_agents(rng, classes, 3 if not big else 1, rng.randint(8, 20) if big == "agents" else 0)
        models = [gen.rand_model(rng, spec, density=0.5) for _ in range(rng.randint(8, 30) if big == "models" else rng.randint(0, 2))]
        inst = rand_inst(rng, models, 1)
        uid = itertools.count(1)
        tasks = rand_tasks(ctx, spec, 1, uid, (1, 6), (1, 4), big)
        _, mons = gen.paths(spec)
        multi = {p: rng.choice([0, 0, 0, 1, 2]) for p in mons}
        rec = Rec()
        seq = []

        async def mon_body(agent, path):
            p = tuple(path.split("."))
            seq.append(("mon", p, rec.dut.cycle, agent.bundle.a.value))
            for _ in range(multi[p]):
                await agent.bundle.step()
                seq.append(("mon2", p, rec.dut.cycle, agent.bundle.a.value))
            return rng_val[(rec.dut.cycle + len(path)) % 2]

        rng_val = [None, 7]
        queues = {p: rng.choice([None, 1, 2, 3, 50]) for p in mons}

        async def drv_body(agent, d, path, args):
            for k in range(d["clocks"]):
                agent.bundle.a.value = args["uid"] * 16 + k
                seq.append(("drv", args["uid"], rec.dut.cycle, args["uid"] * 16 + k))
                await agent.bundle.step()

        rec.mon_body, rec.drv_body = mon_body, drv_body

        def handle():
            dut, envs = gen.build(spec, rec, 1)
            attach_all(rec, spec, models, inst, envs)
            for p in mons:
                if queues[p]:
                    getattr(envs[0], p[0]).start_monitor(p[1], queues[p])
            return dut, envs

        reader = {p: rng.randint(1, 6) for p in mons if rng.random() < 0.3}

        async def read(env, p):
            while True:
                await getattr(getattr(env, p[0]), p[1])()
                await ClockCycles(env.vf_dut, reader[p])

        async def test(dut, envs):
            envs[0].vf_dut = dut
            keep = [create_task(read(envs[0], p)) for p in reader if queues[p]]
            await gen.run_ops(rec, envs, dut, tasks)
            return dut.cycle

        with capture_logs():
            end = toffee.run(test, handle)
        calls = {}
        for e in seq:
            if e[0] == "mon":
                calls.setdefault(e[1], []).append(e[2])
                ctx.saw("monitor calls")
        for p in mons:
            want = [c for c in range(1, end + 1, multi[p] + 1)]
            have = [c for c in calls.get(p, []) if c <= end]
            if want != have:
                ctx.fail(f"monitor {p} (which takes {multi[p]} cycles) was called in the cycles {have[:20]}, expected {want[:20]} of {end}")
        value, cyc, drove = 0, -1, []
        for e in seq:
            if e[2] != cyc:
                # value of the signal at the end of the previous cycle
                cyc, before, drove = e[2], value, []
            if e[0] == "drv":
                value = e[3]
                drove.append(e)
                ctx.saw("driver activity")
            else:
                ctx.saw("samples")
                if drove:
                    ctx.fail(f"cycle {cyc}: monitor {e[1]} ran after the driver call {drove[0]} of the same cycle")
                if e[3] != before:
                    ctx.fail(f"cycle {cyc}: monitor {e[1]} saw {e[3]}, before this cycle's drivers the value was {before}")
        both = {e[2] for e in seq if e[0] == "drv"} & {e[2] for e in seq if e[0] != "drv"}
        ctx.saw("shared cycles", len(both))
        ctx.note((multi, end))
        if both:
            ctx.key(spec, models, tasks, multi, queues, reader)


async def probe(rec, spec, envs, dut, uid, patience=1):
    """Call every driver of every env once and let every monitor report once; returns the record positions."""
    start = len(rec.log)
    issued = []
    for k, env in enumerate(envs):
        for p in gen.paths(spec)[0]:
            u = next(uid)
            issued.append((k, p, u))
            await getattr(getattr(env, p[0]), p[1])(u)
    rec.fire = {k: next(uid) for k in range(len(envs))}
    await ClockCycles(dut, 1)
    await settle(60 * patience)
    fired, rec.fire = rec.fire, {}
    await ClockCycles(dut, 1)
    await settle(30 * patience)
    return start, issued, fired


def seen_by_models(rec, start, models_of):
    """Counter of (model id, item attr, path, uid) that arrived since `start`."""
    out = Counter()
    for e in rec.log[start:]:
        if e[0] == "hook":
            out[(e[1], e[2], e[3], e[4]["uid"])] += 1
        elif e[0] == "ahook":
            out[(e[1], e[2], e[3], e[4]["uid"] if isinstance(e[4], dict) else e[4])] += 1
        elif e[0] == "mhook":
            out[(e[1], e[2], e[3], e[4])] += 1
    for m, mspec in models_of:
        for it in mspec["items"]:
            if it["type"].endswith("_port"):
                p = getattr(m, it["attr"])
                while p.qsize():
                    v = p.get_nowait()
                    if it["type"] == "agent_port":
                        path, v = v
                    else:
                        path = ".".join(it["target"])
                    out[(m.vf_id, it["attr"], path, v["uid"] if isinstance(v, dict) else v)] += 1
    return out


def expected(spec, attached, issued, fired):
    """attached: [(model object, spec, env index)]"""
    out = Counter()
    mons = gen.paths(spec)[1]
    for m, mspec, ei in attached:
        for it in mspec["items"]:
            for k, p, u in issued:
                if k == ei and p in it["cover"] and it["type"] != "monitor_hook" and it["type"] != "monitor_port":
                    out[(m.vf_id, it["attr"], ".".join(p), u)] += 1
            for p in mons:
                if p in it["cover"] and it["type"] not in ("driver_hook", "driver_port"):
                    out[(m.vf_id, it["attr"], ".".join(p), fired[ei])] += 1
    return out


class Probe:
    """Envs with one-argument drivers; monitors report once when fired."""

    def __init__(self, ctx, nenvs, big=None):
        rng = ctx.rng
        classes = gen.rand_classes(rng)
        for c in classes:
            for d in c["drivers"]:
                d["params"] = [("uid", gen.NO, False)]
                d["clocks"] = 0
        self.spec = dict(classes=classes)
        self.spec["agents"] = gen.rand_agents(rng, classes, 4, rng.randint(8, 24) if big == "agents" else 0)
        self.patience = 6 if big else 1
        self.rec = Rec()
        self.rec.fire = {}
        self.uid = itertools.count(1)
        self.nenvs = nenvs

        async def mon_body(agent, path):
            done = agent.__dict__.setdefault("vf_fired", {})
            v = self.rec.fire.get(self.env_of[id(agent)])
            if v is not None and done.get(path) != v:
                done[path] = v
                return v

        self.rec.mon_body = mon_body

    def build(self):
        dut, envs = gen.build(self.spec, self.rec, self.nenvs)
        self.env_of = {id(getattr(e, a["name"])): k for k, e in enumerate(envs) for a in self.spec["agents"]}
        return dut, envs

    async def check(self, ctx, dut, envs, attached, everyone, what):
        start, issued, fired = await probe(self.rec, self.spec, envs, dut, self.uid, self.patience)
        have = seen_by_models(self.rec, start, everyone)
        want = expected(self.spec, attached, issued, fired)
        for k in want.keys() | have.keys():
            if want[k] != have[k]:
                ctx.fail(f"{what}: (model, hook, path, value) {k} expected {want[k]} times, observed {have[k]} times")
        ctx.saw("deliveries", sum(want.values()))
        ctx.saw("probes")


def listings(ctx, spec, envs):
    """Environments list exactly their agents, agents exactly their drivers and monitors, and find them by name."""
    for env in envs:
        have, want = list(env.all_agent_names()), [a["name"] for a in spec["agents"]]
        if sorted(have) != sorted(want):
            ctx.fail(f"the env with the agents {sorted(want)} lists {sorted(have)}")
        for a in spec["agents"]:
            ag, c = getattr(env, a["name"]), spec["classes"][a["cls"]]
            for kind, names in (("driver", [d["name"] for d in c["drivers"]]), ("monitor", [m["name"] for m in c["monitors"]])):
                have = [m.__name__ for m in getattr(ag, f"all_{kind}_method")()]
                if sorted(have) != sorted(names):
                    ctx.fail(f"an agent with the {kind}s {sorted(names)} lists {sorted(have)}")
                for n in gen.DRIVERS + gen.MONITORS + ["bundle", "drivers", "monitor_size", "nope"]:
                    got = getattr(ag, f"get_{kind}_method")(n)
                    if n in names and got != getattr(ag, n) or n not in names and got is not None:
                        ctx.fail(f"get_{kind}_method({n!r}) of an agent with the {kind}s {sorted(names)} is {got!r}")
            ctx.saw("listings")


class E01(Check):
    PROP = "E01"
    quick, thorough = 2500, 50000
    need = {"deliveries": 5000, "probes": 400, "listings": 1000}
    rule = (
        "random agents and methods with look-alike names, models that name them in all documented ways (path, agent+method, "
        "agent+own name, own name with __, agent, agents, methods); every method is used once; distinct by (env, model)"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        big = gen.big(ctx, 80, "agents", "models", "hooks")
        pr = Probe(ctx, 1, big)
        models = [
            gen.rand_model(rng, pr.spec, density=rng.choice([0.3, 0.7, 1.0]), many=rng.randint(10, 40) if big == "hooks" else 0)
            for _ in range(rng.randint(8, 24) if big == "models" else rng.randint(1, 3))
        ]
        inst = rand_inst(rng, models, 1)

        def handle():
            dut, envs = pr.build()
            attach_all(pr.rec, pr.spec, models, inst, envs)
            return dut, envs

        async def test(dut, envs):
            att = [(m, models[mi], ei) for m, (mi, ei) in zip(pr.rec.models, inst)]
            listings(ctx, pr.spec, envs)
            await pr.check(ctx, dut, envs, att, [(m, s) for m, s, _ in att], "after attaching")

        toffee.run(test, handle)
        for m in models:
            for it in m["items"]:
                ctx.saw(f"{it['type']} by {it['form']}")
                ctx.key(pr.spec, it)
        ctx.note(([a["name"] for a in pr.spec["agents"]], [[(i["type"], i["form"], i["kw"], i["attr"]) for i in m["items"]] for m in models]))


def spoil(rng, spec, mspec):
    """Make one hook or port of the model name something that is not there; returns the item or None."""
    drv, mon = gen.paths(spec)
    agents = [a["name"] for a in spec["agents"]]
    wrong_agents = [n for n in gen.NAMES + ["nope", "attach", "attached_models", "__class__", "helper", agents[0] + "x", agents[0][:-1] or "q"] if n not in agents]
    methods = lambda a: [p[1] for p in drv + mon if p[0] == a]
    kinds = ["driver_hook", "driver_port", "monitor_hook", "monitor_port", "agent_hook", "agent_port"]
    t = rng.choice(kinds)
    own = drv if "driver" in t else mon
    taken = {i["attr"] for i in mspec["items"]} | gen.RESERVED
    base = dict(type=t, cover=[], target=None, priority=rng.choice([0, 99, 50]), order=None, maxsize=-1, params=[])
    if t.startswith("agent"):
        form = rng.choice(["attr", "name", "agents", "methods", "both"])
        attr = f"bad_{rng.randint(0, 99)}"
        a = rng.choice(wrong_agents)
        good = rng.sample(agents, rng.randint(0, len(agents)))
        badm = rng.choice([f"{a}.{rng.choice(gen.DRIVERS)}", f"{agents[0]}.zzz", f"{agents[0]}", "zzz"])
        goodm = [".".join(p) for p in drv + mon if p[0] not in good]
        goodm = rng.sample(goodm, rng.randint(0, len(goodm)))
        many = rng.choice([1, 1, 1, 2, 7])  # names may be listed several times
        mix = lambda g, b: rng.sample(g * many + [b], len(g) * many + 1)
        if form == "attr":
            attr, kw = a, {}
        elif form == "name":
            kw = dict(agent_name=a)
        elif form == "agents":
            kw = dict(agents=mix(good, a))
        elif form == "methods":
            kw = dict(methods=mix(goodm, badm))
        elif rng.random() < 0.5:
            kw = dict(agents=mix(good, a), methods=goodm)
        else:
            kw = dict(agents=good, methods=mix(goodm, badm))
    elif (twins := [i for i in mspec["items"] if i["target"]]) and rng.random() < 0.2:
        # a second hook or port of the same kind for the same method
        i = rng.choice(twins)
        form, kw, attr = gen.rand_path_form(rng, i["target"], taken)
        base.update(type=i["type"], target=i["target"])
        p = gen.driver_spec(spec, i["target"])
        if i["type"] == "driver_hook":
            base["params"] = p["params"]
    else:
        a = rng.choice(agents)
        wrong_m = [m for m in gen.DRIVERS + gen.MONITORS + ["zzz"] if (a, m) not in own]
        p = (a, rng.choice(wrong_m)) if rng.random() < 0.6 else (rng.choice(wrong_agents), rng.choice(gen.DRIVERS + gen.MONITORS))
        form, kw, attr = gen.rand_path_form(rng, p, taken)
        base["target"] = p
    if attr in taken and t.startswith("agent") or hasattr(toffee.Model, attr):
        return None
    return dict(base, form=form, kw=kw, attr=attr)


class E02(Check):
    PROP = "E02"
    quick, thorough = 900, 18000
    need = {"rejected": 400, "accepted": 400, "deliveries": 3000}
    rule = (
        "valid models, and copies of them in which one hook or port names a missing agent, driver, monitor or method; attached in "
        "random order to envs of the same classes; distinct by (env, models, order)"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        nenvs = rng.choice([1, 1, 2])
        big = gen.big(ctx, 15, "agents", "agents", "hooks")
        pr = Probe(ctx, nenvs, big)
        good = [
            gen.rand_model(rng, pr.spec, density=rng.choice([0.3, 0.8]), many=rng.randint(6, 20) if big == "hooks" else 0) for _ in range(rng.randint(1, 2))
        ]
        last = pr.spec["agents"][-1]["name"]

        def needs_last(it):
            return (
                (it["target"] and it["target"][0] == last)
                or it["kw"].get("agent_name") == last
                or (not it["target"] and not it["kw"] and it["attr"] == last)
                or last in it["kw"].get("agents", [])
                or any(x.split(".")[0] == last for x in it["kw"].get("methods", []))
            )

        if big:
            # a single hook or port among many of its kind needs the last agent
            for g in good:
                it = [i for i in g["items"] if needs_last(i)]
                if it:
                    keep = rng.choice(it)
                    g["items"] = [i for i in g["items"] if i is keep or not needs_last(i)]
        bad = []
        for _ in range(rng.randint(1, 3)):
            g = rng.choice(good)
            it = spoil(rng, pr.spec, g)
            if it:
                bad.append(dict(items=rng.sample(g["items"] + [it], len(g["items"]) + 1), bad=it))
        # the same model class may fit one env and not the other: second env kind with fewer agents
        steps = []
        for _ in range(rng.randint(2, 8)):
            pool = [("good", k) for k in range(len(good))] + [("bad", k) for k in range(len(bad))]
            steps.append((rng.choice(pool), rng.randrange(nenvs)))
        other = (big or rng.random() < 0.5) and len(pr.spec["agents"]) > 1

        def handle():
            dut, envs = pr.build()
            return dut, envs

        async def test(dut, envs):
            gcls = [gen.instantiate(pr.rec, m, pr.spec) for m in good]
            bcls = [gen.instantiate(pr.rec, m, pr.spec) for m in bad]
            attached, everyone = [], []
            used = [[] for _ in good]
            small = None
            if other:
                # an env that lacks the last agent
                sp = dict(pr.spec, agents=pr.spec["agents"][:-1])
                acls = [gen.agent_class(c, pr.rec) for c in sp["classes"]]
                small = gen.env_class(sp, pr.rec, acls)(dut)
                for a in sp["agents"]:
                    pr.env_of[id(getattr(small, a["name"]))] = -1
            for n, ((kind, k), ei) in enumerate(steps):
                m = (gcls if kind == "good" else bcls)[k]()
                m.vf_id = n
                mspec = (good if kind == "good" else bad)[k]
                everyone.append((m, mspec))
                err = None
                with capture_logs() as logs:
                    try:
                        envs[ei].attach(m)
                    except ValueError as e:
                        err = e
                if kind == "good":
                    if err is None and logs.at("WARNING", "ERROR", "CRITICAL"):
                        ctx.fail(f"step {n}: attaching a model whose hooks all have a target is warned about: {logs.at('WARNING', 'ERROR', 'CRITICAL')[0]}")
                    if err is not None:
                        ctx.fail(f"step {n}: a model whose hooks all have a target was rejected: {err}")
                    attached.append((m, mspec, ei))
                    ctx.saw("accepted")
                else:
                    if err is None:
                        ctx.fail(f"step {n}: {bad[k]['bad']} names nothing in the env, the model was accepted")
                    if m.is_attached():
                        ctx.fail(f"step {n}: the rejected model says that it is attached")
                    ctx.saw("rejected")
                if small is not None and kind == "good":
                    needs = any(needs_last(it) for it in mspec["items"])
                    if used[k] and rng.random() < (0.9 if big else 0.5):
                        # an instance that was attached to a fitting env before
                        m2 = used[k][-1]
                    else:
                        m2 = gcls[k]()
                        m2.vf_id = 1000 + n
                        everyone.append((m2, mspec))
                        if big or rng.random() < 0.5:
                            envs[ei].attach(m2).unattach(m2)
                            used[k].append(m2)
                            m3 = gcls[k]()
                            m3.vf_id = 2000 + n
                            everyone.append((m3, mspec))
                            envs[ei].attach(m3)
                            attached.append((m3, mspec, ei))
                    e2 = None
                    try:
                        small.attach(m2)
                    except ValueError as e:
                        e2 = e
                    if needs and e2 is None:
                        ctx.fail(f"step {n}: the env without agent {last} accepted a model that needs it")
                    if not needs and e2 is not None:
                        ctx.fail(f"step {n}: the env without agent {last} rejected a model that doesn't need it: {e2}")
                    if not needs:
                        small.unattach(m2)
                    ctx.saw("second env kind")
                if rng.random() < 0.4:
                    await pr.check(ctx, dut, envs, attached, everyone, f"after step {n}")
            await pr.check(ctx, dut, envs, attached, everyone, "at the end")
            pr.keep = everyone

        toffee.run(test, handle)
        ctx.note(([b["bad"] for b in bad], steps))
        if bad:
            ctx.key(pr.spec, good, bad, steps)


class E03(Check):
    PROP = "E03"
    quick, thorough = 1200, 24000
    need = {"deliveries": 5000, "unattached": 100, "moved": 60, "not attached": 50}
    rule = (
        "random sequences of attach, unattach, attach again (also to another env, also twice) over several models and envs, with "
        "every driver and monitor used in between; distinct by the sequence"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        nenvs = rng.choice([1, 2, 2, 3])
        big = gen.big(ctx, 60, "models", "steps")
        pr = Probe(ctx, nenvs, big)
        specs = [gen.rand_model(rng, pr.spec, density=rng.choice([0.4, 1.0])) for _ in range(rng.randint(1, 3))]
        nm = rng.randint(1, 4) if big != "models" else rng.randint(8, 60)
        kinds = ["attach", "attach", "attach", "unattach", "unattach", "wrong"] + ["attach"] * (20 if big == "models" else 0)
        of = [rng.randrange(len(specs)) for _ in range(nm)]
        ops = [
            (rng.choice(kinds), rng.randrange(nm), rng.randrange(nenvs), rng.random() < 0.5 / (4 if big else 1))
            for _ in range(rng.randint(40, 120) if big else ctx.up(2, 10))
        ]

        async def test(dut, envs):
            cls = [gen.instantiate(pr.rec, s, pr.spec) for s in specs]
            ms = []
            for k in range(nm):
                m = cls[of[k]]()
                m.vf_id = k
                ms.append(m)
            everyone = [(m, specs[of[k]]) for k, m in enumerate(ms)]
            at = {}
            for n, (op, k, ei, chk) in enumerate(ops):
                if op == "attach":
                    if at.get(k, ei) != ei:
                        ctx.saw("moved")
                    r = envs[ei].attach(ms[k])
                    if r is not envs[ei]:
                        ctx.fail("attach does not return the env")
                    at[k] = ei
                elif op == "unattach" and k in at:
                    r = envs[at[k]].unattach(ms[k])
                    if r is not envs[at.pop(k)]:
                        ctx.fail("unattach does not return the env")
                    ctx.saw("unattached")
                elif at.get(k) != ei:
                    with capture_logs() as cap:
                        envs[ei].unattach(ms[k])
                    if not cap.at("ERROR"):
                        ctx.fail("unattaching a model that is not attached here was not reported")
                    ctx.saw("not attached")
                for j, m in enumerate(ms):
                    if m.is_attached() != (j in at):
                        ctx.fail(f"after {ops[:n+1]}: model {j} says is_attached() = {m.is_attached()}")
                if chk:
                    await pr.check(ctx, dut, envs, [(ms[j], specs[of[j]], e) for j, e in at.items()], everyone, f"after {[o[:3] for o in ops[:n+1]]}")
            await pr.check(ctx, dut, envs, [(ms[j], specs[of[j]], e) for j, e in at.items()], everyone, f"after {[o[:3] for o in ops]}")

        toffee.run(test, pr.build)
        ctx.note((nenvs, of, ops))
        ctx.key(pr.spec, specs, of, ops)


class Weird:
    def __repr__(self):
        return "Weird()"


class E04(Check):
    PROP = "E04"
    quick, thorough = 2500, 50000
    need = {"refused": 8000, "accepted": 8000, "executor calls refused": 800, "executor calls accepted": 2000, "coroutine hooks": 200, "models refused": 150, "items refused": 200}
    rule = (
        "declarations of hooks, ports, lists, delayed signals and executor calls with arguments in and just outside of what is allowed, in any "
        "order and mixed with each other, and runs that go on after something was refused; distinct by the declarations"
    )

    def name(self, rng, p=0.5):
        return rng.choice(["a", "agent", "a.f", "x__y", "A0"]) if rng.random() < p else ""

    def priority(self, rng):
        p = rng.choice([-1, 0, 1, 50, 98, 99, 100, rng.randint(-3, 103), rng.randint(-1000, 1000)]) if rng.random() < 0.6 else rng.randint(0, 99)
        return p, 0 <= p <= 99

    def order(self, rng):
        o = rng.choice(["model_first", "dut_first"]) if rng.random() < 0.8 else rng.choice(["first", "", "Model_first", "model", "dutfirst", None, "parallel", "both"])
        return o, o in ("model_first", "dut_first")

    def declaration(self, rng, signal):
        """(what, whether it is allowed, how to make it)"""
        kind = rng.choice(["agent_hook", "driver_hook", "monitor_hook", "driver_port", "monitor_port", "agent_port", "signals", "bundles", "delay"])

        def func(self, *args):
            return None

        if kind.endswith("_hook"):
            kw, ok = {}, True
            if rng.random() < 0.6:
                kw["priority"], good = self.priority(rng)
                ok &= good
            if rng.random() < 0.4 and kind != "monitor_hook":
                kw["sche_order"], good = self.order(rng)
                ok &= good
            if kind == "agent_hook":
                args = [self.name(rng)] if rng.random() < 0.4 else []
                if not args and rng.random() < 0.4:
                    kw["agent_name"] = self.name(rng)
                if rng.random() < 0.4:
                    kw["agents"] = rng.choice([[], ["a"], ["a", "b"]])
                if rng.random() < 0.3:
                    kw["methods"] = rng.choice([[], ["a.f"], ["a.f", "b.g"]])
                ok &= not ((args + [kw.get("agent_name", "")])[0] and kw.get("agents"))
                make = agent_hook
            else:
                side = kind.split("_")[0]
                args, good = self.path_args(rng, side, kw)
                ok &= good
                make = driver_hook if side == "driver" else monitor_hook
            return (kind, args, kw), ok, lambda: make(*args, **kw)(func)
        if kind.endswith("_port"):
            kw, ok, args = {}, True, []
            if rng.random() < 0.7:
                kw["maxsize"] = rng.choice([-1, 0, 1, 4, -2, -10, rng.randint(-5, 5), 100000])
                ok = kw["maxsize"] > 0 or kw["maxsize"] == -1
            if kind == "agent_port":
                args = [self.name(rng)] if rng.random() < 0.5 else []
                if not args and rng.random() < 0.5:
                    kw[rng.choice(["agents", "methods"])] = ["a"]
                make = AgentPort
            else:
                side = kind.split("_")[0]
                args, good = self.path_args(rng, side, kw)
                ok &= good
                make = DriverPort if side == "driver" else MonitorPort
            return (kind, args, kw), ok, lambda: make(*args, **kw)
        if kind == "delay":
            d = rng.choice([0, 0, 1, 2, -1, -1, -5, 30])
            return (kind, d), d >= 0, lambda: toffee.delay.Delayer(signal, d)
        limit = rng.choice([0, 1, 2, -1, 10, -3, 1])
        form = rng.choice(["#", "x_#", "#_y", "a#b#", "x", "", "x_0"])
        make = SignalList if kind == "signals" else lambda f, n: BundleList(Plain, f, n)
        return (kind, form, limit), limit > 0 and "#" in form, lambda: make(form, limit)

    def path_args(self, rng, side, kw):
        args = [self.name(rng)] if rng.random() < 0.4 else []
        path = args[0] if args else ""
        if not args and rng.random() < 0.2:
            path = kw[f"{side}_path"] = self.name(rng)
        agent = method = ""
        if rng.random() < 0.4:
            agent = kw["agent_name"] = self.name(rng)
        if rng.random() < 0.4:
            method = kw[f"{side}_name"] = self.name(rng)
        return args, not (path and (agent or method)) and not (method and not agent)

    def declare(self, ctx, rng, signal, said, keep):
        what, ok, make = self.declaration(rng, signal)
        said.append(what)
        try:
            keep.append(make())
        except Exception as e:
            if ok:
                ctx.fail(f"{what} is allowed, but {type(e).__name__}: {e}")
            ctx.saw("refused")
        else:
            if not ok:
                ctx.fail(f"{what} is not allowed, but was accepted")
            ctx.saw("accepted")

    def scenario(self, ctx):
        rng = ctx.rng
        rec = Rec()
        said, keep = [], []
        plan = rng.choice(["executor", "executor", "exit", "coroutine", "assign", "model"])

        def handle():
            return small_env(rec)

        async def test(dut, env):
            for _ in range(rng.randint(4, 12)):
                self.declare(ctx, rng, dut.s, said, keep)
                if rng.random() < 0.1:
                    await env.ag.bundle.step()
            await getattr(self, "do_" + plan)(ctx, rng, dut, env, said, keep)
            for _ in range(rng.randint(0, 3)):
                self.declare(ctx, rng, dut.s, said, keep)
            return "done"

        self.expected = None
        try:
            result = toffee.run(test, handle)
        except Exception as e:
            if self.expected is None or not isinstance(e, self.expected):
                raise
        else:
            ctx.equal(result, "done", "result of the run")
        ctx.note((plan, said))
        ctx.key(plan, said)

    async def do_executor(self, ctx, rng, dut, env, said, keep):
        """What is refused does not run and leaves no group behind, the rest runs as if it had not been there."""
        ag = env.ag
        want, length = {}, {}
        env.calls.clear()

        async def plain(uid):
            env.calls.append((uid, dut.cycle))
            return ("plain", uid)

        exit_ = rng.choice(["all", "all", "any", "none"])
        t0 = None
        exe = Executor(exit=exit_)
        async with exe:
            for uid in range(rng.randint(1, 8)):
                kind = rng.choice(["f", "g", "h", "plain", "plain"])
                coro = plain(uid) if kind == "plain" else getattr(ag, kind)(uid)
                kw, ok = {}, True
                if rng.random() < 0.5:
                    kw["priority"], good = self.priority(rng)
                    ok &= good and kind != "plain"
                if rng.random() < 0.3:
                    kw["sche_order"] = rng.choice(["model_first", "dut_first"])
                    ok &= kind != "plain"
                group = rng.choice([None, "one", "two", f"own{uid}"])
                if group is not None:
                    kw["sche_group"] = group
                said.append((kind, kw))
                try:
                    exe(coro, **kw)
                except Exception as e:
                    if ok:
                        ctx.fail(f"an executor refused a call of {kind} with {kw}: {type(e).__name__} {e}")
                    coro.close()
                    ctx.saw("executor calls refused")
                else:
                    if not ok:
                        ctx.fail(f"an executor accepted a call of {kind} with {kw}")
                    g = group or ("plain" if kind == "plain" else f"ag.{kind}")
                    want.setdefault(g, []).append(("plain", uid) if kind == "plain" else (kind, uid))
                    length[g] = length.get(g, 0) + {"f": 1, "g": 0, "h": 2, "plain": 0}[kind]
                    ctx.saw("executor calls accepted")
            t0 = dut.cycle
        spent = dut.cycle - t0
        pick = {"all": max, "any": min, "none": lambda _: 0}[exit_]
        ctx.equal(spent, pick(length.values()) if length else 0, f"cycles of an executor with exit {exit_} and groups {length}")
        await exe.wait_all()
        await env.ag.bundle.step()
        ctx.equal(exe.get_results(), {k: v if len(v) > 1 else v[0] for k, v in want.items()}, "results of an executor that refused some calls")
        ran = sorted(u for u, _ in env.calls)
        ctx.equal(ran, sorted(u for g in want.values() for _, u in g), "calls that ran")

    async def do_exit(self, ctx, rng, dut, env, said, keep):
        """An unknown exit condition is refused at the end of the block."""
        exit_ = rng.choice(["all", "any", "none", "every", "", "All", "first", None])
        said.append(("exit", exit_))
        env.calls.clear()
        coros = [env.ag.f(1), env.ag.g(2)]
        try:
            async with Executor(exit=exit_) as exe:
                for c in coros:
                    exe(c)
        except Exception as e:
            if exit_ in ("all", "any", "none"):
                ctx.fail(f"the exit condition {exit_!r} is allowed, but {type(e).__name__}: {e}")
            for c in coros:
                c.close()
            await env.ag.bundle.step(2)
            ctx.equal(env.calls, [], "calls that ran although the exit condition is unknown")
            ctx.saw("executor calls refused", 2)
        else:
            if exit_ not in ("all", "any", "none"):
                ctx.fail(f"an executor with the exit condition {exit_!r} ended without an error")
            await exe.wait_all()
            ctx.saw("executor calls accepted", 2)

    async def do_coroutine(self, ctx, rng, dut, env, said, keep):
        """A coroutine as a hook is refused when it is due, it is not dropped."""
        kind = rng.choice(["driver_hook", "agent_hook", "monitor_hook", "agent_hook of a monitor"])
        order = rng.choice(["model_first", "dut_first"])
        prio = rng.randint(0, 99)

        async def hook(self, *args):
            ctx.fail("the coroutine ran")

        if kind == "driver_hook":
            deco = driver_hook("ag.f", priority=prio, sche_order=order)
        elif kind == "agent_hook":
            deco = agent_hook(methods=["ag.f"], priority=prio, sche_order=order)
        elif kind == "monitor_hook":
            deco = monitor_hook("ag.mon", priority=prio)
        else:
            deco = agent_hook(methods=["ag.mon"], priority=prio)
        said.append((kind, order, prio))
        m = type("CoModel", (Model,), {"hook": deco(hook)})()
        keep.append(m)
        await env.ag.bundle.step(rng.randint(0, 3))
        try:
            env.attach(m)
        except Exception:
            ctx.saw("coroutine hooks")
            return
        self.expected = Exception
        ctx.saw("coroutine hooks")
        if "monitor" in kind:
            env.ag.due = rng.choice([0, "", 5, (1,)])
            await env.ag.bundle.step(4)
        else:
            await env.ag.f(rng.randint(0, 9))
            await env.ag.bundle.step(2)
        self.expected = None
        ctx.fail(f"a coroutine as {kind} was silently dropped")

    async def do_assign(self, ctx, rng, dut, env, said, keep):
        """What is no dictionary is reported and writes nothing."""
        b = env.ag.bundle
        for n in "stu":
            getattr(b, n).value = rng.randint(0, 200)
        before = b.as_dict()
        item = rng.choice([None, 5, "s", [1, 2, 3], [("s", 1)], (1, 2, 3), Weird(), {"s", "t"}])
        said.append(("assign", repr(item)))
        with capture_logs() as logs:
            try:
                b.assign(item, rng.random() < 0.5) if rng.random() < 0.7 else b.assign(item)
                loud = len(logs.at("ERROR", "CRITICAL"))
            except Exception:
                loud = 1
        if not loud:
            ctx.fail(f"assigning {item!r} to a bundle was not reported")
        ctx.equal(b.as_dict(), before, f"values after {item!r} was assigned")
        ctx.saw("items refused")

    async def do_model(self, ctx, rng, dut, env, said, keep):
        """Only models can be attached, and what is refused leaves the env as it was."""
        class Fits(Model):
            @driver_hook("ag.f")
            def hook(self, uid):
                seen.append(("fits", uid))

        class Other:
            all_driver_hooks = []

            @driver_hook("ag.f")
            def hook(self, uid):
                seen.append(("other", uid))

        class OtherComponent(toffee.asynchronous.Component):
            async def main(self):
                pass

            @driver_hook("ag.f")
            def hook(self, uid):
                seen.append(("other", uid))

        seen = []
        fits = Fits()
        keep.append(fits)
        attached = False
        for k in range(rng.randint(1, 4)):
            item = rng.choice([None, 3, Fits, Model, "model", [fits], env, env.ag, "Other", "OtherComponent", "fits"])
            said.append(("attach", repr(type(item))))
            if item == "Other":
                item = Other()
            elif item == "OtherComponent":
                item = OtherComponent()
                keep.append(item)
            if item == "fits":
                env.attach(fits)
                attached = True
            else:
                try:
                    env.attach(item)
                except Exception:
                    ctx.saw("models refused")
                else:
                    ctx.fail(f"{item!r}, which is no model, was attached")
            seen.clear()
            await env.ag.f(k)
            await env.ag.bundle.step()
            ctx.equal(seen, [("fits", k)] if attached else [], "hooks called after something was refused")


class Plain(Bundle):
    x = Signal()


class E04Bundle(Bundle):
    s, t, u = Signals(3)


class E04Agent(Agent):
    def __init__(self, bundle, dut, calls):
        self.dut, self.calls, self.due = dut, calls, None
        super().__init__(bundle)

    @driver_method()
    async def f(self, uid):
        self.calls.append((uid, self.dut.cycle))
        await self.bundle.step()
        return ("f", uid)

    @driver_method()
    async def g(self, uid):
        self.calls.append((uid, self.dut.cycle))
        return ("g", uid)

    @driver_method()
    async def h(self, uid):
        self.calls.append((uid, self.dut.cycle))
        await self.bundle.step(2)
        return ("h", uid)

    @monitor_method()
    async def mon(self):
        due, self.due = self.due, None
        return due


class E04Env(Env):
    def __init__(self, dut):
        super().__init__()
        self.calls = []
        self.ag = E04Agent(E04Bundle().bind(dut), dut, self.calls)


def small_env(rec):
    dut = gen.build_dut(rec, {"s": {}, "t": {}, "u": {}})
    return dut, E04Env(dut)
