"""Random environments: agents with drivers and monitors, models hooked to them in all documented ways.

A Spec is plain data; build() turns it into toffee objects.  Everything that crosses the boundary between toffee and the
user's code (calls, driver bodies, hooks, monitor bodies) is recorded in `rec.log`.
"""

import functools
import itertools

import toffee
from toffee import *
from vf.dut import DUT

NAMES = ["ag", "ag2", "ag_x", "a", "alu", "g", "port", "ag2_x", "Ag", "_ag", "ALU", "zz", "unit"]
DRIVERS = ["d", "d2", "exec", "d_x", "send", "ag", "exec2", "D", "Send", "write", "z", "_p"]
MONITORS = ["m", "m2", "mon", "d_mon", "out", "M", "watch", "zm", "_o"]
PARAMS = ["x", "y", "z", "args", "name", "item", "agent_x", "path", "agent", "value"]
NO = "<no default>"
STAR, STARS = "<*>", "<**>"  # variadic parameters, in the place of the default


class MonBundle(Bundle):
    a, b = Signals(2)


class Rec:
    """What happened at the boundary, and how the user's code answers."""

    def __init__(self):
        self.log = []
        self.dut = None
        self.n = itertools.count()
        self.envs = []
        self.inner_calls = []
        self.inner_uid = itertools.count(10**6)
        self.inner_rng = None

    def ev(self, *e):
        self.log.append(e)

    def of(self, kind):
        return [e for e in self.log if e[0] == kind]

    # default answers, overridden by scenarios
    def drv_ret(self, path, args):
        return None

    def hook_ret(self, model, hook, path, args):
        return None

    async def drv_body(self, agent, spec, path, args):
        when = spec.get("inner_at", 0)
        for k in range(spec["clocks"]):
            if k < when or not spec.get("inner"):
                await agent.bundle.step()
        for d in spec.get("inner", ()):
            await self.inner(agent, d)
        for k in range(spec["clocks"]):
            if k >= when and spec.get("inner"):
                await agent.bundle.step()

    def on_inner(self, c):
        pass

    async def inner(self, agent, d):
        """A driver calls another one of its agent."""
        env = next(k for k, e in enumerate(self.envs) if e is agent.vf_env)
        c = make_call(self.inner_rng, d, (agent.vf_name, d["name"]), env, next(self.inner_uid), lambda n=itertools.count(5000): next(n))
        self.inner_calls.append(c)
        self.on_inner(c)
        await getattr(agent, d["name"])(*c["args"], **c["kwargs"])

    async def mon_body(self, agent, path):
        return None


def rand_params(rng, simple=False):
    n = rng.choice([0, 1, 1, 1, 2, 2, 3, 4])
    names = rng.sample(PARAMS, n)
    out, seen_default, kwonly = [], False, False
    star = rng.randint(0, n) if rng.random() < 0.12 else -1
    for k, nm in enumerate(names):
        default = NO
        if k == star and not kwonly:
            out.append(("rest", STAR, False))
            kwonly = True
        if seen_default and not kwonly or rng.random() < 0.35:
            default = rng.choice([None, 0, 5, "d", (1, 2), False])
            seen_default = True
        if not kwonly and k and rng.random() < 0.2:
            kwonly = True
            if not seen_default and rng.random() < 0.5:
                default = NO
        out.append((nm, default, kwonly))
    if star == n and not kwonly:
        out.append(("rest", STAR, False))
    if rng.random() < 0.12:
        out.append(("kw", STARS, True))
    if rng.random() < 0.15:
        # the first ones are positional only (None)
        for k in range(rng.randint(0, n)):
            if out[k][1] == STAR or out[k][2]:
                break
            out[k] = (*out[k][:2], None)
    return out


def params_src(params):
    parts, star, only = [], False, False
    for nm, default, kwonly in params:
        if only and kwonly is not None:
            parts.append("/")
        only = kwonly is None
        if default in (STAR, STARS):
            parts.append(("*" if default == STAR else "**") + nm)
            star = True
            continue
        if kwonly and not star:
            parts.append("*")
            star = True
        parts.append(nm if default is NO else f"{nm}={default!r}")
    return ", ".join(parts + ["/"] * only)


def make_func(name, params, impl, is_async, selfname="self"):
    src = params_src(params)
    src = f"{selfname}, {src}" if src else selfname
    d = ", ".join(f"{nm!r}: {nm}" for nm, _, _ in params)
    code = (
        f"{'async ' if is_async else ''}def {name}({src}):\n"
        f"    return {'await ' if is_async else ''}__impl({selfname}, {{{d}}})\n"
    )
    ns = {"__impl": impl}
    exec(code, ns)
    return users_decorator(ns[name], is_async) if len(src) % 7 == 0 else ns[name]


def users_decorator(func, is_async):
    """A decorator of the user's own."""
    if is_async:

        @functools.wraps(func)
        async def wrapped(*args, **kwargs):
            return await func(*args, **kwargs)

    else:

        @functools.wraps(func)
        def wrapped(*args, **kwargs):
            return func(*args, **kwargs)

    return wrapped


def shaped(u, n):
    """Distinct values of several types."""
    return {0: {"a": (u, n)}, 1: [u, n], 2: f"{u}.{n}", 3: ((u, n),)}.get(n % 11, (u, n))


def rand_call(rng, params, fresh):
    """(args, kwargs, bound) of a random call; fresh() makes values that are told apart."""
    args, kwargs, bound = [], {}, {}
    pos = True
    for nm, default, kwonly in params:
        if default == STAR:
            bound[nm] = tuple(fresh() for _ in range(rng.randint(0, 3))) if pos else ()
            args += bound[nm]
            continue
        if default == STARS:
            bound[nm] = {k: fresh() for k in rng.sample(["extra", "more", "self_", "priority"], rng.randint(0, 3))}
            kwargs.update(bound[nm])
            continue
        if kwonly:
            pos = False
        if default is not NO and rng.random() < 0.4:
            bound[nm] = default
            pos = False
            continue
        if kwonly is None and not pos:
            bound[nm] = default
            continue
        v = fresh()
        bound[nm] = v
        if kwonly is None or pos and rng.random() < 0.7:
            args.append(v)
        else:
            pos = False
            kwargs[nm] = v
    kw = list(kwargs.items())
    rng.shuffle(kw)
    return tuple(args), dict(kw), bound


def big(ctx, every, *dims):
    """Now and then one dimension of the workload is much larger."""
    return dims[ctx.i // every % len(dims)] if ctx.i % every == every - 1 else None


def rand_classes(rng, nmax=2, monitors=True, clocks=(0, 1, 1, 2)):
    out = []
    for _ in range(rng.randint(1, nmax)):
        wide = rng.random() < 0.04
        drivers = [
            dict(name=n, params=rand_params(rng), clocks=rng.choice(clocks))
            for n in rng.sample(DRIVERS, rng.randint(6, len(DRIVERS)) if wide else rng.randint(1, 3))
        ]
        mons = [dict(name=n) for n in rng.sample(MONITORS, rng.randint(6, len(MONITORS)) if wide else rng.randint(0, 2))] if monitors else []
        methods = [x["name"] for x in drivers + mons]
        override = rng.sample(methods, rng.randint(0, len(methods))) if rng.random() < 0.2 else []
        out.append(dict(drivers=drivers, monitors=mons, override=override, late=not override and rng.random() < 0.15, self=rng.choice(["self", "self", "this"]), step=rng.random() < 0.1, mixin=rng.random() < 0.15, extras=rng.random() < 0.3))
    return out


def rand_agents(rng, classes, nmax=3, many=0):
    names = rng.sample(NAMES, rng.randint(1, nmax)) if not many else rng.sample(NAMES + [f"{n}{k}" for n in NAMES for k in (0, 1, 10)], many)
    # some agents are made by a base class of the env
    split = rng.random() < 0.3
    return [dict(name=n, cls=rng.randrange(len(classes)), base=split and rng.random() < 0.5) for n in names]


def paths(spec):
    drv, mon = [], []
    for a in spec["agents"]:
        c = spec["classes"][a["cls"]]
        drv += [(a["name"], d["name"]) for d in c["drivers"]]
        mon += [(a["name"], m["name"]) for m in c["monitors"]]
    return drv, mon


def driver_spec(spec, path):
    for a in spec["agents"]:
        if a["name"] == path[0]:
            for d in spec["classes"][a["cls"]]["drivers"]:
                if d["name"] == path[1]:
                    return d


def rand_path_form(rng, path, taken):
    """How a single method is named: (decorator kwargs, attribute name)."""
    for _ in range(50):
        form = rng.choice(["path", "agent+method", "agent+attr", "attr", "path"])
        if form == "path":
            r = dict(path=".".join(path)), f"{rng.choice(['h', 'any', 'd', 'on_x', path[1]])}_{rng.randint(0, 99)}"
        elif form == "agent+method":
            r = dict(agent_name=path[0], method=path[1]), f"zz_{rng.randint(0, 99)}"
        elif form == "agent+attr":
            r = dict(agent_name=path[0]), path[1]
        else:
            r = {}, f"{path[0]}__{path[1]}"
        if r[1] not in taken:
            taken.add(r[1])
            return form, r[0], r[1]
    n = f"hk_{len(taken)}"
    taken.add(n)
    return "path", dict(path=".".join(path)), n


def rand_agent_form(rng, spec, taken, used):
    """How several methods are named: (form, kwargs, attribute name, covered paths)."""
    drv, mon = paths(spec)
    allp = drv + mon
    names = [a["name"] for a in spec["agents"]]
    form = rng.choice(["attr", "name", "agents", "methods", "agents+methods"])
    if form == "attr":
        n = rng.choice(names)
        kw, attr, cov = {}, n, [p for p in allp if p[0] == n]
    elif form == "name":
        n = rng.choice(names)
        kw, attr, cov = dict(agent_name=n), f"all_{rng.randint(0, 999)}", [p for p in allp if p[0] == n]
    else:
        ag = rng.sample(names, rng.randint(1, len(names)))
        if form == "methods":
            ag = []
        # a method may also be named a second time
        rest = allp if rng.random() < 0.3 else [p for p in allp if p[0] not in ag]
        me = rng.sample(rest, rng.randint(min(1, len(rest)), len(rest)))
        if form == "agents":
            me = []
        kw = {}
        if ag:
            kw["agents"] = ag
        if me:
            kw["methods"] = [".".join(p) for p in me] + ([".".join(me[0])] if rng.random() < 0.1 else [])
        attr = f"some_{rng.randint(0, 999)}"
        if not kw:
            return None
        cov = [p for p in allp if p[0] in ag or p in me]
    if attr in taken or not cov:
        return None
    taken.add(attr)
    return form, kw, attr, cov


RESERVED = {"main", "collect_all", "clear_matched", "is_attached", "ensure_all_matched", "attached_env"}


def rand_model(rng, spec, density=0.6, kind=None, prio=None, order=None, many=0):
    """hooks: dict(type, form, kw, attr, cover=[paths], priority, order)"""
    drv, mon = paths(spec)
    taken = set(RESERVED)
    kind = kind or rng.choice(["hooks", "hooks", "ports", "mixed"])
    items = []

    def pick():
        """One or both of the ways to be told."""
        if kind == "mixed":
            return rng.choice([["_hook"], ["_port"], ["_hook", "_port"]])
        return ["_hook" if kind == "hooks" else "_port"]

    pick_prio = prio or (lambda: rng.choice([0, 1, 50, 98, 99, 99, rng.randint(0, 99)]))
    pick_order = order or (lambda: rng.choice(["model_first", "dut_first", None]))
    for p in drv:
        if rng.random() < density:
            for way in pick():
                form, kw, attr = rand_path_form(rng, p, taken)
                items.append(
                    dict(
                        type="driver" + way,
                        form=form, kw=kw, attr=attr, cover=[p], target=p, priority=pick_prio(), order=pick_order(),
                    )
                )
    for p in mon:
        if rng.random() < density:
            for way in pick() if kind == "mixed" else [rng.choice(["_hook", "_port"])]:
                form, kw, attr = rand_path_form(rng, p, taken)
                items.append(
                    dict(
                        type="monitor" + way,
                        form=form, kw=kw, attr=attr, cover=[p], target=p, priority=pick_prio(), order=None,
                    )
                )
    for _ in range(many or rng.choice([0, 1, 1, 2, 2, 4])):
        f = rand_agent_form(rng, spec, taken, None)
        if f:
            form, kw, attr, cov = f
            items.append(
                dict(
                    type="agent" + pick()[0],
                    form=form, kw=kw, attr=attr, cover=cov, target=None, priority=pick_prio(), order=pick_order(),
                )
            )
    # some hooks are inherited from a base class
    split = rng.random() < 0.3
    for it in items:
        it["maxsize"] = -1
        it["base"] = split and rng.random() < 0.5
        it["silent"] = not prio and rng.random() < 0.3  # no priority is given
        if it["silent"]:
            it["priority"] = 0 if it["type"] == "monitor_hook" else 99
    return dict(items=items)


def path_kwargs(it, method_key, positional):
    kw = dict(it["kw"])
    a = []
    if "path" in kw:
        a.append(kw.pop("path"))
    if "method" in kw:
        kw[method_key] = kw.pop("method")
    return a, kw


def model_class(mspec, spec, rec, mid_of):
    ns, ports = {}, []
    made = {}

    def deco(kind, *a, **kw):
        """Decorators may be used several times."""
        if len(mspec["items"]) % 4:
            return made.setdefault((kind, repr(a), repr(sorted(kw.items()))), kind(*a, **kw))
        return kind(*a, **kw)

    for it in mspec["items"]:
        attr, t = it["attr"], it["type"]
        if t == "driver_hook":
            a, kw = path_kwargs(it, "driver_name", True)
            if it["priority"] is not None and not it.get("silent"):
                kw["priority"] = it["priority"]
            if it["order"]:
                kw["sche_order"] = it["order"]
            d = driver_spec(spec, it["target"]) if it["target"] else None
            params = it.get("params", d["params"] if d else [])

            def impl(self, args, it=it):
                rec.ev("hook", mid_of(self), it["attr"], ".".join(it["target"]), args, rec.dut.cycle)
                return rec.hook_ret(mid_of(self), it, ".".join(it["target"]), args)

            ns[attr] = deco(driver_hook, *a, **kw)(make_func(attr, params, impl, False))
            if len(params) % 3 == 2:
                ns[attr] = users_decorator(ns[attr], False)
        elif t == "monitor_hook":
            a, kw = path_kwargs(it, "monitor_name", True)
            if it["priority"] is not None and not it.get("silent"):
                kw["priority"] = it["priority"]

            def f(self, item, it=it):
                rec.ev("mhook", mid_of(self), it["attr"], ".".join(it["target"]), item, rec.dut.cycle)

            f.__name__ = attr
            ns[attr] = deco(monitor_hook, *a, **kw)(f)
            if len(attr) % 3 == 2:
                ns[attr] = users_decorator(ns[attr], False)
        elif t == "agent_hook":
            kw = dict(it["kw"])
            if it["priority"] is not None and not it.get("silent"):
                kw["priority"] = it["priority"]
            if it["order"]:
                kw["sche_order"] = it["order"]

            def g(self, path, item, it=it):
                rec.ev("ahook", mid_of(self), it["attr"], path, item, rec.dut.cycle)
                return rec.hook_ret(mid_of(self), it, path, item)

            g.__name__ = attr
            ns[attr] = deco(agent_hook, **kw)(g)
        else:
            ports.append(it)

    def init(self):
        Model.__init__(self)
        for it in ports:
            ms = {} if it["maxsize"] == "default" else dict(maxsize=it["maxsize"])
            if it["type"] == "driver_port":
                a, kw = path_kwargs(it, "driver_name", True)
                p = DriverPort(*a, **kw, **ms)
            elif it["type"] == "monitor_port":
                a, kw = path_kwargs(it, "monitor_name", True)
                p = MonitorPort(*a, **kw, **ms)
            else:
                p = AgentPort(**it["kw"], **ms)
            setattr(self, it["attr"], p)

    ns["__init__"] = init
    more = {k: v for k, v in extras(spec["classes"][-1].get("extras")).items() if k not in {it["attr"] for it in mspec["items"]}}
    if "main" in mspec:
        ns["main"] = mspec["main"]
    inherited = {it["attr"]: ns.pop(it["attr"]) for it in mspec["items"] if it.get("base") and it["attr"] in ns}
    if not inherited:
        return type("GenModel", (Model,), {**more, **ns})
    # the base class also has other hooks of the name of the derived class's own ones
    hidden = {
        k: agent_hook(agent_name=spec["agents"][0]["name"])(hidden_hook(k))
        for k in ns
        if not k.startswith("__") and k != "main" and len(k) % 2
    }
    mixin = len(hidden) % 2 == 0 and len(ns) % 2
    ns.update(more)
    if mixin:
        return type("GenModel", (type("GenHooks", (), {**inherited, **hidden}), Model), ns)
    return type("GenModel", (type("GenBaseModel", (Model,), {**inherited, **hidden}),), ns)


def hidden_hook(name):
    def f(self, path, item):
        raise AssertionError(f"the overridden hook {name} of a base class was called")

    f.__name__ = name
    return f


def extras(on):
    """What else the classes of users have; some properties cannot be evaluated yet."""
    if not on:
        return {}

    def fails(e):
        def f(self):
            raise e("not yet")

        return f

    return dict(
        busy=property(lambda self: self.not_yet.value), level=property(lambda self: 1 + self.bundle.nothing), Zone=property(fails(RuntimeError)),
        _cached=functools.cached_property(fails(KeyError)), width=8, label="ag", names=["d", "m"], table={"d": 1}, nothing=None,
        make=classmethod(lambda cls: cls), helper_=staticmethod(lambda: None), tool=lambda self, x: x, Inner=type("Inner", (), {}),
    )


def agent_class(cspec, rec):
    ns = {}
    ns.update(extras(cspec.get("extras")))
    if cspec.get("step"):
        # the older way to make an agent: it gets a function that waits for the clock
        def init(self, bundle):
            self.bundle = bundle
            Agent.__init__(self, bundle.step)

        ns["__init__"] = init
    for d in cspec["drivers"]:

        async def body(self, args, d=d):
            path = f"{rec.name_of(self)}.{d['name']}"
            rec.ev("body", path, args, rec.dut.cycle)
            await rec.drv_body(self, d, path, args)
            r = rec.drv_ret(path, args)
            rec.ev("bodyend", path, args, rec.dut.cycle)
            return r

        ns[d["name"]] = driver_method()(make_func(d["name"], d["params"], body, True, rec_self(cspec)))
    for m in cspec["monitors"]:

        async def mon(self, args, m=m):
            return await rec.mon_body(self, f"{rec.name_of(self)}.{m['name']}")

        ns[m["name"]] = monitor_method()(make_func(m["name"], [], mon, True))
    if cspec.get("mixin"):
        mixed = {k: ns.pop(k) for k in list(ns) if len(k) % 2 == 0 and k != "__init__"}
        cls = type("GenAgent", (type("GenMixin", (), mixed), Agent), ns)
    elif cspec.get("late"):
        late = {k: ns.pop(k) for k in list(ns) if len(k) % 2 and k != "__init__"}
        cls = type("GenSubAgent", (type("GenAgent", (Agent,), ns),), late)
    else:
        cls = type("GenAgent", (Agent,), ns)
    if not cspec.get("override"):
        return cls

    # a class that overrides some methods and calls the overridden ones
    sub = {}
    for d in cspec["drivers"]:

        async def body2(self, args, d=d):
            a, kw = [], {}
            for nm, default, kwonly in d["params"]:
                if default == STAR:
                    a += args[nm]
                elif default == STARS:
                    kw.update(args[nm])
                elif kwonly:
                    kw[nm] = args[nm]
                else:
                    a.append(args[nm])
            return await getattr(super(box["sub"], self), d["name"])(*a, **kw)

        if d["name"] in cspec["override"]:
            sub[d["name"]] = driver_method()(make_func(d["name"], d["params"], body2, True, rec_self(cspec)))
    for m in cspec["monitors"]:

        async def mon2(self, args, m=m):
            return await getattr(super(box["sub"], self), m["name"])()

        if m["name"] in cspec["override"]:
            sub[m["name"]] = monitor_method()(make_func(m["name"], [], mon2, True))
    box = {"sub": type("GenSubAgent", (cls,), sub)}
    return box["sub"]


def rec_self(cspec):
    return cspec.get("self", "self")


def env_class(spec, rec, classes):
    more = extras(spec["classes"][0].get("extras"))

    def init(self, dut):
        Env.__init__(self)
        self.helper = object()
        add(self, dut, False)

    def add(self, dut, base):
        for a in spec["agents"]:
            if bool(a.get("base")) != base:
                continue
            b = MonBundle.from_prefix("io_").bind(dut)
            ag = classes[a["cls"]](b)
            ag.vf_name, ag.vf_env = a["name"], self
            setattr(self, a["name"], ag)

    if not any(a.get("base") for a in spec["agents"]):
        return type("GenEnv", (Env,), {**more, "__init__": init})

    def base_init(self, dut):
        Env.__init__(self)
        add(self, dut, True)

    base = type("GenBaseEnv", (Env,), {**more, "__init__": base_init})
    if all(a.get("base") for a in spec["agents"]):
        return type("GenEnv", (base,), {})

    def sub_init(self, dut):
        base.__init__(self, dut)
        self.helper = object()
        add(self, dut, False)

    return type("GenEnv", (type("GenMidEnv", (base,), {}),), {"__init__": sub_init})


def build_dut(rec, pins=()):
    dut = DUT({**{"io_a": {}, "io_b": {}}, **dict(pins)})
    rec.dut = dut
    start_clock(dut)
    return dut


def build(spec, rec, nenvs=1):
    """Returns dut, envs, classes; must run inside the event loop."""
    rec.name_of = lambda ag: ag.vf_name
    dut = build_dut(rec)
    acls = [agent_class(c, rec) for c in spec["classes"]]
    ecls = env_class(spec, rec, acls)
    rec.envs = envs = [ecls(dut) for _ in range(nenvs)]
    return dut, envs


def instantiate(rec, mspec, spec):
    cls = model_class(mspec, spec, rec, lambda m: m.vf_id)
    return cls


# ---------------------------------------------------------------------------------------------- calls


def add_uid(classes):
    """Give every driver a first parameter that identifies the call."""
    for c in classes:
        for d in c["drivers"]:
            d["params"] = [("uid", NO, False)] + [(n, df, k) for n, df, k in fix_defaults(d["params"])]


def fix_defaults(params):
    return params


def add_inner(rng, rec, spec):
    """Some drivers call others of their agent."""
    rec.inner_rng = rng
    for c in spec["classes"]:
        for k, d in enumerate(c["drivers"]):
            if k and rng.random() < 0.5:
                d["inner"] = rng.sample(c["drivers"][:k], rng.randint(1, k))
                d["inner_at"] = rng.randint(0, d["clocks"])


def make_call(rng, d, path, env, u, fresh):
    params = d["params"]
    has_uid = params and params[0][0] == "uid"
    a, k, b = rand_call(rng, params[1:] if has_uid else params, fresh)
    if has_uid:
        if a or rng.random() < 0.7 or params[1:] and params[1][2] is None:
            a = (u,) + a
        else:
            k["uid"] = u
        b = {"uid": u, **b}
    return dict(env=env, path=path, args=a, kwargs=k, bound=b, uid=u, clocks=d["clocks"], prio=None, order=None)


def rand_ops(rng, spec, nenvs, uid, n, exec_kw=True, clocks=True, weights=None):
    """A random list of operations of one test task.  uid: iterator of call ids."""
    drv, _ = paths(spec)
    fresh_n = itertools.count(1000)

    def call():
        p = rng.choice(drv)
        u = next(uid)
        return make_call(rng, driver_spec(spec, p), p, rng.randrange(nenvs), u, lambda: shaped(u, next(fresh_n)))

    ops = []
    for _ in range(n):
        kind = rng.choice(weights or ["await", "await", "bg", "exec", "exec", "gather", "clk"])
        if kind in ("await", "bg"):
            ops.append((kind, call()))
        elif kind == "gather":
            ops.append((kind, [call() for _ in range(rng.randint(1, 4))]))
        elif kind == "exec":
            cs = []
            for _ in range(rng.randint(1, 5)):
                c = call()
                if exec_kw:
                    c["prio"] = rng.choice([None, None, 0, 1, 50, 99, rng.randint(0, 99)])
                    c["order"] = rng.choice([None, None, "model_first", "dut_first", "parallel"])
                c["group"] = rng.choice([None, None, None, "g", "h"])
                cs.append(c)
            ops.append((kind, rng.choice(["all", "all", "none", "any"]), cs))
        else:
            ops.append((kind, rng.randint(1, 3)))
    return ops


def all_calls(tasks):
    for ops in tasks:
        for op in ops:
            if op[0] in ("await", "bg"):
                yield op[1]
            elif op[0] == "gather":
                yield from op[1]
            elif op[0] == "exec":
                yield from op[2]


async def run_ops(rec, envs, dut, tasks, on_result=None):
    """Run the tasks' operations; returns when all the calls have returned and one more edge has passed."""
    pending = []

    def start(c):
        ag = getattr(envs[c["env"]], c["path"][0])
        return getattr(ag, c["path"][1])(*c["args"], **c["kwargs"])

    async def one(c):
        rec.ev("issue", c["uid"], dut.cycle)
        r = await start(c)
        rec.ev("return", c["uid"], r, dut.cycle)
        return r

    async def task(ops):
        for op in ops:
            if op[0] == "await":
                await one(op[1])
            elif op[0] == "bg":
                pending.append(create_task(one(op[1])))
            elif op[0] == "gather":
                await gather(*[one(c) for c in op[1]])
            elif op[0] == "clk":
                await ClockCycles(dut, op[1])
            else:
                exe = Executor(exit=op[1])
                async with exe:
                    for c in op[2]:
                        kw = {}
                        if c["prio"] is not None:
                            kw["priority"] = c["prio"]
                        if c["order"] is not None:
                            kw["sche_order"] = c["order"]
                        if c["group"] is not None:
                            kw["sche_group"] = c["group"]
                        exe(start(c), **kw)
                if op[1] != "all":
                    pending.append(create_task(exe.wait_all()))

    ts = [create_task(task(ops)) for ops in tasks]
    for t in ts:
        await t
    for t in pending:
        await t
    await ClockCycles(dut, 1)
    rec.keep = (ts, pending)


def freeze(x):
    if isinstance(x, dict):
        return ("dict",) + tuple(sorted((k, freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(v) for v in x)
    return repr(x)
