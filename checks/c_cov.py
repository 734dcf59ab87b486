"""Functional coverage: counts, lifecycle, reports."""

import ast
import fnmatch
import inspect
import json
import re

import toffee
import toffee.funcov as fc
from toffee import *
from checks import Check
from vf import gen
from vf.dut import DUT

BIN_NAMES = ["_z", "", "A", "ABC", "zero", "low", "high", "a", "ab", "abc", "b.1", "b_1", "b1", "x*", "q?", "w[1]", "Zero", "max value", "(p)"]


class Target:
    """Something with a value that is not a pin."""

    def __init__(self, v):
        self.value = v


class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Domain:
    """The values a target can have."""

    KINDS = {
        # draw, ordered, numeric
        "int": (lambda self, rng: rng.randint(0, self.top), True, True),
        "big": (lambda self, rng: int(f"100000000{rng.randint(0, self.top)}"), True, True),  # equal ones are different objects
        "float": (lambda self, rng: rng.randint(0, 2 * self.top) / 2, True, False),
        "str": (lambda self, rng: rng.choice(["", "a", "ab", "abc", "b", "0", "None"]), True, False),
        "none": (lambda self, rng: rng.choice([None, None, 0, 1, "x", False, 0.0]), False, False),
        "tuple": (lambda self, rng: (rng.randint(0, self.top), "s" + str(rng.randint(0, 1))), True, False),
    }

    def __init__(self, top, kind="int"):
        self.top, self.kind = top, kind
        self.f, self.ordered, self.numeric = self.KINDS[kind]

    def draw(self, rng):
        return self.f(self, rng)


def rand_condition(rng, dom):
    """(condition to hand over, reference predicate on the value)"""
    v, w = dom.draw(rng), dom.draw(rng)
    k = rng.choice([k for k in range(13) if (dom.ordered or k not in (1, 2, 3, 4, 8, 9)) and (dom.numeric or k < 11)])
    if k == 0:
        return rng.choice([fc.CovEq, fc.Eq])(v), lambda x: x == v
    if k == 1:
        return rng.choice([fc.CovGt, fc.Gt])(v), lambda x: x > v
    if k == 2:
        return rng.choice([fc.CovLt, fc.Lt])(v), lambda x: x < v
    if k == 3:
        return rng.choice([fc.CovGe, fc.Ge])(v), lambda x: x >= v
    if k == 4:
        return rng.choice([fc.CovLe, fc.Le])(v), lambda x: x <= v
    if k == 5:
        return rng.choice([fc.CovNe, fc.Ne])(v), lambda x: x != v
    if k in (6, 7):
        members = rng.choice([list, set, tuple, frozenset])({v, w})
        if dom.kind == "int" and rng.random() < 0.3:
            members = range(min(v, w), max(v, w) + 1, rng.choice([1, 1, 2]))
        elif rng.random() < 0.2:
            members = {v: 1, w: 2}
        elif dom.kind == "str" and rng.random() < 0.3:
            members = "abcab"
        if k == 6:
            return rng.choice([fc.CovIn, fc.In])(members), lambda x: x in members
        return rng.choice([fc.CovNotIn, fc.NotIn])(members), lambda x: x not in members
    if k in (8, 9):
        lo, hi = (v, w) if v <= w or rng.random() < 0.1 else (w, v)
        return rng.choice([fc.CovIsInRange, fc.IsInRange])(lo, hi), lambda x: lo <= x and x <= hi
    if k == 10:
        return (lambda t: getattr(t, "value", t) == v), lambda x: x == v
    if k == 11:  # truthy instead of True
        return (lambda t: getattr(t, "value", t) & v), lambda x: bool(x & v)
    return (lambda t: getattr(t, "value", t) % 2 == 0), lambda x: x % 2 == 0


class Transition:
    """A condition over two consecutive samples: sees whether it is evaluated exactly once per sample."""

    def __init__(self):
        self.prev = None
        self.calls = 0

    def __call__(self, t):
        self.calls += 1
        v = getattr(t, "value", t)
        r = self.prev is not None and v > self.prev
        self.prev = v
        return r


class RefTransition:
    def __init__(self):
        self.prev = None

    def __call__(self, v):
        r = self.prev is not None and v > self.prev
        self.prev = v
        return r


class RefPoint:
    def __init__(self, name, read, bins, once):
        self.name, self.read, self.bins, self.once = name, read, bins, once  # bins: {name: [predicates]}
        self.reset()

    def reset(self):
        self.hints = {k: 0 for k in self.bins}
        self.hinted = False

    def sample(self):
        v = self.read()
        for k, preds in self.bins.items():
            if all(p(v) for p in preds):
                self.hints[k] += 1
        self.hinted = all(n > 0 for n in self.hints.values())


class RefGroup:
    def __init__(self, disable):
        self.disable = disable
        self.clear()

    def clear(self):
        self.points = {}
        self.calls = self.count = 0
        self.stopped = False
        self.done = False  # all points were hinted, and are checked once

    def sample(self):
        self.calls += 1
        if self.stopped or self.done:
            return False
        self.count += 1
        for p in self.points.values():
            p.sample()
        self.done = all(p.hinted and p.once for p in self.points.values())
        return True


def rand_point(ctx, targets, dom, name, disable, stateful, big=None):
    rng = ctx.rng
    names = BIN_NAMES + [f"{n}{k}" for n in BIN_NAMES for k in range(12)] if big == "bins" else BIN_NAMES
    tname = rng.choice(list(targets))
    target, read = targets[tname]
    trans = []

    def one():
        if stateful and dom.numeric and rng.random() < 0.15:
            t = Transition()
            trans.append(t)
            ctx.saw("conditions over time")
            return t, [RefTransition()]
        if rng.random() < 0.3 or big == "conditions":
            # conditions that often hold, so that the last ones matter
            loose = lambda: rng.choice([(fc.CovNe("?"), lambda x: True), (lambda t: 1, lambda x: True)])
            cs = [loose() if big and rng.random() < 0.98 else rand_condition(rng, dom) for _ in range(rng.choice([1, 2, 3, rng.randint(1, 9)]) if big != "conditions" else rng.randint(10, 150))]
            ctx.saw("condition lists")
            return rng.choice([list, tuple])(c for c, _ in cs), [p for _, p in cs]
        c, p = rand_condition(rng, dom)
        return c, [p]

    if rng.random() < 0.15 and big != "conditions":
        while True:
            c, p = one()
            if callable(c):
                break
        bins, ref = c, {"anonymous": p}
    else:
        bins, ref = {}, {}
        for k in rng.sample(names, rng.choice([1, 2, 3, 4, rng.randint(1, 4), rng.randint(1, len(BIN_NAMES))]) if big != "bins" else rng.randint(30, 200)):
            bins[k], ref[k] = one()
    kw = {}
    once = disable
    if rng.random() < 0.3:
        once = rng.choice([True, False])
        kw["once"] = once
    return target, bins, kw, RefPoint(name, read, ref, once), trans


def given(bins):
    return dict(bins) if isinstance(bins, dict) else bins


def reused(ctx, bins):
    """The user goes on to use the dict of bins that was given to the group."""
    rng = ctx.rng
    if isinstance(bins, dict) and rng.random() < 0.3:
        ctx.saw("reused dicts of bins")
        r = rng.random()
        if r < 0.3:
            bins.clear()
        elif r < 0.7:
            bins["of another point"] = fc.Eq(0)
        else:
            for k in bins:
                bins[k] = fc.CovNe("!")


def check_group(ctx, g, ref, what):
    d = g.as_dict()
    if [p["name"] for p in d["points"]] != list(ref.points):
        ctx.fail(f"{what}: the points are {[p['name'] for p in d['points']]}, expected {list(ref.points)}")
    for p, rp in zip(d["points"], ref.points.values()):
        got = {b["name"]: b["hints"] for b in p["bins"]}
        if got != rp.hints or len(p["bins"]) != len(rp.hints):
            ctx.fail(f"{what}: hints of point {rp.name!r} are {got}, expected {rp.hints}")
        if bool(p["hinted"]) != rp.hinted or bool(g.is_point_covered(rp.name)) != rp.hinted:
            ctx.fail(f"{what}: point {rp.name!r} with hints {rp.hints} is reported hinted={p['hinted']}, covered={g.is_point_covered(rp.name)}")
    if bool(g.is_all_covered()) != all(p.hinted for p in ref.points.values()):
        ctx.fail(f"{what}: is_all_covered is {g.is_all_covered()}, the points are {[p.hinted for p in ref.points.values()]}")
    return d


def targets_for(rng, dom):
    """{name: (target handed to the group, function that reads its value)} and a function that changes the values."""
    dut = DUT({"a": dict(width=8), "b": dict(width=8, out=True)})
    for n in ("a", "b"):
        dut.poke(n, dom.draw(rng))
    t = Target(dom.draw(rng))
    o = Obj(value=dom.draw(rng))
    out = {
        "pin a": (dut.a, lambda: dut.a.value),
        "pin b": (dut.b, lambda: dut.b.value),
        "object": (t, lambda: t.value),
        "holder": (o, lambda: o.value),
    }

    def change():
        for n in ("a", "b"):
            if rng.random() < 0.7:
                dut.poke(n, dom.draw(rng))
        if rng.random() < 0.7:
            t.value = dom.draw(rng)
        if rng.random() < 0.7:
            o.value = dom.draw(rng)

    return dut, out, change


class F01(Check):
    PROP = "F01"
    quick, thorough = 8000, 160000
    need = {"samples": 6000, "bins": 2000, "hits": 10000, "condition lists": 400, "conditions over time": 150, "via clock": 100, "rejected": 300}
    rule = (
        "random groups (built-in conditions, own conditions, lists, conditions over time) over pins and objects, sampled directly or on "
        "every edge of a clocked run; every count is compared with an independent evaluation; distinct by final counts"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        dom = Domain(rng.choice([1, 3, 7, 15]), rng.choice(["int"] * 4 + list(Domain.KINDS)))
        ctx.saw(f"{dom.kind} values")
        dut, targets, change = targets_for(rng, dom)
        g = fc.CovGroup(rng.choice(["g", ""]), disable_sample_when_point_hinted=False)
        ref = RefGroup(False)
        trans = []
        unnamed, alike = [], []
        big = gen.big(ctx, 80, "points", "bins", "conditions")
        easy = big == "points" and rng.random() < 0.6
        for k in range(rng.randint(30, 200) if big == "points" else ctx.up(1, 30) if rng.random() < 0.02 else ctx.up(1, 2 if big else 6)):
            name = f"p{k}"
            target, bins, kw, rp, tr = rand_point(ctx, targets, dom, name, False, True, big)
            if easy and rng.random() < 0.98:  # so that the last points decide
                bins, rp, tr = {"any": fc.CovNe("?")}, RefPoint(name, rp.read, {"any": [lambda x: True]}, False), []
            rp.once = False
            kw.pop("once", None)
            r = rng.random()
            if r < 0.1:  # unnamed, its key is up to the group
                rp.name = None
                if alike and rng.random() < 0.5:  # like another one, of another target
                    bins, preds, tn = rng.choice(alike)
                    target, read = targets[rng.choice([t for t in targets if t != tn])]
                    rp, tr = RefPoint(None, read, preds, False), []
                    ctx.saw("unnamed lookalikes")
                elif not tr:
                    alike.append((bins, rp.bins, next(t for t in targets if targets[t][0] is target)))
            add = rng.choice([g.add_watch_point, g.add_cover_point])
            if rp.name is None:
                before = set(g.cover_points())
                try:
                    add(target, bins, **kw)
                except ValueError:
                    if not any(target is t for t in unnamed):
                        ctx.fail(f"an unnamed point of {target} with bins {list(rp.bins)} is taken for one of another target")
                    continue  # two unnamed points that look the same
                unnamed.append(target)
                new = set(g.cover_points()) - before
                if len(new) != 1:
                    ctx.fail(f"adding an unnamed point added {new}")
                rp.name = new.pop()
            else:
                mine = given(bins)
                if add(target, mine, name=name, **kw) is not g:
                    ctx.fail("add_watch_point does not return its group")
                reused(ctx, mine)
            ref.points[rp.name] = rp
            trans += tr
            ctx.saw("bins", len(rp.bins))
            # what must be rejected, and must leave the group as it was
            r = rng.random()
            try:
                if r < 0.15:
                    add(target, bins, name=rp.name)
                elif r < 0.25:
                    add(target, {"x": fc.Eq(1), "y": 5}, name="bad")
                elif r < 0.35:
                    add(target, {"x": [fc.Eq(1), "no"]}, name="bad")
                elif r < 0.4:
                    add(target, 7, name="bad")
                else:
                    raise KeyError
                ctx.fail("a duplicate name or a bin without a condition was accepted")
            except ValueError:
                ctx.saw("rejected")
            except KeyError:
                pass
        check_group(ctx, g, ref, "before any sample")
        n = ctx.up(1, 1500) if rng.random() < 0.01 and not big else ctx.up(1, 10 if big else 30)
        if rng.random() < 0.3:
            ctx.saw("via clock")
            first = [True]

            def on_rise(_):
                change()
                ref.sample()
                g.sample()

            dut.StepRis(on_rise)

            async def main():
                start_clock(dut)
                for k in range(n):
                    await ClockCycles(dut, 1)

            toffee.run(main())
        else:
            for _ in range(n):
                change()
                ref.sample()
                g.sample()
                if rng.random() < 6 / (n + 24):
                    check_group(ctx, g, ref, f"after {ref.count} samples")
        d = check_group(ctx, g, ref, f"after {ref.count} samples")
        for t in trans:
            if t.calls != ref.count:
                ctx.fail(f"a condition was evaluated {t.calls} times in {ref.count} samples")
        ctx.saw("samples", ref.count)
        ctx.saw("hits", sum(sum(p.hints.values()) for p in ref.points.values()))
        ctx.note({p.name: p.hints for p in ref.points.values()})
        ctx.key([list(p.hints.items()) for p in ref.points.values()])


class F02(Check):
    PROP = "F02"
    quick, thorough = 10000, 200000
    need = {
        "samples": 5000, "suppressed": 3000, "op stop": 300, "op resume": 200, "op reset": 300, "op del": 200, "op add": 500,
        "op clear": 100, "completed": 150, "restarted": 50, "unknown names": 200, "points without bins": 50,
    }
    rule = (
        "random histories of sample, stop, resume, add, reset, delete and clear on groups with every combination of the stopping options; "
        "after each step state and counts are compared with a reference; distinct by history"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        dom = Domain(rng.choice([1, 1, 2, 3]))
        dut, targets, change = targets_for(rng, dom)
        disable = rng.random() < 0.7
        g = fc.CovGroup("g") if disable and rng.random() < 0.5 else fc.CovGroup("g", disable_sample_when_point_hinted=disable)
        ref = RefGroup(disable)
        uid = iter(range(1000))
        hist = []
        trans = []

        def add():
            name = f"p{next(uid)}"
            target, bins, kw, rp, tr = rand_point(ctx, targets, dom, name, disable, True)
            if rng.random() < 0.6:  # points that are easy to cover
                bins = {"any": fc.Ge(0), "some": fc.Le(dom.draw(rng))}
                lim = bins["some"].value
                rp = RefPoint(name, rp.read, {"any": [lambda x: True], "some": [lambda x: x <= lim]}, rp.once)
                tr = []
            elif rng.random() < 0.1:  # a point without bins is always covered
                bins, rp, tr = {}, RefPoint(name, rp.read, {}, rp.once), []
                ctx.saw("points without bins")
            mine = given(bins)
            g.add_watch_point(target, mine, name=name, **kw)
            reused(ctx, mine)
            ref.points[name] = rp
            if ref.done:
                ctx.saw("restarted")
            ref.done = False
            trans.append((name, tr))

        for _ in range(rng.randint(1, 3) if not gen.big(ctx, 200, True) else rng.randint(30, 150)):
            add()
        for _ in range(ctx.up(3, 40)):
            r = rng.random()
            if r < 0.6:
                op = "sample"
                change()
                was = ref.done
                if ref.sample():
                    ctx.saw("samples")
                else:
                    ctx.saw("suppressed")
                g.sample()
                if ref.done and not was:
                    ctx.saw("completed")
            elif r < 0.67:
                op = "stop"
                g.stop_sample()
                ref.stopped = True
            elif r < 0.75:
                if ref.done:
                    continue  # what resuming a completed group means is open
                op = "resume"
                g.resume_sample()
                ref.stopped = False
            elif r < 0.85:
                op = "add"
                add()
            elif r < 0.91 and ref.points:
                op = "reset"
                n = rng.choice(list(ref.points))
                g.reset_point(n)
                ref.points[n].reset()
                if ref.done:
                    ctx.saw("restarted")
                ref.done = False
            elif r < 0.95 and len(ref.points) > 1:
                op = "del"
                n = rng.choice(list(ref.points))
                g.del_point(n)
                del ref.points[n]
                if not ref.done and all(p.hinted and p.once for p in ref.points.values()):
                    # the next sample decides
                    change()
                    for x in (g, ref):
                        x.sample()
            elif r < 0.97:
                op = "clear"
                g.clear()
                ref.clear()
                add()
            else:
                op = "unknown"
                f = rng.choice([g.del_point, g.reset_point, g.is_point_covered, g.cover_point])
                try:
                    f("no such point")
                    ctx.fail(f"{f.__name__} accepts a name that is not there")
                except ValueError:
                    ctx.saw("unknown names")
            ctx.saw(f"op {op}")
            hist.append(op)
            what = f"after {hist[-8:]} (disable={disable})"
            d = check_group(ctx, g, ref, what)
            want = ref.stopped or ref.done
            if bool(g.sample_stoped()) != want:
                ctx.fail(f"{what}: sample_stoped is {g.sample_stoped()}, expected {want}")
            if (d["__sample_calln__"], d["__sample_count__"]) != (ref.calls, ref.count):
                ctx.fail(f"{what}: counted {d['__sample_count__']} samples of {d['__sample_calln__']} calls, expected {ref.count} of {ref.calls}")
            if bool(d["__stop_sample__"]) != ref.stopped:
                ctx.fail(f"{what}: the report says stopped={d['__stop_sample__']}")
        ctx.note(hist)
        ctx.key(hist)


# functions that are marked; their place in this file is found with ast


def plain_one():
    return 1


def plain_two(a, b=2):
    c = a
    return b + c


async def coro_one():
    pass


class Case:
    def method(self):
        pass

    async def amethod(self):
        return 1

    @classmethod
    def cmethod(cls):
        return 2

    @staticmethod
    def smethod():
        x = 3
        return x


def places():
    src = inspect.getsourcefile(Target)
    tree = ast.parse(open(src).read())
    out = {}

    def walk(body, cls):
        for n in body:
            if isinstance(n, ast.ClassDef):
                walk(n.body, n.name)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                first = min([n.lineno] + [d.lineno for d in n.decorator_list])
                out[(cls, n.name)] = f"{src}:{first}-{n.end_lineno}::" + (f"{cls}::" if cls else "") + n.name

    walk(tree.body, None)
    return out


def markable():
    p = places()
    c = Case()
    return [
        (plain_one, p[(None, "plain_one")]),
        (plain_two, p[(None, "plain_two")]),
        (coro_one, p[(None, "coro_one")]),
        (c.method, p[("Case", "method")]),
        (Case.method, p[("Case", "method")]),
        (c.amethod, p[("Case", "amethod")]),
        (Case.cmethod, p[("Case", "cmethod")]),
        (c.cmethod, p[("Case", "cmethod")]),
        (Case.smethod, p[("Case", "smethod")]),
        ("test_by_name", "test_by_name"),
        ("file.py:1-2::test", "file.py:1-2::test"),
    ]


def matching(pattern, names):
    pattern = pattern.strip()
    if pattern in names:
        return [pattern]
    if "*" in pattern or "?" in pattern:
        return [n for n in names if fnmatch.fnmatchcase(n, pattern)]
    return [n for n in names if re.match(pattern, n)]


PATTERNS = ["A*", "_*", "Z*", "?B?", "_", "A", "*", "a*", "?", "b?1", "*1", "a", "ab", "zero", "Zero", "[ab]", "a.", "b.1", "x*", "q?", r"w\[1\]", "w", "nothing_here", " a ", "z.*o", "max value", r"\(p\)", "l", "anonymous"]


class F03(Check):
    PROP = "F03"
    quick, thorough = 1500, 30000
    need = {"reports": 2500, "marks": 1500, "marks rejected": 500, "marked bins": 2500, "points": 3000, "covered": 300}
    rule = (
        "random groups, samples and marks (exact names, wildcards, regular expressions, lists, functions of every kind); the report, its "
        "JSON form and the totals are compared with a reference; distinct by report"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        dom = Domain(rng.choice([1, 2, 3]), rng.choice(["int", "int", "int", "str", "none", "float"]))
        dut, targets, change = targets_for(rng, dom)
        disable = rng.random() < 0.5
        name = rng.choice(["grp", "Group A", ""])
        line = inspect.currentframe().f_lineno + 1
        g = fc.CovGroup(name, disable_sample_when_point_hinted=disable)
        here = __file__
        ref = RefGroup(disable)
        marks = {}
        dyn = {}
        pool = markable()
        big = gen.big(ctx, 50, "points", "bins", "functions")
        if big == "functions":
            pool += [(f"test_{k}", f"test_{k}") for k in range(200)]
        for k in range(rng.randint(30, 150) if big == "points" else ctx.up(1, 14) if rng.random() < 0.05 else ctx.up(1, 5)):
            pn = rng.choice([f"p{k}", f"point {k}", f'q"{k}'])
            target, bins, kw, rp, _ = rand_point(ctx, targets, dom, pn, disable, False, big)
            dyn[pn] = rng.random() < 0.2
            if dyn[pn]:
                kw["dynamic_bin"] = True
            mine = given(bins)
            g.add_watch_point(target, mine, name=pn, **kw)
            reused(ctx, mine)
            ref.points[pn] = rp
            marks[pn] = {}
        saved = []
        for _ in range(ctx.up(4, 20)):
            r = rng.random()
            if r < 0.45:
                change()
                ref.sample()
                g.sample()
            elif r < 0.85:
                self.mark(ctx, g, ref, marks, pool)
            elif r < 0.9:
                pn = rng.choice(list(ref.points))
                g.reset_point(pn)
                ref.points[pn].reset()
                ref.done = False
            else:
                saved.append(self.report(ctx, g, ref, marks, dyn, name, here, line, disable))
        saved.append(self.report(ctx, g, ref, marks, dyn, name, here, line, disable))
        for d, text in saved:
            if json.dumps(d, sort_keys=True) != text:
                ctx.fail("a report that was taken earlier changed afterwards")
        d = saved[-1][0]
        for p in d["points"]:  # nor is the group changed through a report
            for b in p["bins"]:
                b["hints"] += 5
            for k in p["functions"]:
                p["functions"][k].append("zz")
        self.report(ctx, g, ref, marks, dyn, name, here, line, disable)

    def mark(self, ctx, g, ref, marks, pool):
        rng = ctx.rng
        fs = rng.sample(pool, rng.randint(1, 3) if len(pool) < 50 or rng.random() < 0.3 else rng.randint(30, 180))
        func = [f for f, _ in fs]
        if len(func) == 1 and rng.random() < 0.7:
            func = func[0]
        elif rng.random() < 0.3:
            func = tuple(func)
        if rng.random() < 0.1:
            how = rng.choice([{}, dict(raise_error=True), dict(raise_error=False)])
            try:
                r = g.mark_function("no such point", func, "*", **how)
                if how.get("raise_error", True):
                    ctx.fail(f"marking a point that does not exist ({how}) raised no error")
                if r is not g:
                    ctx.fail("mark_function does not return its group")
            except ValueError:
                if not how.get("raise_error", True):
                    raise
                ctx.saw("marks rejected")
            return
        pn = rng.choice(list(ref.points))
        names = list(ref.points[pn].bins)
        kw = {}
        pats = [rng.choice(PATTERNS) if rng.random() < 0.45 else rng.choice(names + [names[0][:1] + "*"]) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        pats = [p for p in pats if self.valid(p, names)]
        if not pats or rng.random() < 0.1:
            pats = ["*"]
        elif len(pats) == 1 and rng.random() < 0.7:
            kw["bin_name"] = pats[0]
        else:
            kw["bin_name"] = rng.choice([list, tuple])(pats)
        hit = [matching(p, names) for p in pats]
        ctx.note(("mark", pn, names, pats))
        try:
            g.mark_function(pn, func, **kw)
            ok = True
        except AssertionError:
            ok = False
            ctx.saw("marks rejected")
        if ok != all(hit):
            ctx.fail(f"marking {pats} of {names}: {'accepted' if ok else 'rejected'}, the patterns match {hit}")
        if ok:
            ctx.saw("marks")
            for n in set(sum(hit, [])):
                ctx.saw("marked bins")
                marks[pn].setdefault(n, set()).update(s for _, s in fs)

    @staticmethod
    def valid(p, names):
        try:
            matching(p, names)
            return True
        except re.error:
            return False

    def report(self, ctx, g, ref, marks, dyn, name, here, line, disable):
        d = check_group(ctx, g, ref, "report")
        ctx.saw("reports")
        if json.loads(str(g)) != json.loads(json.dumps(d)) and not self.same_but_order(json.loads(str(g)), json.loads(json.dumps(d))):
            ctx.fail("str() of the group is not the JSON form of its report")
        bins = [n for p in ref.points.values() for n in p.hints.values()]
        want = {
            "bin_num_total": len(bins),
            "bin_num_hints": sum(n > 0 for n in bins),
            "point_num_total": len(ref.points),
            "point_num_hints": sum(p.hinted for p in ref.points.values()),
            "has_once": any(p.once for p in ref.points.values()),
            "name": name or f"{here}:{line}",
            "__lineno__": line,
            "__filename__": here,
            "__disable_sample_when_point_hinted__": disable,
            "__sample_count__": ref.count,
            "__sample_calln__": ref.calls,
        }
        for k, v in want.items():
            ctx.equal(d[k], v, f"{k} of the report")
        if ref.count:
            ctx.equal(bool(d["hinted"]), all(p.hinted for p in ref.points.values()), "hinted of the group's report")
        for p in d["points"]:
            rp = ref.points[p["name"]]
            ctx.saw("points")
            ctx.saw("covered", int(rp.hinted))
            got = {k: sorted(v) for k, v in p["functions"].items()}
            wm = {k: sorted(v) for k, v in marks[p["name"]].items()}
            if got != wm:
                ctx.fail(f"marked functions of {p['name']} are {got}, expected {wm}")
            if bool(p["once"]) != rp.once or bool(p["dynamic_bin"]) != dyn[p["name"]]:
                ctx.fail(f"options of point {p['name']}: once={p['once']} dynamic_bin={p['dynamic_bin']}, expected {rp.once}, {dyn[p['name']]}")
            if [b["name"] for b in p["bins"]] != list(rp.bins):
                ctx.fail(f"bins of {p['name']} are {[b['name'] for b in p['bins']]}, expected {list(rp.bins)}")
        ctx.key(json.dumps([d["points"]], sort_keys=True))
        return d, json.dumps(d, sort_keys=True)

    @staticmethod
    def same_but_order(a, b):
        def norm(d):
            for p in d["points"]:
                p["functions"] = {k: sorted(v) for k, v in p["functions"].items()}
            return d

        return norm(a) == norm(b)
