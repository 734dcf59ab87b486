"""Bundles: connection, reconnection, placeholders, values, write mode, queries, requests, generated code."""

import importlib.util
import itertools
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from collections import Counter, OrderedDict

import toffee
from toffee import *
from checks import Check
from vf import bgen, gen
from vf.core import REPO, capture_logs
from vf.dut import DUT


def pins_of(rng, names, outs=0.25):
    return {
        n: dict(width=rng.choice([1, 1, 2, 4, 8, 8, 16, 32, 64, 128, 0]), out=rng.random() < outs, init=rng.randint(0, 1), both=rng.random() < 0.1)
        for n in names
    }


def all_paths(node):
    return [p for p, _, _ in bgen.leaves(node)]


def is_pin(sig, dut, name):
    return type(sig).__name__ == "XPin" and sig.xdata is dut.xdatas[name] and sig.event is dut.event


def check_binding(ctx, node, bundle, dut, used, access, what):
    """Every leaf of the tree is exactly the DUT signal it should be, or a placeholder."""
    for p in all_paths(node):
        sig = bgen.get(bundle, p)
        if p in used:
            if not is_pin(sig, dut, used[p]):
                ctx.fail(f"{what}: {p} should be the DUT's {used[p]}, it is {sig} ({bgen.describe(node)})")
            ctx.saw("connected leaves")
        else:
            if access:
                ok = sig.value is None
                sig.value = 3
                ok = ok and sig.value is None
                if not ok:
                    ctx.fail(f"{what}: {p} has no signal in the DUT, but reads as {sig.value}")
            else:
                for f in (lambda: sig.value, lambda: setattr(sig, "value", 1)):
                    try:
                        f()
                    except AttributeError:
                        continue
                    ctx.fail(f"{what}: access to the unconnected {p} was not refused")
            ctx.saw("unconnected leaves")
    names = sorted(n for n, _ in bundle.all_signals())
    if names != sorted(all_paths(node)):
        ctx.fail(f"{what}: all_signals lists {names}, expected {sorted(all_paths(node))}")


def check_counts(ctx, dut, conn, what):
    """conn: Counter of DUT names to the number of connected leaves."""
    un = sorted(n for n in dut.xdatas if conn[n] == 0)
    mu = sorted(n for n in dut.xdatas if conn[n] > 1)
    if sorted(Bundle.detect_unconnected_signals(dut)) != un:
        ctx.fail(f"{what}: unconnected signals {sorted(Bundle.detect_unconnected_signals(dut))}, expected {un}")
    if sorted(Bundle.detect_multiple_connections(dut)) != mu:
        ctx.fail(f"{what}: multiple connections {sorted(Bundle.detect_multiple_connections(dut))}, expected {mu}")


def check_lists(ctx, node, b, what):
    """Lists are accessed as Python's lists are."""
    for n, k in [(n, x[1]) for kind in ("slists", "blists") for n, x in node[kind].items()]:
        lst = getattr(b, n)
        items = [lst[i] for i in range(k)]
        for form, got in (("iterating", lambda: list(itertools.islice(iter(lst), k + 2))), ("[:]", lambda: list(lst[:])), ("negative indices", lambda: [lst[i - k] for i in range(k)])):
            got = got()
            if len(got) != k or any(x is not y for x, y in zip(got, items)):
                ctx.fail(f"{what}: {form} of {n} gives {got}, expected {items}")
        ctx.saw("lists")
        try:
            lst[k]
            ctx.fail(f"{what}: {n} has {k} elements, but also one at {k}")
        except IndexError:
            pass
    for n, sub in node["subs"].items():
        check_lists(ctx, sub, getattr(b, n), f"{what}: {n}")


class B01(Check):
    PROP = "B01"
    quick, thorough = 700, 14000
    need = {"connected leaves": 3000, "unconnected leaves": 800, "second instances": 300, "driven": 1500}
    rule = (
        "random trees of signals, signal lists, sub-bundles and bundle lists with prefix, regex and dictionary rules at every level, "
        "DUTs with matching and near-miss names, several instances of each class; distinct by (tree, DUT)"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        if ctx.i % 25 == 24:
            return self.xport(ctx)
        node = bgen.rand_tree(rng, 1 + (ctx.size > 0.3) + (ctx.size > 0.8), big=ctx.i // 40 if ctx.i % 40 == 30 else None)
        names, used = bgen.fit(rng, node, rng.choice([1.0, 1.0, 0.8, 0.4]), extra=rng.randint(0, 8))
        cls = bgen.bundle_class(node)
        dut = DUT(pins_of(rng, names))
        access = rng.random() < 0.8
        ctx.note((bgen.describe(node), names))
        b = bgen.make(cls, node["method"], rng.choice(["from", "set"]))
        if b.bind(dut, *([] if access and rng.random() < 0.5 else [access])) is not b:
            ctx.fail("bind does not return the bundle")
        insts = [(b, dut, used, access, "first instance")]
        conn = {id(dut): (dut, Counter(used.values()))}
        for k in range(rng.choice([0, 1, 1, 2])):
            # other instances: on the same DUT, on one with the same names, on one with other signals missing
            ctx.saw("second instances")
            if rng.random() < 0.4:
                d2, u2 = dut, used
            else:
                keep = [n for n in names if rng.random() < 0.7]
                d2, u2 = DUT(pins_of(rng, keep)), {p: n for p, n in used.items() if n in keep}
            acc2 = rng.random() < 0.7
            b2 = bgen.make(cls, node["method"], rng.choice(["from", "set"])).bind(d2, acc2)
            insts.append((b2, d2, u2, acc2, f"instance {k + 2}"))
            conn.setdefault(id(d2), (d2, Counter()))[1].update(u2.values())
        unbound = bgen.make(cls, node["method"])
        for b, d, u, a, what in insts:
            check_binding(ctx, node, b, d, u, a, what)
            check_lists(ctx, node, b, what)
        for p in all_paths(node):
            if bgen.get(unbound, p) is not None and type(bgen.get(unbound, p)).__name__ in ("XPin", "DummySignal"):
                ctx.fail(f"an instance that was never bound has a connected {p}")
        for d, c in conn.values():
            check_counts(ctx, d, c, "after binding")
        # values go to and come from exactly the connected DUT signal
        for b, d, u, a, what in insts:
            for p, n in u.items():
                v = rng.getrandbits(8)
                before = {k: x.value for k, x in d.xdatas.items()}
                bgen.get(b, p).value = v
                after = {k: x.value for k, x in d.xdatas.items()}
                want = dict(before) if d.xdatas[n]._out else {**before, n: v}
                if after != want:
                    ctx.fail(f"{what}: writing {v} to {p} ({n}) changed the DUT from {before} to {after}")
                v = rng.getrandbits(8)
                d.poke(n, v)
                if bgen.get(b, p).value != v:
                    ctx.fail(f"{what}: {p} reads {bgen.get(b, p).value}, the DUT drives {n}={v}")
                ctx.saw("driven")
        if len(used) > 1:
            ctx.key(bgen.describe(node), names)

    def xport(self, ctx):
        rng = ctx.rng
        names = rng.sample(bgen.SIG, rng.randint(1, 6))
        dut = DUT({"p_" + n: {} for n in names})

        class XPort:
            def GetKeys(self):
                return list(names)

            def __getitem__(self, k):
                return getattr(dut, "p_" + k)

        b = Bundle.from_xport(XPort())
        for n in names:
            v = rng.getrandbits(6)
            getattr(b, n).value = v
            if dut.xdatas["p_" + n].value != v:
                ctx.fail(f"bundle made from a port: {n} is not connected")
        cls = Bundle.new_class_from_xport(XPort())
        b = cls.from_prefix("p_").bind(dut)
        b2 = Bundle.new_class_from_list(names).from_dict({n: "p_" + n for n in names}).bind(dut)
        for x in (b, b2):
            for n in names:
                if not is_pin(getattr(x, n), dut, "p_" + n):
                    ctx.fail(f"class made from names: {n} is {getattr(x, n)}")
        ctx.saw("ports")
        # a bundle that declares what a design has under a prefix
        pre = rng.choice(bgen.PREF)
        dnames = {pre + n for n in names} | {rng.choice(["z", "io", "q_"]) + n for n in rng.sample(bgen.SIG, 3)}
        dut = DUT({n: {} for n in dnames})

        class XDataPin:
            def __init__(self, pin):
                self.__dict__["pin"] = pin

            def __getattr__(self, k):
                return getattr(self.__dict__["pin"], k)

            def __setattr__(self, k, v):
                setattr(self.pin, k, v)

        for n in dnames:
            setattr(dut, n, XDataPin(getattr(dut, n)))
        dut.unrelated = 5
        want = {n[len(pre):] for n in dnames if n.startswith(pre)}
        bs = [Bundle.from_prefix(pre, dut) for _ in range(2)]
        for b in bs:
            ctx.equal(sorted(n for n, _ in b.all_signals()), sorted(want), f"signals of a bundle made for {sorted(dnames)} with prefix {pre!r}")
            b.bind(dut)
            for n in want:
                ctx.expect(getattr(b, n) is getattr(dut, pre + n), f"bundle made for a design: {n} is {getattr(b, n)}, not {pre + n}")

        # ... as a part of another one
        class Outer(Bundle):
            own = Signal()
            part = Bundle.from_prefix(pre, dut)

        for o in [Outer.from_prefix("").bind(dut), Outer.from_prefix("").bind(dut)]:
            got = sorted(n for n, _ in o.all_signals())
            ctx.equal(got, sorted(["own"] + ["part." + n for n in want]), f"signals of a bundle with a part made for {sorted(dnames)}, prefix {pre!r}")
            for n in want - {"own"}:
                ctx.expect(getattr(o.part, n) is getattr(dut, pre + n), f"part made for a design: {n} is {getattr(o.part, n)}, not {pre + n}")


class B02(Check):
    PROP = "B02"
    quick, thorough = 400, 8000
    need = {"rebinds": 500, "connected leaves": 2500, "stale checks": 400, "steps": 300}
    rule = (
        "a bundle bound several times to DUTs in which other signals are missing, or with another rule, is compared with a fresh one; "
        "the left DUTs must not be reachable any more; non-trivial if the set of connected leaves changed; distinct by sequence"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        node = bgen.rand_tree(rng, 2, big=ctx.i // 15 if ctx.i % 15 == 10 else None)
        plans = []
        names, used = bgen.fit(rng, node, 1.0, extra=3)
        cls = bgen.bundle_class(node)
        for _ in range(rng.randint(2, 4)):
            keep = [n for n in names if rng.random() < rng.choice([0.3, 0.7, 1.0])]
            plans.append((keep, {p: n for p, n in used.items() if n in keep}, rng.random() < 0.75))
        reuse = rng.random() < 0.3
        ctx.note((bgen.describe(node), [p[0] for p in plans]))
        state = {}

        async def test():
            duts = []
            b = bgen.make(cls, node["method"])
            other = bgen.make(cls, node["method"])
            for k, (keep, u, acc) in enumerate(plans):
                d = DUT(pins_of(rng, keep, outs=0))
                if reuse and k == len(plans) - 1:
                    d, (keep, u, _) = duts[0], plans[0]
                duts.append(d)
                with capture_logs() as logs:
                    b.bind(d, acc)
                if logs.at("ERROR", "CRITICAL"):
                    ctx.fail(f"bind number {k + 1} reports an error: {logs.at('ERROR', 'CRITICAL')[0]}")
                if k:
                    ctx.saw("rebinds")
                if k == 0:
                    other.bind(d, True)
                check_binding(ctx, node, b, d, u, acc, f"bind number {k + 1}")
                # the first DUT keeps the other instance
                check_binding(ctx, node, other, duts[0], plans[0][1], True, f"other instance after bind {k + 1}")
                for j, dj in enumerate(duts):
                    c = Counter()
                    if dj is d:
                        c.update(u.values())
                    if dj is duts[0]:
                        c.update(plans[0][1].values())
                    check_counts(ctx, dj, c, f"DUT {j} after bind {k + 1}")
                before = [{n: len(x.writes) for n, x in dj.xdatas.items()} for dj in duts]
                if acc:
                    b.set_all(1)
                else:
                    for p in u:
                        bgen.get(b, p).value = 1
                for j, dj in enumerate(duts):
                    if dj is d:
                        for p, n in u.items():
                            if len(dj.xdatas[n].writes) != before[j][n] + 1:
                                ctx.fail(f"after bind {k + 1}: writing the bundle did not reach {n}")
                    else:
                        ctx.saw("stale checks")
                        for n, x in dj.xdatas.items():
                            if len(x.writes) != before[j][n]:
                                ctx.fail(f"after bind {k + 1}: writing the bundle reaches {n} of the DUT of bind {j + 1}")
            # the bundle follows the clock of the last DUT
            d = duts[-1]
            if plans[-1][1] if not (reuse) else plans[0][1]:
                start_clock(d)
                waits = [b.step]
                for p in all_paths(node):
                    if "." in p and p in state["last"]:
                        waits.append(bgen.get(b, p.rsplit(".", 1)[0]).step)
                for w in waits[:4]:
                    c = d.cycle
                    await w(2)
                    if d.cycle != c + 2:
                        ctx.fail(f"step(2) took {d.cycle - c} cycles of the bound DUT")
                    ctx.saw("steps")
                for dj in duts:
                    if dj is not d and dj.cycle:
                        ctx.fail("a DUT that is not bound any more was clocked")

        state["last"] = plans[0][1] if reuse else plans[-1][1]
        toffee.run(test)
        if len({frozenset(p[1]) for p in plans}) > 1:
            ctx.key(bgen.describe(node), [p[0] for p in plans], reuse)


class B03(Check):
    PROP = "B03"
    quick, thorough = 2500, 50000
    need = {"missing": 1500, "connected": 2000, "complete binds": 40, "wrong entries": 300}
    rule = (
        "random trees and DUTs in which every, some or no signal is missing; non-trivial if some signal is missing and some is not; "
        "distinct by (tree, DUT, access mode)"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        node = bgen.rand_tree(rng, 2, big=ctx.i // 80 if ctx.i % 80 == 70 else None)
        names, used = bgen.fit(rng, node, rng.choice([1.0, 0.9, 0.5, 0.1, 0]), extra=2)
        wrong, right = bgen.spoil_dicts(rng, node)
        with capture_logs() as cap:
            cls = bgen.bundle_class(node)
            b = bgen.make(cls, node["method"], rng.choice(["from", "set"]))
        said = cap.at("WARNING", "ERROR", "CRITICAL")
        for k in wrong:
            if not any(re.search(rf"(?<!\w){re.escape(k)}(?!\w)", m) for m in said):
                ctx.fail(f"{k} in a connection dictionary names no signal, it was not reported: {said} ({bgen.describe(node)})")
        if said and not wrong:
            ctx.fail(f"a warning although all dictionaries are right: {said}")
        for k in right - wrong:
            if any(repr(k) in m for m in said):
                ctx.fail(f"{k} in a connection dictionary names a signal, and was reported: {said} ({bgen.describe(node)})")
        ctx.saw("wrong entries", len(wrong))
        dut = DUT(pins_of(rng, names))
        top = rng.choice(["", "", "top", "adder_bundle"])
        if top:
            b.set_name(top)
        access = rng.choice([True, False, None])
        with capture_logs() as cap:
            b.bind(dut, *([] if access is None else [access]))
        warned = []
        for m in cap.at("WARNING"):
            g = re.search(r'connected to "([^"]*)"', m)
            if g:
                warned.append((g[1], m))
        missing = [p for p in all_paths(node) if p not in used]
        pre = lambda p: f"{top}.{p}" if top else p
        ctx.note((bgen.describe(node), names, missing))
        if sorted(w for w, _ in warned) != sorted(map(pre, missing)):
            ctx.fail(f"missing signals {sorted(map(pre, missing))}, warned about {sorted(w for w, _ in warned)} ({bgen.describe(node)})")
        # with prefixes only, the warning gives the name that the DUT would need
        prefix_name = {}
        for p, n, ms in bgen.leaves(node):
            if all(m[0] == "prefix" for m in ms):
                prefix_name[pre(p)] = "".join(m[1] for m in ms) + n
        for w, m in warned:
            if w in prefix_name and prefix_name[w] not in m:
                ctx.fail(f"the warning about {w} does not name {prefix_name[w]}: {m}")
        ctx.saw("missing", len(missing))
        ctx.saw("connected", len(used))
        check_binding(ctx, node, b, dut, used, access is not False, "bind")
        check_counts(ctx, dut, Counter(used.values()), "bind")
        if access is not False:
            before = {n: x.value for n, x in dut.xdatas.items()}
            d = flat(b.as_dict())
            for p in all_paths(node):
                want = None if p in missing else dut.xdatas[used[p]].value
                if d.get(p, "(absent)") != want:
                    ctx.fail(f"as_dict has {d.get(p, '(absent)')} for {p}, expected {want}")
            b.set_all(1)
            b.randomize_all()
            for p in missing:
                bgen.get(b, p).value = 5
                if bgen.get(b, p).value is not None:
                    ctx.fail(f"the placeholder {p} kept a value")
            for n in names:
                if n not in used.values() and dut.xdatas[n].value != before[n]:
                    ctx.fail(f"{n} is not connected and was written")
        # the text of a bundle has all its signals
        text = str(b)
        for p in all_paths(node):
            x = bgen.get(b, p)
            part = f"{re.split(r'[.[]', p)[-1].rstrip(']')}: {'' if x is bgen.ABSENT else x}"
            if part not in text:
                ctx.fail(f"the text of a bundle has no {part!r} for {p}: {text}")
        ctx.saw("texts")
        if not missing:
            ctx.saw("complete binds")
        if missing and used:
            ctx.key(bgen.describe(node), names, access)


def flat(d, path=""):
    """{leaf path: value} of a nested as_dict."""
    out = {}
    for k, v in d.items():
        p = f"{path}.{k}" if path else k
        if isinstance(v, dict):
            out.update(flat(v, p))
        elif isinstance(v, list):
            for i, x in enumerate(v):
                if isinstance(x, dict):
                    out.update(flat(x, f"{p}[{i}]"))
                else:
                    out[f"{p}[{i}]"] = x
        else:
            out[p] = v
    return out


def rand_item(rng, node, paths, values, multilevel, path=""):
    """A dictionary for assign, and what it has to do: {leaf path: value}."""
    j = lambda p, x: f"{p}.{x}" if p else x
    item, want = {}, {}
    keep = lambda: rng.random() < 0.6
    for s in node["signals"]:
        if keep():
            item[s] = want[j(path, s)] = next(values)
    for ln, (f, k, r) in node["slists"].items():
        if keep():
            vs = [next(values) for _ in range(k)]
            item[ln] = vs if rng.random() < 0.7 else tuple(vs)
            for i, v in enumerate(vs):
                want[j(path, f"{ln}[{i}]")] = v
    for sn, sub in node["subs"].items():
        if keep():
            it, w = rand_item(rng, sub, paths, values, multilevel, j(path, sn))
            if multilevel:
                item[sn] = it
            else:
                item.update({f"{sn}.{k}": v for k, v in it.items()})
            want.update(w)
    for ln, (f, k, r, el) in node["blists"].items():
        if keep():
            its = [rand_item(rng, el, paths, values, multilevel, j(path, f"{ln}[{i}]")) for i in range(k)]
            if multilevel or rng.random() < 0.5:
                item[ln] = [x for x, _ in its]
            else:
                for i, (x, _) in enumerate(its):
                    item.update({f"{ln}[{i}].{k2}": v for k2, v in x.items()})
            for _, w in its:
                want.update(w)
    ks = list(item.items())
    rng.shuffle(ks)
    return dict(ks), want


class B04(Check):
    PROP = "B04"
    quick, thorough = 3000, 60000
    need = {"assigned": 3000, "untouched": 2000, "stars": 150, "unknown keys": 150, "round trips": 400}
    rule = (
        "random trees, nested and flat dictionaries over random subsets of the leaves, with and without '*', unknown keys and values up "
        "to 2**128; all DUT signals are compared with the prediction; distinct by (tree, dictionary)"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        node = bgen.rand_tree(rng, 2, big=ctx.i // 80 if ctx.i % 80 == 70 else None)
        names, used = bgen.fit(rng, node, rng.choice([1.0, 1.0, 0.7]), extra=2)
        cls = bgen.bundle_class(node)
        outs = set()
        dut = DUT(pins_of(rng, names, outs=0))
        b = bgen.make(cls, node["method"]).bind(dut)
        values = iter(lambda: rng.choice([0, 1, rng.getrandbits(8), rng.getrandbits(128)]), None)
        for _ in range(rng.randint(1, 4)):
            multi = rng.random() < 0.5
            item, want = rand_item(rng, node, None, values, multi)
            full = {p: x for p, x in want.items()}
            star = rng.random() < 0.3
            if star:
                v = next(values)
                full = {**{p: v for p in used}, **want}
                pairs = list(item.items())
                pairs.insert(rng.randint(0, len(pairs)), ("*", v))
                item = dict(pairs)
                ctx.saw("stars")
            elif multi and node["subs"] and rng.random() < 0.3:
                # '*' inside a sub-bundle is about that sub-bundle only
                sn = rng.choice(list(node["subs"]))
                v = next(values)
                sub = dict(item.get(sn, {}))
                sub["*"] = v
                item[sn] = sub
                for p in used:
                    if p.startswith(sn + ".") and p not in want:
                        full[p] = v
                ctx.saw("stars")
            unknown = rng.random() < 0.3
            if unknown:
                bad = rng.choice(["nope", "sub.nope", "nope.a", "vec[9].a", "a.b", "*x", "**", "Nope", ""])
                dotted = [p for p in all_paths(node) if "." in p]
                if multi and dotted and rng.random() < 0.4:
                    # the path of a signal is no name of a nested dictionary
                    bad = rng.choice(dotted)
                    sn = bad.split(".")[0]
                    if sn in node["subs"] and bad.count(".") > 1 and rng.random() < 0.6:
                        into, bad = sn, bad.split(".", 1)[1]
                    else:
                        into = None
                    pairs = list((item.get(into, {}) if into else item).items())
                    pairs.insert(rng.randint(0, len(pairs)), (bad, 7))
                    item = {**item, into: dict(pairs)} if into else dict(pairs)
                    ctx.saw("unknown keys")
                elif bad in item or bgen_known(node, bad):
                    unknown = False
                else:
                    pairs = list(item.items())
                    pairs.insert(rng.randint(0, len(pairs)), (bad, 7))
                    item = dict(pairs)
                    ctx.saw("unknown keys")
            before = {n: x.value for n, x in dut.xdatas.items()}
            copy = repr(item)
            ctx.note((multi, item))
            with capture_logs() as cap:
                b.assign(item, multi) if not multi or rng.random() < 0.5 else b.assign(item)
            if repr(item) != copy:
                ctx.fail(f"assign changed the dictionary of the caller from {copy} to {item}")
            expect = dict(before)
            for p, v in full.items():
                if p in used:
                    expect[used[p]] = v
            after = {n: x.value for n, x in dut.xdatas.items()}
            if after != expect:
                d = [(n, before[n], expect[n], after[n]) for n in after if after[n] != expect[n]]
                ctx.fail(f"assign({item}, multilevel={multi}): (signal, before, expected, after) {d[:4]}")
            errs = cap.at("ERROR", "CRITICAL")
            if bool(errs) != unknown:
                ctx.fail(f"assign({item}, multilevel={multi}) logged {errs}")
            if unknown and not any(bad.split(".")[-1] in e for e in errs):
                ctx.fail(f"the error does not name the unknown {bad}: {errs}")
            ctx.saw("assigned", len(full))
            ctx.saw("untouched", len(before) - len(full))
        # reading back, in both forms
        value = lambda p: dut.xdatas[used[p]].value if p in used else None
        nested, one = b.as_dict(), b.as_dict(multilevel=False)
        want = {p: value(p) for p in all_paths(node)}
        if flat(nested) != want:
            ctx.fail(f"as_dict() is {nested}, the DUT has {want}")
        if any(isinstance(v, dict) for v in one.values()) or flat(one) != want:
            ctx.fail(f"as_dict(multilevel=False) is {one}, the DUT has {want}")
        for d, multi in ((nested, True), (one, False)):
            for x in dut.xdatas.values():
                x.value = 99
            b.assign(d, multi)
            got = {p: value(p) for p in all_paths(node)}
            if got != want:
                ctx.fail(f"as_dict followed by assign (multilevel={multi}) gives {got}, expected {want}")
            ctx.saw("round trips")
        # lists of a wrong length
        if node["slists"] or node["blists"]:
            ln = rng.choice(list(node["slists"]) + list(node["blists"]))
            k = (node["slists"] if ln in node["slists"] else node["blists"])[ln][1]
            # (an entry that may be assigned to a bundle as well as to a signal)
            other = lambda: next(values) if ln in node["slists"] else {"*": next(values)}
            vs = [other() for _ in range(rng.choice([k + 1, k - 1, k + 5]))]
            before = {n: x.value for n, x in dut.xdatas.items()}
            err = None
            try:
                b.assign({ln: vs}, rng.random() < 0.5)
            except Exception as e:
                err = e
            if err is None:
                ctx.fail(f"assigning {len(vs)} values to the {k} elements of {ln} was accepted")
            if before != {n: x.value for n, x in dut.xdatas.items()}:
                ctx.fail(f"assigning {len(vs)} values to the {k} elements of {ln} was refused, but signals were written")
            ctx.saw("wrong lengths")
        # objects that assign themselves
        seen = []

        class Item:
            def __bundle_assign__(self, bundle):
                seen.append(bundle)

        b.assign(Item())
        if len(seen) != 1 or seen[0] is not b:
            ctx.fail(f"an object with its own assignment got {seen}")
        for (sn, sub) in node["subs"].items():
            b.assign({sn: Item()})
            if len(seen) != 2 or seen[1] is not getattr(b, sn):
                ctx.fail(f"an object with its own assignment for {sn} got {seen}")
            break
        ctx.key(bgen.describe(node), names)


def bgen_known(node, key):
    first = key.split(".")[0].split("[")[0]
    return first in node["signals"] or first in node["slists"] or first in node["subs"] or first in node["blists"]


class B05(Check):
    PROP = "B05"
    quick, thorough = 2500, 50000
    need = {"set": 1500, "randomized": 1500, "outputs": 800, "excluded": 300, "modes": 800, "modes of parts": 200}
    rule = (
        "random trees on DUTs with inputs, outputs and missing signals of many widths; set_all, randomize_all with ranges, exclusions "
        "and random functions, write modes of the bundle and of parts of it in the class, before and after bind and rebind; distinct by (tree, DUT, parameters)"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        node = bgen.rand_tree(rng, 2)
        names, used = bgen.fit(rng, node, rng.choice([1.0, 0.8]), extra=2)
        cls = bgen.bundle_class(node)
        dut = DUT(pins_of(rng, names, outs=0.4))
        due = {p: None for p in used}
        modes = {"imme": (WriteMode.Imme, "set_write_mode_as_imme"), "rise": (WriteMode.Rise, "set_write_mode_as_rise"),
                 "fall": (WriteMode.Fall, "set_write_mode_as_fall")}

        def parts(node, path=""):
            for n, sub in node["subs"].items():
                yield path + n
                yield from parts(sub, path + n + ".")
            for n, (_, k, _, el) in node["blists"].items():
                for e in range(k):
                    yield f"{path}{n}[{e}]"
                    yield from parts(el, f"{path}{n}[{e}].")

        def setmode(m, part=""):
            o = bgen.get(b, part) if part else b
            r = o.set_write_mode(modes[m][0]) if rng.random() < 0.5 else getattr(o, modes[m][1])()
            if r is not o:
                ctx.fail("setting the write mode does not return the bundle")
            due.update({p: m for p in due if not part or p.startswith(part + ".")})

        def checkmode(d):
            for n, x in d.xdatas.items():
                want = {due[p] for p, u in used.items() if u == n} if not x._out else set()
                if x.mode not in (want or {None}):
                    ctx.fail(f"write mode of {'output' if x._out else 'input'} {n} is {x.mode}, expected {want}")
                ctx.saw("modes")

        def somemodes():
            for _ in range(rng.choice([0, 1, 1, 2])):
                below = list(parts(node))
                part = rng.choice(below) if below and rng.random() < 0.5 else ""
                setmode(rng.choice(["imme", "rise", "fall"]), part)
                ctx.saw("modes of parts", part != "")

        b = cls
        if node["subs"] and node.get("made") not in ("init", "early") and rng.random() < 0.2:
            # in the class
            setmode(rng.choice(["imme", "rise", "fall"]), rng.choice(list(node["subs"])))
        b = bgen.make(cls, node["method"])
        somemodes()
        b.bind(dut)
        checkmode(dut)
        somemodes()
        checkmode(dut)
        if rng.random() < 0.4:
            d2 = DUT(pins_of(rng, names, outs=0.4))
            b.bind(d2)
            checkmode(d2)
            dut = d2
        ins = {p: n for p, n in used.items() if not dut.xdatas[n]._out}
        ctx.saw("outputs", len(used) - len(ins))

        def writes():
            return {n: len(x.writes) for n, x in dut.xdatas.items()}

        def check_writes(before, paths, what):
            for n, x in dut.xdatas.items():
                w = x.writes[before[n] :]
                due = [p for p in paths if ins.get(p) == n]
                if bool(w) != bool(due):
                    ctx.fail(f"{what}: {'output' if x._out else 'input'} {n} was written {len(w)} times, expected {len(due)}")

        for _ in range(rng.randint(1, 3)):
            v = rng.choice([0, 1, rng.getrandbits(64)])
            w = writes()
            r = b.set_all(v)
            if r is not b:
                ctx.fail("set_all does not return the bundle")
            check_writes(w, ins, f"set_all({v})")
            for p, n in ins.items():
                if dut.xdatas[n].value != v:
                    ctx.fail(f"set_all({v}): {n} is {dut.xdatas[n].value}")
                ctx.saw("set")
            ex = rng.sample(all_paths(node), rng.randint(0, min(4, len(all_paths(node)))))
            if rng.random() < 0.4:
                # names that exclude nothing
                near = [q for p in all_paths(node) for q in (p.split(".")[0], p.split("[")[0], p.split(".")[-1], p[:-1], p + "x", "x." + p, p.upper())]
                ex += [q for q in rng.sample(near, min(4, len(near))) if q not in all_paths(node)]
                rng.shuffle(ex)
            rangev = rng.choice([None, None, (0, 0), (3, 9), (2**40, 2**41), (-4, 4)])
            calls = []

            def rf(lo, hi):
                calls.append((lo, hi))
                return rng.choice([lo, hi])

            kw = {}
            if rangev is not None:
                kw["value_range"] = rangev
            if ex or rng.random() < 0.3:
                kw["exclude_signals"] = list(ex)
            custom = rng.random() < 0.6
            if custom:
                kw["random_func"] = rf
            w = writes()
            ctx.note((kw, {p: (dut.xdatas[n]._w, dut.xdatas[n]._out) for p, n in used.items()}))
            b.randomize_all(**kw)
            due = [p for p in ins if p not in ex]
            check_writes(w, due, f"randomize_all({kw})")
            ctx.saw("excluded", len(ex))
            want_calls = []
            for p in due:
                x = dut.xdatas[ins[p]]
                lo, hi = rangev if rangev is not None else (0, 2 ** max(1, x._w) - 1)
                want_calls.append((lo, hi))
                if not lo <= x.value <= hi:
                    ctx.fail(f"randomize_all({kw}): {p} of width {x._w} got {x.value}")
                ctx.saw("randomized")
            if custom and sorted(calls) != sorted(want_calls):
                ctx.fail(f"randomize_all({kw}): random function was asked for {sorted(calls)}, expected {sorted(want_calls)}")
        # the default draws from the whole range
        one = [p for p in ins if dut.xdatas[ins[p]]._w <= 1]
        if one and ctx.i % 10 == 0:
            vals = set()
            for _ in range(40):
                b.randomize_all()
                vals.add(dut.xdatas[ins[one[0]]].value)
            if vals != {0, 1}:
                ctx.fail(f"randomize_all gave the one-bit {one[0]} only {vals} in 40 calls")
        ctx.key(bgen.describe(node), names, [(x._w, x._out) for x in dut.xdatas.values()])


class B06(Check):
    PROP = "B06"
    quick, thorough = 2500, 50000
    need = {"requests": 2500, "conditions": 500, "blocked cycles": 500, "returns": 700, "callables": 300, "rebound": 60}
    rule = (
        "lists of request dictionaries and callables with conditions that hold at once, later, or at the last request, functions, one or "
        "several returned bundles; the cycle, the data and the writes of every request are predicted; distinct by plan"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        node = bgen.rand_tree(rng, rng.choice([0, 1]))
        names, used = bgen.fit(rng, node, 1.0, extra=1)
        cls = bgen.bundle_class(node)
        dut = DUT(pins_of(rng, names, outs=0))
        b = bgen.make(cls, node["method"])
        extra = DUT({"q_v": {}})
        rebound = rng.random() < 0.3
        if rebound:
            for _ in range(rng.randint(1, 2)):
                b.bind(rng.choice([DUT(pins_of(rng, names, outs=0)), dut]))
            ctx.saw("rebound")
        b.bind(dut)
        other = bgen.make(cls, node["method"]).bind(dut)
        values = iter(lambda: rng.getrandbits(16), None)
        if not used:
            return
        big = bool(gen.big(ctx, 60, True))
        for _ in range(rng.randint(1, 3)):
            base = dut.cycle
            log, plan, reqs = [], [], []
            truth = rng.choice([[(False, True)], [(False, True), (0, 1), ("", "x"), (None, [0]), ([], (1,)), (0.0, 2), ({}, {"a": 1}), (None, -1)]])
            shared = {}
            stars = False
            for k in range(rng.randint(50, 600) if big else ctx.up(1, 12)):
                item, want = rand_item(rng, node, None, values, True)
                if rng.random() < 0.1:
                    v = next(values)
                    stars = True
                    item["*"] = v
                    want = {**{p: v for p in used}, **want}
                kind = rng.choice(["dict", "dict", "dict", "call", "callnone"]) if rng.random() < 0.95 else "none"
                cond = None
                if rng.random() < 0.35:
                    cond = rng.choice([0, 0, 1, 2, 5, 0, 0, 1, 2, rng.randint(0, 20)])
                nf = rng.choice([None, None, 1, 2, 0]) if rng.random() < 0.95 else rng.randint(3, 20)
                rb = rng.choice([None, 1, 2, 1]) if rng.random() < 0.95 else rng.randint(3, 12)
                if rb is not None:
                    # parts of the bundle are bundles, too
                    rb = [rng.choice(list(node["subs"])) if node["subs"] and rng.random() < 0.3 else "" for _ in range(rb)]
                plan.append((kind, item, want, cond, nf, rb))

            def mkreq(k):
                kind, item, want, cond, nf, rb = plan[k]
                r = dict(item)
                if cond is not None:
                    seen = []

                    def cf(cycle, bundle, args, k=k, cond=cond, seen=seen):
                        seen.append(cycle)
                        log.append(("cond", k, cycle, bundle is b, args))
                        return truth[(k + cond) % len(truth)][len(seen) > cond]

                    r["__condition_func__"] = cf
                    if k % 2:
                        r["__condition_args__"] = ("args", k)
                if nf is not None:
                    look = lambda: tuple(dut.xdatas[n].value for n in names)
                    fs = [lambda c, bu, k=k, j=j: (log.append(("func", k, j, c, bu is b)), (k, j, look()))[1] for j in range(max(1, nf))]
                    r["__funcs__"] = fs if nf else fs[0]
                if rb is not None:
                    rbs = [bgen.get(o, q) if q else o for q, o in zip(rb, [b, other] * len(rb))]
                    r["__return_bundles__"] = rbs[0] if len(rbs) == 1 and k % 5 else rbs
                if kind == "call" and k % 3 == 0:
                    # a dictionary that the caller keeps
                    shared[k] = (r, dict(r))
                return r if k % 4 else OrderedDict(r)

            for k, pl in enumerate(plan):
                if pl[0] == "dict":
                    reqs.append(mkreq(k))
                elif pl[0] == "none":
                    reqs.append(None)
                elif pl[0] == "call":
                    reqs.append(lambda cycle, bundle, k=k: (log.append(("call", k, cycle, bundle is b)), mkreq(k))[1])
                else:
                    reqs.append(lambda cycle, bundle, k=k: log.append(("call", k, cycle, bundle is b)))
            copy = [dict(r) if isinstance(r, dict) else r for r in reqs]
            w0 = {n: len(x.writes) for n, x in dut.xdatas.items()}
            init = {n: x.value for n, x in dut.xdatas.items()}
            ret = b.process_requests(reqs if len(reqs) > 1 or rng.random() < 0.5 else reqs[0])
            if any((dict(a) if isinstance(a, dict) else a) != c for a, c in zip(reqs, copy)) or len(reqs) != len(copy):
                ctx.fail("process_requests changed the requests of the caller")
            for k, (r, c) in shared.items():
                if r != c:
                    ctx.fail(f"process_requests changed the dictionary that the request {k} returned from {c} to {r}")
            # prediction
            cyc, want_log, want_ret, writes = base, [], [], {n: [] for n in names}
            state = {n: x.writes[w0[n] - 1][1] if w0[n] else None for n, x in dut.xdatas.items()}
            for k, (kind, item, want, cond, nf, rb) in enumerate(plan):
                cyc += 1
                ctx.saw("requests")
                if kind == "none":
                    # a cycle without a request
                    continue
                if kind != "dict":
                    want_log.append(("call", k, cyc, True))
                    ctx.saw("callables")
                    if kind == "callnone":
                        continue
                if cond is not None:
                    ctx.saw("conditions")
                    ctx.saw("blocked cycles", cond)
                    for c in range(cond + 1):
                        want_log.append(("cond", k, cyc + c, True, ("args", k) if k % 2 else None))
                    cyc += cond
                for p, v in want.items():
                    if p in used:
                        writes[used[p]].append((cyc, v))
                fr = None
                if nf is not None:
                    for j in range(max(1, nf)):
                        want_log.append(("func", k, j, cyc, True))
                    # the functions see what the request has driven
                    now = tuple(writes[n][-1][1] if writes[n] else init[n] for n in names)
                    fr = [(k, j, now) for j in range(max(1, nf))]
                    fr = fr[0] if len(fr) == 1 else fr
                if rb is not None and kind == "dict":
                    snap = {}
                    for p in all_paths(node):
                        if p in used:
                            ws = [v for c, v in writes[used[p]]]
                            snap[p] = ws[-1] if ws else dut.xdatas[used[p]].writes[w0[used[p]] - 1][1] if w0[used[p]] else None
                        else:
                            snap[p] = None
                    want_ret.append((snap, cyc, fr, rb))
                    ctx.saw("returns")
            if dut.cycle != cyc:
                ctx.fail(f"{len(plan)} requests took the cycles {base}..{dut.cycle}, expected to end in {cyc}: {[(p[0], p[3]) for p in plan]}")
            # a condition may be looked at before or after the callable is asked in the same cycle
            if log != want_log:
                d = next((i for i, (x, y) in enumerate(zip(log, want_log)) if x != y), min(len(log), len(want_log)))
                ctx.fail(f"callback {d}: expected {want_log[d:d+2]}, observed {log[d:d+2]}")
            for n, x in dut.xdatas.items():
                if (x.writes[w0[n] :] if not stars else list(dict(x.writes[w0[n] :]).items())) != writes[n]:
                    ctx.fail(f"writes (cycle, value) of {n}: expected {writes[n]}, observed {x.writes[w0[n]:]}")
            if len(ret) != len(want_ret):
                ctx.fail(f"{len(ret)} results returned, expected {len(want_ret)}")
            for r, (snap, c, fr, rb) in zip(ret, want_ret):
                data = r["data"] if len(rb) > 1 else [r["data"]]
                if r["cycle"] != c or len(data) != len(rb):
                    ctx.fail(f"result {r} should be of cycle {c} with {len(rb)} bundles")
                for d, q in zip(data, rb):
                    f = flat(d, q)
                    ctx.saw("parts returned", q != "")
                    for p, v in snap.items():
                        if q and not p.startswith(q + "."):
                            continue
                        if v is not None and f.get(p) != v or p not in f:
                            ctx.fail(f"returned {p} = {f.get(p)} in cycle {c}, expected {v}")
                if fr is not None and r["__funcs_return__"] != fr:
                    ctx.fail(f"functions of the request returned {fr}, reported {r['__funcs_return__']}")
            for _ in range(rng.randint(0, 2)):
                dut.Step(1)
            ctx.note([(p[0], p[3], p[4], p[5]) for p in plan])
            ctx.key(bgen.describe(node), plan)


def check_rule(ctx, node, path, name, methods, rule):
    """The rule names, in order, every prefix and expression on the way, then the signal or the entries of the dictionary."""
    rest, sub, subpath = rule, node, path
    if all(m[0] == "prefix" for m in methods):
        want = "".join(m[1] for m in methods) + name
        if rule != want:
            ctx.fail(f"rule of {path} is {rule!r}, expected {want!r}")
        return
    for m in methods:
        if m[0] == "dict":
            may = {v for v in m[1].values() if subpath in bgen.reach(sub, v)}
            must = {v for v in may if len(bgen.reach(sub, v)) == 1}  # an entry that fits several signals connects one of them
            got = {t.strip() for t in re.split(r"[|()]", rest) if t.strip()}
            if not must <= got or must and not got <= may or got & set(m[1].values()) - may:
                ctx.fail(f"rule of {path} is {rule!r}, the dictionary connects it to {sorted(must)}")
            ctx.saw("dictionary rules", len(must))
            return
        if m[1] not in rest:
            ctx.fail(f"rule of {path} is {rule!r}, expected it to contain {m[1]!r}")
        rest = rest[rest.index(m[1]) + len(m[1]) :].removeprefix(" -> ")
        # go down
        head, _, tail = subpath.partition(".")
        g = re.match(r"^(.*)\[(\d+)\]$", head)
        if tail and g:
            f, k, r, el = sub["blists"][g[1]]
            sub, subpath = dict(el, method=("prefix", bgen.list_names(f, k, r)[int(g[2])])), tail
        elif tail:
            sub, subpath = sub["subs"][head], tail
    if not rest.endswith(name):
        ctx.fail(f"rule of {path} is {rule!r}, expected it to end with {name!r}")


class B07(Check):
    PROP = "B07"
    quick, thorough = 400, 8000
    need = {"queries": 2500, "positive": 400, "rules": 800, "real binds": 300, "dictionary rules": 200, "double entries": 15}
    rule = (
        "random trees, names that fit and near misses; the answers of the queries are compared with what a bind to a DUT with just that "
        "signal does; distinct by (tree, name)"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        node = bgen.rand_tree(rng, 2, most=24)
        if rng.random() < 0.25:
            # a dictionary whose entries are taken apart below it
            sub = dict(bgen.rand_tree(rng, 0, most=8), style="attrs")
            sub["method"] = ("regex", r"^(?:io|alt)_(.*)", lambda n: f"io_{n}")
            node = dict(signals=["u0"], slists={}, subs={rng.choice(bgen.SUBS): sub}, blists={}, method=("dict", {}), style="list")
        names, used = bgen.fit(rng, node, 1.0, extra=8)
        if rng.random() < 0.4:
            keep = set(rng.sample(names, len(names) // 2))
        else:
            keep = set(names)
        more = []
        if node["method"][0] == "dict":
            # several entries that lead to the same signal
            d = node["method"][1]
            for k in list(d):
                c = re.sub(r"(io|rx|p)_", "alt_", k, count=1)
                r = bgen.reach(dict(node, method=("prefix", "")), c)
                if c not in d and len(r) == 1 and rng.random() < 0.7:
                    d[c] = f"dup_{len(d)}"
                    more.append(d[c])
                    ctx.saw("double entries")
        cls = bgen.bundle_class(node)
        b = bgen.make(cls, node["method"])
        bound = rng.random() < 0.4
        dut = None
        if bound:
            dut = DUT(pins_of(rng, [n for n in names if n in keep]))
            b.bind(dut)
        state = lambda: [(p, repr(type(bgen.get(b, p)))) for p in all_paths(node)]
        before = state()
        inv = {n: p for p, n in used.items()}
        paths = all_paths(node)
        ctx.note((bgen.describe(node), names))
        for n in names + more:
            if rng.random() < 0.5 and len(names) > 12:
                continue
            want = bgen.reach(node, n)
            if b.detect_connectivity(n) != bool(want):
                ctx.fail(f"detect_connectivity({n!r}) is {not want}, the rules of {bgen.describe(node)} say {want}")
            ctx.saw("queries")
            ctx.saw("positive", len(want))
            for p in rng.sample(paths, min(5, len(paths))) + want:
                got = b.detect_specific_connectivity(n, p)
                if got != (p in want):
                    ctx.fail(f"detect_specific_connectivity({n!r}, {p!r}) is {got}, {n} fits {want} of {bgen.describe(node)}")
                ctx.saw("queries")
            if rng.random() < 0.4:
                d1 = DUT([n])
                b1 = bgen.make(cls, node["method"]).bind(d1)
                real = [p for p in paths if is_pin(bgen.get(b1, p), d1, n)]
                if sorted(real) != sorted(want):
                    ctx.fail(f"bind connects {n} to {real}, expected {want} ({bgen.describe(node)})")
                ctx.saw("real binds")
        rules = b.all_signals_rule()
        if sorted(rules) != sorted(paths):
            ctx.fail(f"all_signals_rule is about {sorted(rules)}, the bundle has {sorted(paths)}")
        for p, nm, ms in bgen.leaves(node):
            ctx.saw("rules")
            check_rule(ctx, node, p, nm, ms, rules[p])
        if state() != before:
            ctx.fail("the queries changed the bundle")
        if bound:
            times = rng.choice([1, 1, 2, 3, 4])
            others = [bgen.make(cls, node["method"]).bind(dut) for _ in range(times - 1)]
            check_counts(ctx, dut, Counter({n: times for n in names if n in keep and n in inv}), "after the queries")
        ctx.key(bgen.describe(node), names)


def load_script(name):
    path = os.path.join(REPO, "scripts", name)
    spec = importlib.util.spec_from_file_location(name[:-3], path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


class B08(Check):
    PROP = "B08"
    quick, thorough = 4000, 80000
    need = {"generated": 350, "signals": 2000, "long lines": 50}
    rule = (
        "generated code for random DUTs by prefix, regex and dictionary with random line widths is executed; the bundle it defines must "
        "bind exactly the selected signals; distinct by (DUT, rule)"
    )

    def scenario(self, ctx):
        rng = ctx.rng
        g = load_script("bundle_code_gen.py")
        kind = rng.choice(["prefix", "regex", "dict"])
        stems = ["_".join(rng.choice(["a", "valid", "bits", "ready", "data", "x9", "Q"]) for _ in range(rng.randint(1, 4))) for _ in range(ctx.up(1, 60))]
        if rng.random() < 0.2:
            # names that are no Python identifiers
            stems += rng.sample(["in", "is", "0", "1", "2x", "_", "__q", "class", "None", "for", "a$b", "$", "a-1"], rng.randint(1, 4))
            ctx.saw("unusual names")
        stems = sorted(set(s for s in stems if s not in ("bind", "step", "name")))
        width = rng.choice([120, 120, 80, 40, 20, 200, 1, rng.randint(5, 90)])
        distract = [] if rng.random() < 0.3 else ["zz_" + s for s in rng.sample(stems, min(3, len(stems)))]
        pre = rng.choice(["io_", "io_", "", "io_io_", "x"])
        rx, inv = rng.choice(
            [
                (r"^top_(.*)_q$", lambda s: f"top_{s}_q"),
                (r"^r\d_(.*)$", lambda s: f"r{rng.randint(0, 9)}_{s}"),
                (r"^(?:p|q)_(\w+)\b", lambda s: rng.choice("pq") + "_" + s),
                (r"^m(.)_\bo|^k_(.)(.*)$", lambda s: "k_" + s),
                (r"_k_([^\"]*)$", lambda s: f"u{rng.randint(0, 9)}_k_{s}"),
            ]
        )
        if kind == "prefix" and pre == "":
            stems = [s for s in stems if s.isidentifier() and s not in ("in", "is", "class", "None", "for")] or ["a"]
        if kind == "regex" and "w+" in rx:
            stems = [s for s in stems if re.fullmatch(r"\w+", s)] or ["a"]
        names, want = [], {}
        for s in stems:
            n = {"prefix": pre + s, "regex": inv(s), "dict": f"d{len(names)}_{s}"}[kind]
            names.append(n)
            want[s] = n
        if kind == "prefix" and pre == "":
            distract = []
        dut = DUT(rng.sample(names + distract, len(names) + len(distract)))
        cname = rng.choice(["MyBundle", "X", "AdderBundle"])
        kw = {} if width == 120 else dict(max_width=width)
        if kind == "prefix":
            code = g.gen_bundle_code_from_prefix(cname, dut, *([pre] if pre or rng.random() < 0.5 else []), **kw)
        elif kind == "regex":
            code = g.gen_bundle_code_from_regex(cname, dut, rx, **kw)
        else:
            d = dict(want)
            if rng.random() < 0.5:
                d["not_there"] = "not_in_dut"
            code = g.gen_bundle_code_from_dict(cname, dut, d, **kw)
        ns = {}
        try:
            exec(compile(code, "<generated>", "exec"), ns)
        except SyntaxError as e:
            ctx.fail(f"generated code is not valid: {e}\n{code}")
        ctx.note((kind, width, code[:300]))
        b = ns["bundle"]
        with capture_logs() as cap:
            b.bind(dut)
        for s, n in want.items():
            sig = getattr(b, s, None)
            if sig is None or not is_pin(sig, dut, n):
                ctx.fail(f"{s} is not connected to {n} by\n{code}")
            ctx.saw("signals")
        have = sorted(n for n, _ in b.all_signals())
        for line in code.split("\n")[:-2]:
            # longer lines hold no more than one name
            shown = line.expandtabs(4)
            if len(shown) > width and len(re.findall(r"\w+,? ", shown.split("=")[0])) > 1 and not line.startswith(("class", "from")):
                ctx.fail(f"a line of {len(shown)} characters, max_width is {width}: {shown!r}")
        if have != sorted(want):
            ctx.fail(f"generated bundle has {have}, expected {sorted(want)}")
        if cap.at("WARNING", "ERROR"):
            ctx.fail(f"the generated bundle warns: {cap.at('WARNING', 'ERROR')[:2]}")
        if any(len(l) > 60 for l in code.split("\n")):
            ctx.saw("long lines")
        ctx.saw("generated")
        ctx.key(kind, names, width)


class B09(Check):
    PROP = "B09"
    quick, thorough = 1000, 20000
    need = {"generated": 450, "signals": 3000, "signals below a signal": 150, "shared classes": 100, "by command line": 10}
    rule = (
        "bundle code generated from random signal trees (signals that are parents of others, numbers, keywords, repeated structures) is "
        "executed; its last class must connect every signal of the tree under its own path, once, and nothing else, without warnings, and "
        "parts of the same structure must share their class; distinct by tree"
    )

    PARTS = [["a", "b", "c", "io"], ["a", "b", "x1", "2", "3", "in", "io"], ["a", "0", "1", "2", "3"], ["in", "is", "a", "valid", "bits"], ["a", "b", ""]]

    def scenario(self, ctx):
        rng = ctx.rng
        names = set()
        parts = rng.choice(self.PARTS)
        deep = rng.randint(1, 5)
        for _ in range(ctx.up(1, 30)):
            n = "_".join(rng.choice(parts) for _ in range(rng.randint(1, deep)))
            if n and not n[0].isdigit():
                names.add(n)
        if rng.random() < 0.5 and names:
            # the same structure below several names
            inner = [n.lstrip("_") or "q" for n in rng.sample(sorted(names), min(len(names), 4))]
            for p in rng.sample(["p", "q_r", "port_0", "port_1", "port_2", "port_3"], rng.randint(2, 4)):
                names |= {f"{p}_{n}" for n in inner}
                if rng.random() < 0.2:
                    names.add(p)
        if rng.random() < 0.02:
            # wide ones
            names |= {f"wide_{k}{rng.choice(['', '', '_v'])}" for k in range(rng.randint(30, 130))}
            ctx.saw("wide")
        if not names:
            names = {"clock"}
        names = rng.sample(sorted(names), len(names))
        tree = {}
        for n in names:
            node = tree
            for p in n.split("_"):
                node = node.setdefault(p, {})
            node.update({"_": True, "Pin": rng.choice(["In", "Out"]), "High": rng.randint(-1, 63), "Low": 0})
        ctx.note(sorted(names))
        work = tempfile.mkdtemp(prefix="vf_b09_")
        try:
            src, out = os.path.join(work, "signals.json"), os.path.join(work, "gen.py")
            with open(src, "w", encoding="utf-8") as f:
                json.dump(tree, f)
            if rng.random() < 0.2:
                # what was generated before
                with open(out, "w", encoding="utf-8") as f:
                    f.write("class _0Bundle:\n\told = 1\n\nraise RuntimeError\n" * rng.choice([1, 100]))
                ctx.saw("old targets")
            if rng.random() < 0.04:
                # a process of its own, where strings have other hashes
                env = dict(os.environ, PYTHONHASHSEED=str(rng.randint(1, 10**6)))
                r = subprocess.run([sys.executable, os.path.join(REPO, "scripts", "bundle_code_intel_gen.py"), src, out], capture_output=True, text=True, env=env)
                if r.returncode:
                    ctx.fail(f"bundle_code_intel_gen failed: {r.stderr[-500:]}")
                ctx.saw("by command line")
            else:
                load_script("bundle_code_intel_gen.py").main(src, out)
            with open(out, encoding="utf-8") as f:
                code = f.read()
        finally:
            shutil.rmtree(work)
        ns = {}
        try:
            exec(compile(code, "<generated>", "exec"), ns)
        except SyntaxError as e:
            ctx.fail(f"generated code is not valid: {e}\n{code}")
        classes = [v for v in ns.values() if isinstance(v, type) and issubclass(v, Bundle) and v is not Bundle]
        if not classes:
            ctx.fail(f"no bundle was generated for {sorted(names)}")
        dut = DUT(rng.sample(names, len(names)) + ["zz_" + n for n in rng.sample(names, min(2, len(names)))])
        b = classes[-1]()
        with capture_logs() as cap:
            b.bind(dut)
        if cap.at("WARNING", "ERROR"):
            ctx.fail(f"the generated bundle warns: {cap.at('WARNING', 'ERROR')[:2]}\n{code}")
        have = Counter()
        for path, sig in b.all_signals():
            if type(sig).__name__ != "XPin":
                ctx.fail(f"{path} is not connected, by\n{code}")
            have[sig.xdata.name] += 1
            odd = [p for p in path.split(".") if p.endswith("_")]
            if not odd and path.replace(".", "") != sig.xdata.name:
                ctx.fail(f"{path} is connected to {sig.xdata.name} by\n{code}")
            ctx.saw("signals")
        if have != Counter(names):
            ctx.fail(f"the generated bundle has {sorted(have.elements())}, expected {sorted(names)}\n{code}")
        below = sum(1 for n in names if any(n.startswith(m + "_") for m in names))
        ctx.saw("signals below a signal", below)

        def structure(node):
            subs = {k: structure(v) for k, v in node.items() if isinstance(v, dict)}
            return (any(not isinstance(v, dict) for v in node.values()), tuple(sorted(subs.items())))

        shared = {}

        def walk(bundle, node, level):
            for k, v in node.items():
                if not isinstance(v, dict) or not any(isinstance(x, dict) for x in v.values()):
                    continue
                sub = getattr(bundle, k if level == 0 else f"_{k}", None)
                if isinstance(sub, Bundle):
                    key = structure(v)[1]
                    if shared.setdefault(key, type(sub)) is not type(sub):
                        ctx.bad(f"two parts with the same structure {key} have different classes in\n{code}")
                    ctx.saw("shared classes")
                    walk(sub, v, level + 1)

        walk(b, tree, 0)
        ctx.saw("generated")
        ctx.key(sorted(names))
