"""Random bundle trees, DUTs that (partly) fit them, and an independent reading of the binding rules.

A node is {signals: [name], slists: {name: (format, limit, rule)}, subs: {name: node}, blists: {name: (format, limit, rule,
node)}, method: (kind, value)}.
"""

import random
import re

from toffee import Bundle, BundleList, Signal, SignalList, Signals

SIG = ["a", "b", "c", "d0", "valid", "ready", "bits_data", "io_a", "v", "x1", "a_b", "val", "in_a", "q_", "A", "bitsData", "Valid"]
SUBS = ["sub", "req", "resp", "s2", "zz", "aa", "inner"]
LISTS = ["vec", "lanes", "arr", "sl", "m2"]
PREF = ["io_", "", "in_", "x_", "a_", "req_", "io_in_", "_", "v"]
RULES = [None, None, lambda i: f"{i:02d}", lambda i: chr(97 + i), lambda i: str(2 * i + 1)]


def regex_kinds(rng):
    p = rng.choice(["io", "rx", "p"])
    return rng.choice(
        [
            (rf"^{p}_(.*)$", lambda n: f"{p}_{n}"),
            (rf"{p}_(.*)_q$", lambda n: f"{p}_{n}_q"),
            (rf"^(?:{p}|alt)_(.*)", lambda n: rng.choice([f"{p}_{n}", f"alt_{n}"])),
            (rf"^(.)__{p}__(.*)", lambda n: f"{n[0]}__{p}__{n[1:]}"),
            (rf"^{p}_(\w+?)_sfx(_opt)?$", lambda n: f"{p}_{n}_sfx"),
            (rf"(?:^|_){p}_(.*)$", lambda n: f"{rng.choice(['', 'top_', 'u_core_'])}{p}_{n}"),
            (rf"{p}\d(.*)z", lambda n: f"{rng.choice(['', 'm'])}{p}{rng.randint(0, 9)}{n}z{rng.choice(['', '_e'])}"),
            (rf"^(\w*)_{p}$|^{p}of_(\w*)$", lambda n: rng.choice([f"{n}_{p}", f"{p}of_{n}"])),
            (rf"^(rst_)?{p}_(.*)", lambda n: f"{p}_{n}"),
            (r"^[a-z]\w*$", lambda n: n),  # captures nothing
            (r"^(zz_)?[a-z]\w*$", lambda n: n),
            (rf"^{p}_(.?)(.?)(.?)(.?)(.?)(.?)(.*)$", lambda n: f"{p}_{n}"),
        ]
    )


def rand_method(rng, root=False):
    k = rng.choice(["prefix", "prefix", "prefix", "regex", "dict"])
    if k == "prefix":
        return ("prefix", rng.choice(PREF))
    if k == "regex":
        rx, inv = regex_kinds(rng)
        return ("regex", rx, inv)
    return ("dict", {})


def size(rng, usual):
    return rng.randint(1, usual) if rng.random() < 0.9 else rng.randint(usual, 13)


def rand_node(rng, depth, root=False):
    n = dict(
        signals=rng.sample(SIG, rng.randint(0 if depth else 1, rng.choice([4, 4, 4, 4, 4, 4, len(SIG)]))),
        slists={},
        subs={},
        blists={},
        method=rand_method(rng),
        style=rng.choice(["attrs", "list", "mixed"]),
        extras=rng.random() < 0.2,
        made=rng.choice(["class"] * 4 + ["init", "early", "base", "derived"]),
    )
    names = rng.sample(SUBS, 3) + rng.sample(LISTS, 4)
    names = [x for x in names if x not in n["signals"]]
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 2)):
            n["slists"][names.pop()] = (rng.choice(["l#", "w_#_x", "a#", "#", "p#_q#"]), size(rng, 4), rng.choice(RULES))
    if depth > 0:
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
            n["subs"][names.pop(0)] = rand_node(rng, depth - 1)
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2]) if len(names) > 1 else 0):
            n["blists"][names.pop()] = (rng.choice(["vec_#_", "e#_", "e#", "r#_c#_"]), size(rng, 3), rng.choice(RULES), rand_node(rng, depth - 1))
    return n


def list_names(fmt, limit, rule):
    return [fmt.replace("#", (rule or str)(i)) for i in range(limit)]


def leaves(node, path="", methods=()):
    """Yield (path, name at its level, [methods root..level])."""
    ms = list(methods) + [node["method"]]
    j = lambda p, x: f"{p}.{x}" if p else x
    for s in node["signals"]:
        yield j(path, s), s, ms
    for ln, (f, k, r) in node["slists"].items():
        for i, nm in enumerate(list_names(f, k, r)):
            yield j(path, f"{ln}[{i}]"), nm, ms
    for sn, sub in node["subs"].items():
        yield from leaves(sub, j(path, sn), ms)
    for ln, (f, k, r, el) in node["blists"].items():
        for i, nm in enumerate(list_names(f, k, r)):
            yield from leaves(dict(el, method=("prefix", nm)), j(path, f"{ln}[{i}]"), ms)


def apply_method(m, name):
    """Name behind a connection rule, or None."""
    if m[0] == "prefix":
        return name[len(m[1]) :] if name.startswith(m[1]) else None
    if m[0] == "regex":
        g = re.search(m[1], name)
        return None if g is None else "".join(x or "" for x in g.groups())
    for k, v in m[1].items():
        if v == name:
            return k
    return None


def reach(node, name, path=""):
    """All leaves of the tree that a DUT signal satisfies the rules of."""
    j = lambda p, x: f"{p}.{x}" if p else x
    n = apply_method(node["method"], name)
    if n is None:
        return []
    if n in node["signals"]:
        return [j(path, n)]
    for ln, (f, k, r) in node["slists"].items():
        names = list_names(f, k, r)
        if n in names:
            return [j(path, f"{ln}[{names.index(n)}]")]
    out = []
    for sn, sub in node["subs"].items():
        out += reach(sub, n, j(path, sn))
    for ln, (f, k, r, el) in node["blists"].items():
        for i, nm in enumerate(list_names(f, k, r)):
            out += reach(dict(el, method=("prefix", nm)), n, j(path, f"{ln}[{i}]"))
    return out


def level_names_unique(node):
    lists = [nm for f, k, r in node["slists"].values() for nm in list_names(f, k, r)]
    if len(set(lists + node["signals"])) != len(lists) + len(node["signals"]):
        return False
    return all(map(level_names_unique, node["subs"].values())) and all(
        level_names_unique(b[3]) for b in node["blists"].values()
    )


def own_methods(node):
    """Reset the dictionaries of a tree (they are filled by make_names)."""
    if node["method"][0] == "dict":
        node["method"] = ("dict", {})
    for s in node["subs"].values():
        own_methods(s)
    for b in node["blists"].values():
        own_methods(b[3])


def make_names(rng, node, density, tag=""):
    """DUT signal names that fit the tree: {DUT name: leaf path}."""
    own_methods(node)
    fresh = iter(range(10**6))
    out = {}
    for path, name, ms in leaves(node):
        if rng.random() > density:
            continue
        n = name
        for m in reversed(ms):
            if m[0] == "prefix":
                n = m[1] + n
            elif m[0] == "regex":
                n = m[2](n)
            else:
                if n in m[1]:
                    n = m[1][n]
                else:
                    new = f"{rng.choice(['dut', 'io', 'a'])}{tag}_{next(fresh)}"
                    if rng.random() < 0.4:
                        # the name of another signal of the bundle
                        new = rng.choice(SIG + node["signals"] * 3)
                        if new in m[1].values():
                            new = f"dut{tag}_{next(fresh)}"
                    m[1][n] = n = new
        out[n] = path
    return out


def fit(rng, node, density, extra=4, tag=""):
    """(names of a DUT, {leaf path: DUT name}) without ambiguity."""
    names = make_names(rng, node, density, tag)
    pool = list(names)
    for _ in range(extra):
        base = rng.choice(pool) if pool and rng.random() < 0.7 else rng.choice(PREF) + rng.choice(SIG)
        pool.append(rng.choice([base + "x", "x" + base, base[1:] or "k", base + "_", base, base.upper(), rng.choice(SIG) + "_" + base, rng.choice("axv") + base]))
    good, used = [], {}
    for n in dict.fromkeys(pool):
        if not n.isidentifier() or n in RESERVED_PINS:
            continue
        r = reach(node, n)
        if len(r) > 1 or (r and r[0] in used):
            continue
        if r:
            used[r[0]] = n
        good.append(n)
    rng.shuffle(good)
    return good, used


def dict_nodes(node):
    """All parts of the tree that are connected by a dictionary."""
    if node["method"][0] == "dict":
        yield node
    for s in node["subs"].values():
        yield from dict_nodes(s)
    for b in node["blists"].values():
        yield from dict_nodes(dict(b[3], method=("prefix", "")))


def spoil_dicts(rng, node):
    """Entries that name nothing. Returns (their keys, the keys of entries that name something)."""
    bad, good = set(), set()
    for k, n in enumerate(dict_nodes(node)):
        for j in range(rng.choice([0, 0, 1, 1, 2, 5])):
            name = rng.choice([*n["signals"], *SIG, "n"]) + rng.choice(["_bad", "_nothing", "X", "__"])
            if not any(name in d["method"][1] for d in dict_nodes(node)):
                n["method"][1][name] = f"no_pin_{k}_{j}"
    for n in dict_nodes(node):
        for key, v in n["method"][1].items():
            (good if reach(n, v) else bad).add(key)
    return bad, good


RESERVED_PINS = {
    "event", "cycle", "max_steps", "step_args", "rise_callbacks", "drivers", "xdatas", "on_edge", "poke", "StepRis", "Step",
}


def bundle_class(node, name="GenBundle"):
    """The class of a node; its parts are declared in the class, in a class it inherits from, or made in __init__."""
    sigs, parts = {}, {}
    signals = node["signals"]
    half = {"list": len(signals), "mixed": len(signals) // 2}.get(node["style"], 0)
    if half or node["style"] == "list":
        sigs["signals"] = (tuple if len(signals) % 3 == 2 else list)(signals[:half])
    for s in signals[half:]:
        sigs[s] = Signal()
    for ln, (f, k, r) in node["slists"].items():
        parts[ln] = lambda f=f, k=k, r=r: SignalList(f, k, r) if r else SignalList(f, k)
    for sn, sub in node["subs"].items():
        parts[sn] = lambda c=bundle_class(sub, "Sub_" + sn), m=sub["method"]: make(c, m)
    for ln, (f, k, r, el) in node["blists"].items():
        parts[ln] = lambda c=bundle_class(el, "El_" + ln), f=f, k=k, r=r: BundleList(c, f, k, r) if r else BundleList(c, f, k)
    if node.get("extras"):
        # what else the classes of users have; properties of signals that are not there yet
        one = next(iter(signals), "nothing")
        sigs.update(
            Fire=property(lambda self: getattr(self, one).value & 1), all_ready=property(lambda self: [getattr(self, s).value for s in signals]),
            zz_first=property(lambda self: next(iter(getattr(self, n) for n in parts))), _late=property(lambda self: self.not_yet.value),
            width=8, label="bundle", names_=["a", "b"], table={"a": 1}, nothing=None, tool=lambda self, x: x, make=classmethod(lambda cls: cls),
        )
    made = node.get("made", "class")
    if made == "init":

        def __init__(self):
            super(cls, self).__init__()
            for n, p in parts.items():
                setattr(self, n, p())

        cls = type(name, (Bundle,), dict(sigs, __init__=__init__))
        return cls
    if made == "early":
        # everything is made before the bundle is initialized
        own = {n: sigs.pop(n) for n in list(sigs) if n == "signals" or isinstance(sigs[n], Signal)}

        def __init__(self):
            for n, p in own.items():
                setattr(self, n, Signal() if n != "signals" else p)
            for n, p in parts.items():
                setattr(self, n, p())
            super(early, self).__init__()

        early = type(name, (Bundle,), dict(sigs, __init__=__init__))
        return early
    parts = {n: p() for n, p in parts.items()}
    if made == "base":
        return type(name, (type("Base" + name, (Bundle,), parts),), sigs)
    if made == "derived":
        return type(name, (type("Base" + name, (Bundle,), sigs),), parts)
    return type(name, (Bundle,), dict(sigs, **parts))


def make(cls, method, how="from"):
    if how == "set":
        b = cls()
        if method[0] == "prefix":
            return b.set_prefix(method[1])
        if method[0] == "regex":
            return b.set_regex(method[1])
        return b.set_dict(method[1])
    if method[0] == "prefix":
        return cls.from_prefix(method[1]) if method[1] else cls()
    if method[0] == "regex":
        return cls.from_regex(method[1])
    return cls.from_dict(method[1])


def big_tree(rng, turn):
    """A tree that is large in one way."""
    kinds = ["slists", "signals", "blists", "slist", "deep", "blist", "subs"]
    kind = kinds[turn % len(kinds)]
    many = rng.randint(33, 160)
    n = rand_node(rng, 0, True)
    small = dict(signals=rng.sample(SIG, 1), slists={}, subs={}, blists={}, style="attrs")
    if kind == "signals":
        n["signals"] = list(dict.fromkeys(n["signals"] + rng.sample([f"{s}{k}" for s in SIG for k in range(1, 12)], many)))
    elif kind == "slist":
        n["slists"] = {"big": (rng.choice(["l#", "w_#_x", "n#"]), many, None)}
    elif kind == "blist":
        if n["method"][0] == "dict":
            many = min(many, 25)  # (the search for the rules of missing signals is cubic)
        n["blists"] = {"bigs": (rng.choice(["vec_#_", "e#_"]), many, None, dict(small, method=("prefix", "")))}
    elif kind == "slists":
        n["slists"] = {f"lst{k}": (f"{rng.choice('lmn')}{k}_#", rng.randint(1, 3), None) for k in range(many // 3)}
    elif kind == "blists":
        n["blists"] = {f"bls{k}": (f"{rng.choice('lmn')}{k}_#_", rng.randint(1, 3), None, dict(small, method=("prefix", ""))) for k in range(many // 5)}
    elif kind == "subs":
        n["subs"] = {f"{rng.choice(SUBS)}{k}": dict(small, method=rng.choice([("prefix", f"p{k}_"), ("regex", rf"^r{k}_(.*)$", lambda x, k=k: f"r{k}_{x}")])) for k in range(many // 3)}
    else:
        for _ in range(rng.randint(5, 12)):
            n = dict(small, signals=rng.sample(SIG, rng.randint(0, 1)), method=("prefix", rng.choice(PREF)), subs={rng.choice(SUBS): n})
    return n


def rand_tree(rng, depth=2, tries=200, most=60, big=None):
    for _ in range(tries if big is not None else 0):
        n = big_tree(rng, big)
        if level_names_unique(n):
            return n
    for _ in range(tries):
        n = rand_node(rng, rng.randint(0, depth + 2 * (rng.random() < 0.15)), True)
        if level_names_unique(n) and sum(1 for _ in leaves(n)) <= most:
            return n
    return dict(signals=["a"], slists={}, subs={}, blists={}, method=("prefix", "io_"), style="attrs")


class Absent:
    """No attribute: access is refused as for any signal that must not be accessed."""

    def __getattr__(self, name):
        raise AttributeError(name)

    def __setattr__(self, name, value):
        raise AttributeError(name)


ABSENT = Absent()


def get(bundle, path):
    """The signal at a leaf path."""
    o = bundle
    for part in path.split("."):
        m = re.match(r"^(.*?)\[(\d+)\]$", part)
        if m:
            o = getattr(o, m[1])[int(m[2])]
        else:
            o = getattr(o, part, ABSENT)
    return o


def describe(node):
    m = node["method"]
    d = {"method": m[:2], "signals": node["signals"]}
    if node["slists"]:
        d["slists"] = {k: list_names(*v) for k, v in node["slists"].items()}
    if node["subs"]:
        d["subs"] = {k: describe(v) for k, v in node["subs"].items()}
    if node["blists"]:
        d["blists"] = {k: (list_names(*v[:3]), describe(v[3])) for k, v in node["blists"].items()}
    return d
