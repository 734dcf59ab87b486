"""Registry of the checks.  A check is a class with PROP, scenario(ctx), quick, thorough, rule, need, assumptions."""

import importlib
import os
import re


class Check:
    quick = 200
    thorough = 5000
    need = {}
    rule = ""
    assumptions = [
        "the design is a stand-in with the surface of a picker DUT and immediate writes",
        "CPython 3.12 asyncio",
    ]


def files():
    here = os.path.dirname(os.path.abspath(__file__))
    return {f[:-3]: os.path.join(here, f) for f in sorted(os.listdir(here)) if f.endswith(".py") and f != "__init__.py"}


def checks_of(module):
    return {v.PROP: v() for v in vars(importlib.import_module(f"checks.{module}")).values() if isinstance(v, type) and issubclass(v, Check) and getattr(v, "PROP", None)}


def registry():
    return {k: v for m in files() for k, v in checks_of(m).items()}


def find(prop):
    """Only the file with the check of the property is loaded."""
    for m, path in files().items():
        if re.search(rf'^    PROP = "{prop}"', open(path).read(), re.M):
            return checks_of(m)[prop]
    raise KeyError(prop)
