#!/usr/bin/env python3
"""Systematic mutation of /repo: which small changes that the tests accept does no check notice?

usage: automut.py OUT.jsonl [FILE...]; mutants that OUT.jsonl lists are skipped
Every mutant is made in a scratch copy under /tmp; /repo is not touched.  A development aid, no check uses it."""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("AUTOMUT_REPO", "/repo")
VERIF = os.environ.get("AUTOMUT_VERIF", "/verif")  # a copy, to go on editing meanwhile
CHECKS = {
    "asynchronous.py": "X03 C02 C04 C01 C05 C03 X02 D03 T01 C06",
    "triggers.py": "C02 C03",
    "_base_agent.py": "D01 M01 D05 D02 D03 D04 M02 C05 E03 C06",
    "agent.py": "D01 M01 M02 E01 C05",
    "executor.py": "E04 X01 X02 D02 D03 C05 C01 C06",
    "env.py": "E01 E02 E03 D01 M01",
    "model.py": "E04 E01 E02 D01 D05 E03 D03 C04 M01",
    "_compare.py": "D04 C05",
    "_base.py": "E01",
    "bundle.py": "B01 B04 B05 B07 B03 B02 B06 C02 B08",
    "funcov.py": "F01 F02 F03",
    "delay.py": "T01 C06",
    "logger.py": "L01",
    "debug.py": "G01",
    "lfsr_64.py": "U01", "plru.py": "U01", "two_bits_counter.py": "U01",
    "bundle_code_gen.py": "B08",
    "bundle_code_intel_gen.py": "B09",
}
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.FloorDiv: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd,
       ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.BitXor: ast.BitOr, ast.Mod: ast.FloorDiv}


def mutants(src):
    tree = ast.parse(src)
    parent = {c: p for p in ast.walk(tree) for c in ast.iter_child_nodes(p)}

    def logging_call(n):
        while n is not None:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("info", "debug", "print", "warning", "error"):
                return True
            n = parent.get(n)
        return False

    def rep(n, new, what):
        return n, ast.unparse(ast.fix_missing_locations(new)), what

    for n in ast.walk(tree):
        if not hasattr(n, "lineno"):
            continue
        fn = n
        while fn in parent and not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fn = parent[fn]
        if isinstance(fn, ast.Module) or logging_call(n):
            continue
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            m = copy.deepcopy(n); m.ops[0] = CMP[type(n.ops[0])](); yield rep(n, m, "compare")
            if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                m = copy.deepcopy(n); m.ops[0] = ast.Eq(); yield rep(n, m, "compare=")
        if isinstance(n, ast.BoolOp):
            for k in range(len(n.values)):
                m = copy.deepcopy(n); del m.values[k]
                yield rep(n, m.values[0] if len(m.values) == 1 else m, f"drop operand {k}")
            m = copy.deepcopy(n); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); yield n, "(" + ast.unparse(m) + ")", "and/or"
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield n, "(" + ast.unparse(n.operand) + ")", "drop not"
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.JoinedStr,)):
            m = copy.deepcopy(n); m.op = BIN[type(n.op)](); yield n, "(" + ast.unparse(m) + ")", "operator"
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            yield n.test, "True", "test True"
            yield n.test, "False", "test False"
        if isinstance(n, ast.comprehension):
            pass
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in n.generators:
                for t in g.ifs:
                    yield t, "True", "filter True"
        if isinstance(n, ast.Constant) and not isinstance(parent.get(n), (ast.Expr, ast.JoinedStr, ast.FormattedValue)):
            if n.value is True or n.value is False:
                yield n, repr(not n.value), "bool"
            elif isinstance(n.value, (int, float)):
                yield n, repr(n.value + 1), "const+1"
                if n.value:
                    yield n, "(" + repr(n.value - 1) + ")", "const-1"
            elif n.value is None and not isinstance(parent.get(n), ast.Compare):
                yield n, "0", "None->0"
            elif isinstance(n.value, str) and n.value and len(n.value) < 20:
                yield n, repr(n.value + "_"), "string"
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Assert, ast.Delete)):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                yield n, "pass", "delete"
                if "\n" not in ast.unparse(n):
                    yield n, 'if next(__import__("builtins").__dict__.setdefault("_automut", __import__("itertools").count(1))) % 13: ' + ast.unparse(n), "skip each 13th"
        if isinstance(n, ast.AugAssign):
            m = copy.deepcopy(n); m.op = BIN.get(type(n.op), ast.Sub)(); yield rep(n, m, "augassign")
            yield rep(n, ast.Assign(targets=[n.target], value=n.value), "aug->assign")
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            yield n, "return None", "return None"
        if isinstance(n, ast.Return):
            yield n, "pass", "delete return"
        if isinstance(n, ast.Continue):
            yield n, "break", "continue->break"
            yield n, "pass", "continue->pass"
        if isinstance(n, ast.Break):
            yield n, "continue", "break->continue"
            yield n, "pass", "break->pass"
        if isinstance(n, ast.For) or isinstance(n, ast.comprehension):
            yield n.iter, f"list({ast.unparse(n.iter)})[1:]", "skip first"
            yield n.iter, f"list({ast.unparse(n.iter)})[:-1]", "skip last"
            yield n.iter, f"list({ast.unparse(n.iter)})[::-1]", "reversed"
            yield n.iter, f"list({ast.unparse(n.iter)})[:5]", "first 5"
        if isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                m = copy.deepcopy(n); del m.keywords[k]; yield rep(n, m, f"drop keyword {n.keywords[k].arg}")
            if len(n.args) == 2:
                m = copy.deepcopy(n); m.args.reverse(); yield rep(n, m, "swap args")
        if isinstance(n, ast.comprehension):
            pass
    for n in ast.walk(tree):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in n.generators:
                it = ast.unparse(g.iter)
                yield g.iter, f"list({it})[1:]", "skip first"
                yield g.iter, f"list({it})[:-1]", "skip last"
                yield g.iter, f"list({it})[:5]", "first 5"


def apply(src, n, text):
    lines = src.encode().split(b"\n")
    off = lambda l, c: sum(len(x) + 1 for x in lines[: l - 1]) + c
    a, b = off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
    old = src.encode()[a:b].decode()
    if isinstance(n, ast.expr) and not (text.startswith("(") or text.isidentifier()):
        text = "(" + text + ")" if "\n" in old or " " in text else text
    return (src.encode()[:a] + text.encode() + src.encode()[b:]).decode(), old


def one(job):
    f, n, text, what = job
    w = tempfile.mkdtemp(prefix="automut_")
    try:
        r = os.path.join(w, "repo")
        shutil.copytree(REPO, r, ignore=shutil.ignore_patterns(".git", "docs", "example", "__pycache__"))
        p = os.path.join(r, f)
        src = open(p).read()
        new, old = apply(src, n, text)
        rec = dict(file=f, line=n.lineno, what=what, old=old[:160], new=text[:160])
        try:
            compile(new, p, "exec")
        except SyntaxError:
            return dict(rec, result="syntax")
        open(p, "w").write(new)
        env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE="1", VF_REPO=r, VF_NOEVIDENCE="1")
        try:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=r, capture_output=True, text=True, env=env, timeout=60)
        except subprocess.TimeoutExpired:
            return dict(rec, result="tests hang")
        if t.returncode:
            return dict(rec, result="tests")
        for pr in CHECKS[os.path.basename(f)].split():
            try:
                c = subprocess.run(["/opt/venv/bin/python", os.path.join(VERIF, "run.py"), pr], capture_output=True, text=True, env=env, timeout=900)
            except subprocess.TimeoutExpired:
                return dict(rec, result="check hangs " + pr)
            if c.returncode == 1 and "VIOLATION" in c.stdout:
                return dict(rec, result="caught " + pr)
            if c.returncode != 0:
                return dict(rec, result=f"no answer {pr}", err=c.stderr[-300:])
        return dict(rec, result="MISSED")
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    out = sys.argv[1]
    files = sys.argv[2:]
    done = {(d["file"], d["line"], d["what"], d["old"], d["new"]) for d in map(json.loads, open(out))} if os.path.exists(out) else set()
    jobs, seen = [], set()
    for f in files:
        src = open(os.path.join(REPO, f)).read()
        for n, text, what in mutants(src):
            key = (f, n.lineno, n.col_offset, text)
            if key in seen:
                continue
            seen.add(key)
            _, old = apply(src, n, text)
            if (f, n.lineno, what, old[:160], text[:160]) not in done:
                jobs.append((f, n, text, what))
    print(len(jobs), "mutants", flush=True)
    random.Random(1).shuffle(jobs)
    with ThreadPoolExecutor(int(os.environ.get("AUTOMUT_JOBS", 8))) as ex, open(out, "a") as o:
        for k, r in enumerate(ex.map(one, jobs)):
            o.write(json.dumps(r) + "\n")
            o.flush()
            if r["result"] in ("MISSED",) or r["result"].startswith(("no answer", "check hangs")):
                print(k, r["file"], r["line"], r["what"], repr(r["old"][:80]), "->", repr(r["new"][-60:]), r["result"], flush=True)
