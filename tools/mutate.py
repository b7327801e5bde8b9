#!/usr/bin/env python3
"""Systematic small changes of the package that its own tests do not notice, and what the checks say about them.

usage: mutate.py tests OUT.jsonl [-s SEED] [-c COUNT]   make mutants, run the package's tests on each, write those that pass
       mutate.py checks OUT.jsonl RESULTS.jsonl         run every check on each survivor
Everything happens in scratch copies under /tmp.
"""
import argparse
import ast
import contextlib
import copy
import difflib
import glob
import hashlib
import io
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from multiprocessing import Pool

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
REPO = "/repo"


def docstrings(tree):
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            out.add(n.body[0].value)
    for n in ast.walk(tree):
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if isinstance(a, ast.AST):
                out |= set(ast.walk(a))
        if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and "TYPE_CHECKING" in n.test.id:
            out |= set(ast.walk(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            out.add(n.value)
    return out


CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot, ast.Eq], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
       ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE]}
BIN = {ast.Add: [ast.Sub, ast.Mult], ast.Sub: [ast.Add], ast.Mult: [ast.Add, ast.Pow], ast.Pow: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd]}
SWAP = {"nrows": "ncols", "ncols": "nrows", "is_Add": "is_Mul", "is_Mul": "is_Add", "atoms": "heads", "append": "extend", "add_op1": "add_opn", "add_opn": "add_op1",
        "args": "op", "items": "keys", "keys": "values", "values": "keys", "elements": "elements_graph", "get": "pop", "setdefault": "get", "rep": "head",
        "update": "add", "copy": "keys", "children": "value"}


def edits(tree):
    """(description, function that changes the tree in place and one that undoes it) for every place."""
    doc = docstrings(tree)
    out = []

    def setter(n, f, v, what):
        def do():
            old = getattr(n, f)
            setattr(n, f, v(copy.deepcopy(old)) if callable(v) else v)
            return lambda: setattr(n, f, old)
        out.append((what, do))

    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef, ast.Lambda)):
            names = sorted({a.arg for a in fn.args.args + fn.args.posonlyargs + fn.args.kwonlyargs} | ({fn.args.vararg.arg} if fn.args.vararg else set()) |
                           {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
            for x in ast.walk(fn):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in names and x not in doc:
                    for o in names:
                        if o != x.id:
                            setter(x, "id", o, f"{x.id} -> {o}")
    for n in ast.walk(tree):
        if n in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) >= 1:
            for i, op in enumerate(n.ops):
                for c in CMP.get(type(op), ()):
                    setter(n, "ops", lambda old, i=i, c=c: old[:i] + [c()] + old[i + 1:], f"compare {type(op).__name__} -> {c.__name__}")
        if isinstance(n, ast.BoolOp):
            setter(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And(), "and <-> or")
            for i in range(len(n.values)):
                if len(n.values) > 1:
                    setter(n, "values", lambda old, i=i: old[:i] + old[i + 1:], "drop a condition")
        if isinstance(n, ast.BinOp):
            for c in BIN.get(type(n.op), ()):
                setter(n, "op", c(), f"operator -> {c.__name__}")
            def swap(n=n):
                l, r = n.left, n.right
                n.left, n.right = r, l

                def undo():
                    n.left, n.right = l, r
                return undo
            out.append(("operands exchanged", swap))
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            for v in (True, False):
                if not (isinstance(n, ast.While) and v):
                    setter(n, "test", ast.Constant(v), f"condition {v}")
            setter(n, "test", lambda old: ast.UnaryOp(ast.Not(), old), "condition negated")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            setter(n, "operand", lambda old: ast.UnaryOp(ast.Not(), old), "not removed")
        if isinstance(n, ast.Constant) and type(n.value) is int:
            for v in (n.value + 1, n.value - 1):
                setter(n, "value", v, f"{n.value} -> {v}")
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            setter(n, "value", not n.value, f"{n.value} -> {not n.value}")
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value:
            setter(n, "value", n.value[:-1], f"text {n.value[:20]!r} shortened")
            setter(n, "value", n.value + "_", f"text {n.value[:20]!r} lengthened")
            if " " in n.value:
                setter(n, "value", n.value.replace(" ", "", 1), f"text {n.value[:20]!r} without a blank")
        if isinstance(n, ast.Call):
            for i in range(len(n.args)):
                setter(n, "args", lambda old, i=i: old[:i] + old[i + 1:], "argument dropped")
                if i + 1 < len(n.args):
                    setter(n, "args", lambda old, i=i: old[:i] + [old[i + 1], old[i]] + old[i + 2:], "arguments exchanged")
                if isinstance(n.args[i], ast.Starred):
                    setter(n, "args", lambda old, i=i: old[:i] + [old[i].value] + old[i + 1:], "star removed")
                    setter(n, "args", lambda old, i=i: old[:i] + [ast.Starred(ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [old[i].value], []), ast.Slice(None, None, ast.UnaryOp(ast.USub(), ast.Constant(1))), ast.Load()), ast.Load())] + old[i + 1:], "star reversed")
            for i in range(len(n.keywords)):
                setter(n, "keywords", lambda old, i=i: old[:i] + old[i + 1:], "keyword dropped")
            if isinstance(n.func, ast.Name) and n.func.id in ("list", "set", "tuple", "sorted", "dict", "float", "str", "int", "repr", "frozenset") and len(n.args) == 1:
                for o in ("list", "set", "tuple", "sorted", "str", "repr"):
                    if o != n.func.id:
                        setter(n.func, "id", o, f"{n.func.id}() -> {o}()")
                def strip(n=n):
                    f = copy.copy(n.__dict__)
                    a = n.args[0]
                    n.func, n.args = ast.Name("(lambda _: _)", ast.Load()), [a]

                    def undo():
                        n.__dict__.update(f)
                    return undo
                out.append((f"{n.func.id}() removed", strip))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in SWAP:
            setter(n, "attr", SWAP[n.attr], f".{n.attr} -> .{SWAP[n.attr]}")
        if isinstance(n, (ast.For, ast.comprehension)):
            setter(n, "iter", lambda old: ast.Call(ast.Name("list", ast.Load()), [ast.Call(ast.Name("reversed", ast.Load()), [ast.Call(ast.Name("list", ast.Load()), [old], [])], [])], []), "iterated backwards")
            setter(n, "iter", lambda old: ast.Call(ast.Name("set", ast.Load()), [old], []), "iterated as a set")
            setter(n, "iter", lambda old: ast.Call(ast.Name("sorted", ast.Load()), [old], [ast.keyword("key", ast.Name("str", ast.Load()))]), "iterated sorted")
            setter(n, "iter", lambda old: ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [old], []), ast.Slice(ast.Constant(1), None), ast.Load()), "first left out")
            setter(n, "iter", lambda old: ast.Subscript(ast.Call(ast.Name("list", ast.Load()), [old], []), ast.Slice(None, ast.UnaryOp(ast.USub(), ast.Constant(1))), ast.Load()), "last left out")
        if isinstance(n, ast.comprehension) and n.ifs:
            setter(n, "ifs", [], "filter dropped")
        if isinstance(n, ast.Slice):
            for f in ("lower", "upper", "step"):
                if getattr(n, f) is not None:
                    setter(n, f, None, f"slice without {f}")
        if isinstance(n, (ast.Tuple, ast.List)) and isinstance(n.ctx, ast.Load) and len(n.elts) > 1:
            for i in range(len(n.elts) - 1):
                setter(n, "elts", lambda old, i=i: old[:i] + [old[i + 1], old[i]] + old[i + 2:], "elements exchanged")
        if isinstance(n, ast.Return) and n.value is not None:
            setter(n, "value", ast.Constant(None), "returns None")
        if isinstance(n, ast.Raise):
            for o in ("ValueError", "KeyError"):
                setter(n, "exc", ast.Call(ast.Name(o, ast.Load()), [], []), f"raises {o}")
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if not isinstance(b, list) or not b or not isinstance(b[0], ast.stmt):
                continue
            for i, s in enumerate(b):
                if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass)) or s in doc or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                if isinstance(s, ast.AnnAssign) and s.value is None:
                    continue
                setter(n, f, lambda old, i=i: old[:i] + [ast.Pass()] + old[i + 1:], f"{type(s).__name__} removed")
                if isinstance(s, ast.With):
                    setter(n, f, lambda old, i=i: old[:i] + old[i].body + old[i + 1:], "with removed")
                if isinstance(s, ast.Try):
                    setter(n, f, lambda old, i=i: old[:i] + old[i].body + old[i].orelse + old[i].finalbody + old[i + 1:], "try removed")
                if isinstance(s, (ast.For, ast.While)):
                    setter(s, "body", lambda old: old + [ast.Break()], "only one round")
                if i + 1 < len(b) and not isinstance(b[i + 1], (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                    setter(n, f, lambda old, i=i: old[:i] + [old[i + 1], old[i]] + old[i + 2:], "statements exchanged")
                if isinstance(s, ast.Expr):
                    setter(n, f, lambda old, i=i: old[:i] + [old[i], copy.deepcopy(old[i])] + old[i + 1:], "statement repeated")
        if isinstance(n, ast.FunctionDef) and n.decorator_list:
            for i in range(len(n.decorator_list)):
                setter(n, "decorator_list", lambda old, i=i: old[:i] + old[i + 1:], "decorator dropped")
    return out


def mutants():
    """[(file, description, line-level difference, text)]"""
    out, seen = [], set()
    for p in sorted(glob.glob(os.path.join(REPO, "src", "protosym", "**", "*.py"), recursive=True)):
        rel = os.path.relpath(p, REPO)
        src = open(p).read()
        tree = ast.parse(src)
        base = ast.unparse(tree)
        for what, do in edits(tree):
            undo = do()
            try:
                text = ast.unparse(ast.fix_missing_locations(tree))
                ast.parse(text)
            except Exception:
                text = None
            undo()
            if text is None or text == base:
                continue
            k = hashlib.sha1((rel + text).encode()).hexdigest()
            if k in seen:
                continue
            seen.add(k)
            d = [l for l in difflib.unified_diff(base.split("\n"), text.split("\n"), n=0, lineterm="")][2:]
            out.append((rel, what, "\n".join(d), text, k[:10]))
    return out


def scratch():
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    for n in ("src", "tests", "pyproject.toml", "VERSION.txt", "README.md", "README.rst"):
        p = os.path.join(REPO, n)
        if os.path.isdir(p):
            shutil.copytree(p, os.path.join(d, n), ignore=shutil.ignore_patterns("__pycache__"))
        elif os.path.exists(p):
            shutil.copy(p, d)
    return d


_dir = None


def tested(m):
    global _dir
    if _dir is None:
        _dir = scratch()
    rel, what, diff, text, k = m
    p = os.path.join(_dir, rel)
    old = open(p).read()
    open(p, "w").write(text)
    env = {"PATH": os.environ["PATH"], "HOME": "/root", "LANG": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "PYTHONPATH": os.path.join(_dir, "src")}
    try:
        r = subprocess.run(["prlimit", "--as=6000000000", "/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "no:benchmark", "--timeout=20", "--xdoctest", "tests", "src/protosym"],
                           cwd=_dir, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = 99
    open(p, "w").write(old)
    return m, rc


def checked(m):
    import check
    d = tempfile.mkdtemp(prefix="muc", dir="/tmp")
    try:
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "src"), ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(d, m["file"]), "w").write(m["text"])
        from pstatic import rules
        res = {}
        for p in sorted(rules.CHECKS):
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
                try:
                    rc = check.run(p, d, "quick", d)
                except SystemExit as e:
                    rc = e.code
                except Exception:
                    rc = "crash"
            o = buf.getvalue()
            res[p] = (rc, sum(l.startswith("UNDECIDED") for l in o.splitlines()))
        return m, res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("mode")
    ap.add_argument("file")
    ap.add_argument("results", nargs="?")
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-c", type=int, default=0)
    ap.add_argument("-f", default="")
    ap.add_argument("--names", type=int, default=1500)
    a = ap.parse_args()
    jobs = int(os.environ.get("JOBS", "8"))
    if a.mode == "tests":
        ms = [m for m in mutants() if a.f in m[0]]
        random.Random(a.s).shuffle(ms)
        # of exchanged names only some
        names = [m for m in ms if " -> " in m[1] and m[1].split(" -> ")[0].isidentifier()]
        drop = {x[4] for x in names[a.names:]}
        ms = [m for m in ms if m[4] not in drop]
        if a.c:
            ms = ms[:a.c]
        print(len(ms), "mutants", flush=True)
        n = 0
        with Pool(jobs) as pool, open(a.file, "w") as f:
            for m, rc in pool.imap_unordered(tested, ms):
                if rc == 0:
                    n += 1
                    f.write(json.dumps({"file": m[0], "what": m[1], "diff": m[2], "text": m[3], "id": m[4]}) + "\n")
                    f.flush()
        for d in glob.glob("/tmp/mut*"):
            if os.path.isdir(d):
                shutil.rmtree(d, ignore_errors=True)
        print(n, "pass the tests")
    else:
        ms = [json.loads(l) for l in open(a.file)]
        with Pool(jobs, maxtasksperchild=3) as pool, open(a.results, "w") as f:
            for m, res in pool.imap_unordered(checked, ms):
                hit = [p for p, r in res.items() if r[0] == 1]
                und = {p: r[1] for p, r in res.items() if r[1]}
                odd = [p for p, r in res.items() if r[0] not in (0, 1)]
                f.write(json.dumps({"id": m["id"], "file": m["file"], "what": m["what"], "diff": m["diff"], "hit": hit, "und": und, "odd": odd}) + "\n")
                f.flush()


if __name__ == "__main__":
    main()
