#!/usr/bin/env python3
"""Rewrites every module of /repo in many ways that keep its behaviour and runs all checks on each result: none may report anything.

refactor.py [-k TEXT] [-f] [-t]     -f: one function at a time, -t: run the tests of the repository on each result too
"""
import argparse
import ast
import contextlib
import copy
import io
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from multiprocessing import Pool

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
SRC = "src/protosym"


class Tr(ast.NodeTransformer):
    """Base: only=None or the (class, name) of the one function to change."""
    only = None
    count = 0

    def fresh(self, stem="tmp"):
        self.count += 1
        return f"{stem}_{self.count}"

    def blocks(self, node):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield f, b
        for h in getattr(node, "handlers", []):
            yield "body", h.body

    def change(self, tree):
        for fn in functions(tree):
            if self.only is None or label(tree, fn) == self.only:
                self.fn(fn, tree)
        return tree

    def fn(self, fn, tree):
        rewrite_blocks(fn, self.block)

    def block(self, stmts, owner):
        out = []
        for s in stmts:
            r = self.stmt(s, owner)
            out += r if isinstance(r, list) else [r]
        return out

    def stmt(self, s, owner):
        return s


def functions(tree):
    return [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]


def label(tree, fn):
    for c in ast.walk(tree):
        if isinstance(c, ast.ClassDef) and fn in c.body:
            return f"{c.name}.{fn.name}"
    return fn.name


def rewrite_blocks(fn, f):
    """Bottom up, not into nested functions and classes."""
    def go(node):
        for name in ("body", "orelse", "finalbody"):
            b = getattr(node, name, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for s in b:
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                        go(s)
                setattr(node, name, f(b, node))
        for h in getattr(node, "handlers", []):
            go(h)
    go(fn)


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def own(fn):
    """Nodes of a function without those of nested functions and classes."""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo += list(ast.iter_child_nodes(n))


class Locals(Tr):
    """local variables get other names"""
    def fn(self, fn, tree):
        nested = [n for n in ast.walk(fn) if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn]
        out = {x for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        params = {a.arg for f in [fn, *nested] if isinstance(f, ast.FunctionDef) for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs + [f.args.vararg, f.args.kwarg] if a}
        params |= {a.arg for n in ast.walk(fn) if isinstance(n, ast.Lambda) for a in n.args.args}
        mine = {n.id for n in own(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - out - params
        mine -= {x.id for n in nested for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in mine:
                n.id = n.id + "_v"


class Invert(Tr):
    """if c: A else: B  ->  if not c: B else: A"""
    def stmt(self, s, owner):
        if isinstance(s, ast.If) and s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)
        return s


def ends(b):
    return isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) or isinstance(b[-1], ast.If) and b[-1].orelse and ends(b[-1].body) and ends(b[-1].orelse)


class DeElse(Tr):
    """if c: ...; return X  else: B  ->  early return"""
    def stmt(self, s, owner):
        if isinstance(s, ast.If) and s.orelse and ends(s.body):
            return [ast.If(s.test, s.body, []), *s.orelse]
        return s


class Else(Tr):
    """if c: return X; B  ->  else: B"""
    def block(self, b, owner):
        for i in range(len(b) - 2, -1, -1):
            s = b[i]
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and not any(isinstance(x, (ast.FunctionDef, ast.ClassDef)) for x in b[i + 1:]):
                b = b[:i] + [ast.If(s.test, s.body, b[i + 1:])]
        return b


class ReturnTemp(Tr):
    """return E  ->  result = E; return result"""
    def stmt(self, s, owner):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            n = self.fresh("result")
            return [ast.Assign([name(n, ast.Store())], s.value), ast.Return(name(n))]
        return s


class Inline(Tr):
    """x = E; return g(x)  ->  return g(E)"""
    def block(self, b, owner):
        out = list(b)
        i = 0
        while i + 1 < len(out):
            s, t = out[i], out[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(t, ast.Return) and t.value is not None:
                v = s.targets[0].id
                uses = [n for n in ast.walk(t) if isinstance(n, ast.Name) and n.id == v]
                first = next((n for n in ast.walk(t.value)), None)
                inl = any(isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp)) for n in ast.walk(t))
                calls = [n for n in ast.walk(t) if isinstance(n, ast.Call)]
                if len(uses) == 1 and not inl and len(calls) <= 1 and first is not None:
                    class R(ast.NodeTransformer):
                        def visit_Name(self, n):
                            return s.value if n.id == v else n
                    out[i:i + 2] = [R().visit(t)]
                    continue
            i += 1
        return out


class Loop(Tr):
    """list comprehensions become loops"""
    def stmt(self, s, owner):
        v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
        if isinstance(v, ast.ListComp) and len(v.generators) == 1 and (isinstance(s, ast.Return) or len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
            g = v.generators[0]
            n = self.fresh("items")
            body = [ast.Expr(ast.Call(ast.Attribute(name(n), "append", ast.Load()), [v.elt], []))]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            # the variable of a comprehension is its own
            names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            new = [ast.Assign([name(n, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
            for x in [y for z in [new[1].target, *new[1].body] for y in ast.walk(z)]:
                if isinstance(x, ast.Name) and x.id in names:
                    x.id += "_i"
            s.value = name(n)
            return [*new, s]
        return s


class MapCall(Tr):
    """[f(x) for x in xs] -> list(map(lambda x: f(x), xs))"""
    def fn(self, fn, tree):
        class R(ast.NodeTransformer):
            def visit_ListComp(self, n):
                self.generic_visit(n)
                if len(n.generators) == 1 and not n.generators[0].ifs and isinstance(n.generators[0].target, ast.Name) and not any(isinstance(x, ast.Starred) for x in ast.walk(n.elt)):
                    g = n.generators[0]
                    lam = ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), n.elt)
                    return ast.Call(name("list"), [ast.Call(name("map"), [lam, g.iter], [])], [])
                return n
        R().visit(fn)


class Ternary(Tr):
    """x = a if c else b  ->  if"""
    def stmt(self, s, owner):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
            e = s.value
            a, b = copy.deepcopy(s), copy.deepcopy(s)
            a.value, b.value = e.body, e.orelse
            return ast.If(e.test, [a], [b])
        return s


class ToTernary(Tr):
    """if c: x = a else: x = b  ->  x = a if c else b"""
    def stmt(self, s, owner):
        if isinstance(s, ast.If) and len(s.body) == 1 == len(s.orelse):
            a, b = s.body[0], s.orelse[0]
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value and b.value:
                return ast.Return(ast.IfExp(s.test, a.value, b.value))
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and ast.dump(a.targets[0]) == ast.dump(b.targets[0]) and isinstance(a.targets[0], ast.Name):
                return ast.Assign(a.targets, ast.IfExp(s.test, a.value, b.value))
        return s


class Fstring(Tr):
    """f-strings become concatenations"""
    def fn(self, fn, tree):
        class R(ast.NodeTransformer):
            def visit_JoinedStr(self, n):
                self.generic_visit(n)
                if any(isinstance(v, ast.FormattedValue) and v.format_spec for v in n.values) or not n.values:
                    return n
                out = None
                for v in n.values:
                    p = v if isinstance(v, ast.Constant) else ast.Call(name("repr" if v.conversion == 114 else "str"), [v.value], [])
                    out = p if out is None else ast.BinOp(out, ast.Add(), p)
                return out
        R().visit(fn)


class Format(Tr):
    """f-strings become format()"""
    def fn(self, fn, tree):
        class R(ast.NodeTransformer):
            def visit_JoinedStr(self, n):
                self.generic_visit(n)
                if any(isinstance(v, ast.FormattedValue) and v.format_spec for v in n.values) or not n.values:
                    return n
                text, args = "", []
                for v in n.values:
                    if isinstance(v, ast.Constant):
                        text += v.value.replace("{", "{{").replace("}", "}}")
                    else:
                        text += "{!r}" if v.conversion == 114 else "{}"
                        args.append(v.value)
                return ast.Call(ast.Attribute(ast.Constant(text), "format", ast.Load()), args, [])
        R().visit(fn)


class Args(Tr):
    """calls in arguments are computed into a variable first"""
    def stmt(self, s, owner):
        if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(s.value, ast.Call):
            pre = []
            c = s.value
            if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Call) or any(isinstance(n, (ast.Lambda, ast.NamedExpr)) for n in ast.walk(c)):
                return s
            for i, a in enumerate(c.args):
                if isinstance(a, (ast.Call, ast.BinOp, ast.Subscript, ast.ListComp)):
                    n = self.fresh("arg")
                    pre.append(ast.Assign([name(n, ast.Store())], a))
                    c.args[i] = name(n)
            if isinstance(s, ast.Expr) and isinstance(c.func, ast.Name) and c.func.id == "super":
                return s
            return [*pre, s]
        return s


class SplitAnd(Tr):
    """if a and b: S  ->  if a: if b: S"""
    def stmt(self, s, owner):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            return ast.If(s.test.values[0], [ast.If(ast.BoolOp(ast.And(), s.test.values[1:]) if len(s.test.values) > 2 else s.test.values[1], s.body, [])], [])
        return s


class JoinAnd(Tr):
    """if a: if b: S  ->  if a and b: S"""
    def stmt(self, s, owner):
        if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
            return ast.If(ast.BoolOp(ast.And(), [s.test, s.body[0].test]), s.body[0].body, [])
        return s


class CondTemp(Tr):
    """conditions are computed into a variable first"""
    def stmt(self, s, owner):
        if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
            n = self.fresh("cond")
            return [ast.Assign([name(n, ast.Store())], s.test), ast.If(name(n), s.body, s.orelse)]
        return s


class WhileTrue(Tr):
    """while c: S  ->  while True: if not c: break; S"""
    def stmt(self, s, owner):
        if isinstance(s, ast.While) and not s.orelse and not isinstance(s.test, ast.Constant):
            return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Break()], []), *s.body], [])
        return s


class Helper(Tr):
    """the body of every function goes into a helper"""
    def change(self, tree):
        for owner in [tree, *[c for c in ast.walk(tree) if isinstance(c, ast.ClassDef)]]:
            out = []
            for s in owner.body:
                if isinstance(s, ast.FunctionDef) and (self.only is None or label(tree, s) == self.only) and self.fit(s):
                    h = copy.deepcopy(s)
                    h.name = f"_{s.name.replace('__', 'd')}_body"
                    h.decorator_list = [d for d in h.decorator_list if isinstance(d, ast.Name) and d.id in ("classmethod", "staticmethod")] if owner is not tree else []
                    doc = s.body[:1] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
                    h.body = h.body[len(doc):]
                    a = s.args
                    names = [x.arg for x in a.args]
                    skip = 1 if owner is not tree and not any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in s.decorator_list) else 0
                    f = name(h.name) if owner is tree else ast.Attribute(name(names[0]), h.name, ast.Load())
                    call = ast.Call(f, [name(x) for x in names[skip:]] + ([ast.Starred(name(a.vararg.arg), ast.Load())] if a.vararg else []),
                                    [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs])
                    s.body = [*doc, ast.Return(call)]
                    out += [h, s]
                else:
                    out.append(s)
            owner.body = out
        return tree

    def fit(self, s):
        if s.name == "__new__" or s.args.kwarg or any(isinstance(n, ast.Name) and n.id in ("super", "__class__") for n in ast.walk(s)):
            return False
        if s.args.vararg and not s.args.args:
            return False
        if not s.body or len(s.body) == 1 and isinstance(s.body[0], ast.Expr) or any(isinstance(d, ast.Name) and d.id == "overload" for d in s.decorator_list):
            return False
        return not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(s))


class FreeHelper(Helper):
    """the body of every method goes into a function of the module"""
    def change(self, tree):
        extra = []
        for c in [c for c in tree.body if isinstance(c, ast.ClassDef)]:
            for s in c.body:
                if isinstance(s, ast.FunctionDef) and (self.only is None or label(tree, s) == self.only) and self.fit(s) and s.args.args \
                        and not any(isinstance(d, ast.Name) and d.id in ("staticmethod",) for d in s.decorator_list) \
                        and not any(isinstance(n, ast.Attribute) and n.attr.startswith("__") and not n.attr.endswith("__") for n in ast.walk(s)):
                    h = copy.deepcopy(s)
                    h.name = f"_{c.name.lower().strip('_')}_{s.name.replace('__', 'd')}"
                    h.decorator_list = []
                    doc = s.body[:1] if isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) else []
                    h.body = h.body[len(doc):]
                    a = s.args
                    call = ast.Call(name(h.name), [name(x.arg) for x in a.args] + ([ast.Starred(name(a.vararg.arg), ast.Load())] if a.vararg else []),
                                    [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs])
                    s.body = [*doc, ast.Return(call)]
                    extra.append((c, h))
        for c, h in extra:
            tree.body.insert(tree.body.index(c) + 1, h)
        return tree


class Tail(Tr):
    """the last statements of a function go into a helper that gets the local variables it needs"""
    def change(self, tree):
        extra = []
        for s in functions(tree):
            if self.only is not None and label(tree, s) != self.only:
                continue
            top = s in tree.body or any(s in c.body for c in tree.body if isinstance(c, ast.ClassDef))
            if not top or s.name == "__new__" or len(s.body) < 3 or any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Global, ast.Nonlocal)) and n is not s for n in ast.walk(s)) \
                    or any(isinstance(n, ast.Name) and n.id in ("super", "__class__") for n in ast.walk(s)):
                continue
            i = len(s.body) - 2
            if not isinstance(s.body[-1], ast.Return):
                continue
            part = s.body[i:]
            inner = {id(n) for b in s.body[:i] for c in ast.walk(b) if isinstance(c, ast.comprehension) for n in ast.walk(c.target)}
            known = {a.arg for a in s.args.args + s.args.kwonlyargs + [s.args.vararg, s.args.kwarg] if a} | \
                {n.id for b in s.body[:i] for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in inner}
            known |= {a.asname or a.name for b in s.body[:i] for n in ast.walk(b) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
            need = sorted({n.id for b in part for n in ast.walk(b) if isinstance(n, ast.Name)} & known)
            h = self.fresh(f"_{s.name.strip('_')}_rest")
            fn = ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in need], None, [], [], None, []), part, [], None)
            s.body = s.body[:i] + [ast.Return(ast.Call(name(h), [name(x) for x in need], []))]
            owner = next((c for c in tree.body if c is s or isinstance(c, ast.ClassDef) and s in c.body))
            extra.append((owner, fn))
        for o, fn in extra:
            tree.body.insert(tree.body.index(o), fn)
        return tree


class LoopBody(Tr):
    """the value that is appended in a loop is computed by a local function"""
    def stmt(self, s, owner):
        if isinstance(s, ast.For) and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Call) \
                and isinstance(s.body[0].value.func, ast.Attribute) and s.body[0].value.func.attr == "append" and isinstance(s.target, ast.Name):
            n = self.fresh("item_of")
            c = s.body[0].value
            fn = ast.FunctionDef(n, ast.arguments([], [ast.arg(s.target.id)], None, [], [], None, []), [ast.Return(c.args[0])], [], None)
            c.args = [ast.Call(name(n), [name(s.target.id)], [])]
            return [fn, s]
        return s


class Counter(Tr):
    """for i, x in enumerate(xs)  ->  a counter"""
    def stmt(self, s, owner):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "enumerate" and isinstance(s.target, ast.Tuple) \
                and not any(isinstance(n, ast.Continue) for n in ast.walk(s)) and isinstance(s.target.elts[0], ast.Name):
            i, x = s.target.elts
            start = s.iter.args[1] if len(s.iter.args) > 1 else ast.Constant(0)
            return [ast.Assign([name(i.id, ast.Store())], start), ast.For(x, s.iter.args[0], [*s.body, ast.AugAssign(name(i.id, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        return s


class Reorder(Tr):
    """two assignments of new local variables next to each other that do not use each other change places"""
    def block(self, b, owner):
        out = list(b)
        i = 0
        while i + 1 < len(out):
            s, t = out[i], out[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and self.pure(x.value) for x in (s, t)):
                a, c = s.targets[0].id, t.targets[0].id
                if a != c and not any(isinstance(n, ast.Name) and n.id == a for n in ast.walk(t.value)) and not any(isinstance(n, ast.Name) and n.id == c for n in ast.walk(s.value)):
                    out[i], out[i + 1] = t, s
                    i += 2
                    continue
            i += 1
        return out

    def pure(self, v):
        return not any(isinstance(n, (ast.Call, ast.Yield, ast.Await, ast.NamedExpr)) and not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("len", "list", "set", "dict", "tuple", "zip", "range", "type"))
                       for n in ast.walk(v))


class Pairs(Tr):
    """a = X; b = Y -> a, b = X, Y"""
    def block(self, b, owner):
        out = list(b)
        i = 0
        while i + 1 < len(out):
            s, t = out[i], out[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in (s, t)):
                a, c = s.targets[0].id, t.targets[0].id
                if a != c and not any(isinstance(n, ast.Name) and n.id == a for n in ast.walk(t.value)):
                    out[i:i + 2] = [ast.Assign([ast.Tuple([s.targets[0], t.targets[0]], ast.Store())], ast.Tuple([s.value, t.value], ast.Load()))]
            i += 1
        return out


class Lambdas(Tr):
    """lambdas at module level become functions"""
    def change(self, tree):
        if self.only is not None:
            return tree
        out = []
        for s in tree.body:
            pre = []
            if isinstance(s, (ast.Assign, ast.Expr)):
                me = self

                class R(ast.NodeTransformer):
                    def visit_Lambda(self, n):
                        h = me.fresh("_rule")
                        pre.append(ast.FunctionDef(h, n.args, [ast.Return(n.body)], [], None))
                        return name(h)
                s = R().visit(s)
            out += [*pre, s]
        tree.body = out
        return tree


class Private(Tr):
    """functions, classes and variables of modules whose name is private get another name"""
    whole = True

    def names(self, trees):
        out = set()
        for t in trees.values():
            for s in t.body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    out.add(s.name)
                elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                    for x in s.targets if isinstance(s, ast.Assign) else [s.target]:
                        if isinstance(x, ast.Name):
                            out.add(x.id)
        return {n for n in out if n.startswith("_") and n != "_" and not n.startswith("__")}

    def change_all(self, trees):
        names = self.names(trees)
        for t in trees.values():
            rename(t, names, self.only)
        return trees


class Attrs(Private):
    """private attributes and methods get another name"""
    def names(self, trees):
        out = set()
        for t in trees.values():
            for n in ast.walk(t):
                if isinstance(n, ast.FunctionDef):
                    out.add(n.name)
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    out.add(n.target.id)
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    out.add(n.id)
        return {n for n in out if n.startswith("_") and n != "_" and not n.startswith("__") and n not in ("_repr_latex_", "_sympy_")}


def rename(t, names, only=None):
    new = lambda n: f"{n}_x" if n in names and (only is None or n == only) else n
    for n in ast.walk(t):
        if isinstance(n, ast.Name):
            n.id = new(n.id)
        elif isinstance(n, ast.Attribute):
            n.attr = new(n.attr)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            n.name = new(n.name)
        elif isinstance(n, ast.alias):
            n.name = new(n.name)
            if n.asname:
                n.asname = new(n.asname)
        elif isinstance(n, ast.arg):
            n.arg = new(n.arg)
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value in names:
            n.value = new(n.value)
        elif isinstance(n, ast.Global):
            n.names = [new(x) for x in n.names]


class Params(Tr):
    """parameters of lambdas and of private functions get other names"""
    def change(self, tree):
        for n in ast.walk(tree):
            if isinstance(n, ast.Lambda) or isinstance(n, ast.FunctionDef) and n.name.startswith("_") and not n.name.startswith("__"):
                if self.only is not None:
                    continue
                ps = {a.arg for a in n.args.args if a.arg not in ("self", "cls")}
                for x in ast.walk(n):
                    if isinstance(x, ast.arg) and x.arg in ps:
                        x.arg += "_p"
                    elif isinstance(x, ast.Name) and x.id in ps:
                        x.id += "_p"
        return tree


class NoTypes(Tr):
    """annotations of parameters, results and local variables go"""
    def fn(self, fn, tree):
        fn.returns = None
        for a in fn.args.args + fn.args.kwonlyargs + [x for x in (fn.args.vararg, fn.args.kwarg) if x]:
            a.annotation = None
        super().fn(fn, tree)

    def stmt(self, s, owner):
        if isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
            return ast.Assign([s.target], s.value)
        return s


class NoLocalTypes(NoTypes):
    """annotations of local variables go"""
    def fn(self, fn, tree):
        rewrite_blocks(fn, self.block)


class Aug(Tr):
    """n += 1 -> n = n + 1"""
    def stmt(self, s, owner):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant):
            return ast.Assign([s.target], ast.BinOp(name(s.target.id), s.op, s.value))
        return s


class NotNone(Tr):
    """x is not None -> not (x is None); x not in y -> not (x in y); a != b -> not a == b"""
    def fn(self, fn, tree):
        class R(ast.NodeTransformer):
            def visit_Compare(self, n):
                self.generic_visit(n)
                swap = {ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.NotEq: ast.Eq}
                if len(n.ops) == 1 and type(n.ops[0]) in swap:
                    return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [swap[type(n.ops[0])]()], n.comparators))
                return n
        R().visit(fn)


class SwapEq(Tr):
    """a == b -> b == a"""
    def fn(self, fn, tree):
        class R(ast.NodeTransformer):
            def visit_Compare(self, n):
                self.generic_visit(n)
                if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
                    return ast.Compare(n.comparators[0], n.ops, [n.left])
                return n
        R().visit(fn)


class Attr(Tr):
    """attributes of self that are read more than once are read into a variable first"""
    def fn(self, fn, tree):
        if not fn.args.args or fn.args.args[0].arg != "self" or any(isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn for n in ast.walk(fn)):
            return
        written = {n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del))}
        calls = {n.func.attr for n in ast.walk(fn) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self"}
        reads = [n.attr for n in ast.walk(fn) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load)]
        take = sorted({a for a in reads if a in ("rep", "args", "children", "elements", "entrymap", "nrows", "ncols", "rules", "evaluator", "operations")} - written - calls)
        doc = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
        if not take or len(fn.body) <= doc:
            return
        if isinstance(fn.body[doc], ast.If):
            return

        class R(ast.NodeTransformer):
            def visit_Attribute(self, n):
                self.generic_visit(n)
                if isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr in take and isinstance(n.ctx, ast.Load):
                    return name(f"own_{n.attr}")
                return n
        fn.body = fn.body[:doc] + [ast.Assign([name(f"own_{a}", ast.Store())], ast.Attribute(name("self"), a, ast.Load())) for a in take] + [R().visit(x) for x in fn.body[doc:]]


class Cast(Tr):
    """for x in xs -> for x in list(xs), except where the loop could change it"""
    def stmt(self, s, owner):
        if isinstance(s, ast.For) and isinstance(s.iter, (ast.Attribute, ast.Name)):
            s.iter = ast.Call(name("list"), [s.iter], [])
        return s


class Empty(Tr):
    """not xs for lists -> len(xs) == 0"""
    def fn(self, fn, tree):
        lists = {"children", "args", "diff_terms", "stack", "nodes", "atoms"}

        def is_list(x):
            return isinstance(x, ast.Name) and x.id in lists or isinstance(x, ast.Attribute) and x.attr in lists

        class R(ast.NodeTransformer):
            def test(self, x):
                if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not) and is_list(x.operand):
                    return ast.Compare(ast.Call(name("len"), [x.operand], []), [ast.Eq()], [ast.Constant(0)])
                if is_list(x):
                    return ast.Compare(ast.Call(name("len"), [x], []), [ast.Gt()], [ast.Constant(0)])
                if isinstance(x, ast.BoolOp):
                    x.values = [self.test(v) for v in x.values]
                return x

            def visit_If(self, n):
                self.generic_visit(n)
                n.test = self.test(n.test)
                return n

            def visit_While(self, n):
                self.generic_visit(n)
                n.test = self.test(n.test)
                return n
        R().visit(fn)


class Setdef(Tr):
    """a method of the module's functions is looked up through a local alias"""
    def stmt(self, s, owner):
        if isinstance(s, ast.For) and len(s.body) >= 1:
            apps = {n.func.value.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "append" and isinstance(n.func.value, ast.Name)}
            made = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            pre = []
            for a in sorted(apps - made):
                n = f"add_to_{a}"
                pre.append(ast.Assign([name(n, ast.Store())], ast.Attribute(name(a), "append", ast.Load())))
                for b in s.body:
                    for c in ast.walk(b):
                        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "append" and isinstance(c.func.value, ast.Name) and c.func.value.id == a:
                            c.func = name(n)
            return [*pre, s]
        return s


class Plus(Tr):
    """xs.append(v) -> xs += [v]"""
    def stmt(self, s, owner):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "append" and isinstance(s.value.func.value, ast.Name) and not s.value.func.value.id.startswith("_"):
            return ast.AugAssign(name(s.value.func.value.id, ast.Store()), ast.Add(), ast.List(s.value.args, ast.Load()))
        return s


class Chain(Tr):
    """if/elif chains that end in return become separate ifs"""
    def stmt(self, s, owner):
        if isinstance(s, ast.If) and len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If) and ends(s.body):
            return [ast.If(s.test, s.body, []), *self.chain(s.orelse[0])]
        return s

    def chain(self, s):
        r = self.stmt(s, None)
        return r if isinstance(r, list) else [r]


class Keyword(Tr):
    """positional arguments of functions of the same module become keyword arguments"""
    def change(self, tree):
        fns = {s.name: s for s in tree.body if isinstance(s, ast.FunctionDef) and not s.args.vararg and not s.args.posonlyargs}
        for f in functions(tree):
            if self.only is not None and label(tree, f) != self.only:
                continue
            for n in ast.walk(f):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in fns and not any(isinstance(a, ast.Starred) for a in n.args):
                    ps = [a.arg for a in fns[n.func.id].args.args]
                    n.keywords = [ast.keyword(p, a) for p, a in zip(ps, n.args)] + n.keywords
                    n.args = []
        return tree


KINDS = {c.__name__.lower(): c for c in (Locals, Invert, DeElse, Else, ReturnTemp, Inline, Loop, MapCall, Ternary, ToTernary, Fstring, Format, Args, SplitAnd, JoinAnd, CondTemp,
                                         WhileTrue, Helper, FreeHelper, Tail, LoopBody, Counter, Reorder, Pairs, Lambdas, Private, Attrs, Params, NoTypes, NoLocalTypes, Aug, NotNone,
                                         SwapEq, Attr, Cast, Empty, Setdef, Plus, Chain, Keyword)}


def modules():
    out = []
    for d, _, fs in os.walk(f"/repo/{SRC}"):
        out += [os.path.relpath(os.path.join(d, f), f"/repo/{SRC}") for f in fs if f.endswith(".py") and f not in ("__main__.py",)]
    return sorted(out)


def make(kind, module, only):
    """{module: text} of a rewriting; empty when nothing changes."""
    c = KINDS[kind]()
    c.only = only
    if getattr(c, "whole", False):
        trees = {m: ast.parse(open(f"/repo/{SRC}/{m}").read()) for m in modules()}
        before = {m: ast.unparse(t) for m, t in trees.items()}
        c.change_all(trees)
        after = {m: ast.unparse(ast.fix_missing_locations(t)) for m, t in trees.items()}
        return {m: x + "\n" for m, x in after.items() if x != before[m]}
    t = ast.parse(open(f"/repo/{SRC}/{module}").read())
    before = ast.unparse(t)
    x = ast.unparse(ast.fix_missing_locations(c.change(t)))
    return {module: x + "\n"} if x != before else {}


def compose(kinds, module):
    """Several rewritings of a module (of all modules) one after the other."""
    texts = {m: open(f"/repo/{SRC}/{m}").read() for m in modules()}
    first = {m: ast.unparse(ast.parse(x)) for m, x in texts.items()}
    for k in kinds:
        c = KINDS[k]()
        c.only = None
        trees = {m: ast.parse(x) for m, x in texts.items()}
        if getattr(c, "whole", False):
            c.change_all(trees)
        else:
            for m in trees:
                if module in ("", m):
                    trees[m] = c.change(trees[m])
        texts = {m: ast.unparse(ast.fix_missing_locations(t)) for m, t in trees.items()}
    return {m: x + "\n" for m, x in texts.items() if x != first[m]}


def one(job):
    kind, module, only, props, tests = job
    label_ = f"{kind} {module or ''} {only or ''}".strip()
    try:
        files = compose(kind.split("+"), module) if "+" in kind else make(kind, module, only)
    except Exception as e:
        return label_, None, f"{type(e).__name__}: {e}", ""
    if not files:
        return label_, {}, None, ""
    import check
    d = tempfile.mkdtemp(prefix="refac-", dir="/tmp")
    try:
        shutil.copytree("/repo/src", f"{d}/src", ignore=shutil.ignore_patterns("__pycache__"))
        for m, x in files.items():
            open(f"{d}/{SRC}/{m}", "w").write(x)
        note = None
        if tests:
            shutil.copytree("/repo/tests", f"{d}/tests", ignore=shutil.ignore_patterns("__pycache__"))
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d, env={**os.environ, "PYTHONPATH": f"{d}/src", "PYTHONDONTWRITEBYTECODE": "1"},
                               capture_output=True, text=True)
            if r.returncode:
                return label_, None, "tests fail: " + r.stdout.strip().splitlines()[-1] + next((x for x in r.stdout.splitlines() if x.startswith("E ")), ""), ""
        res, out = {}, io.StringIO()
        for p in props:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                rc = check.run(p, d, "quick", f"{d}/ev")
            und = len(json.load(open(f"{d}/ev/{p}.json"))["coverage"]["undecided"]) if rc < 2 else 0
            res[p] = (rc, und)
        return label_, res, None, out.getvalue()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-k", default="")
    ap.add_argument("-m", default="")
    ap.add_argument("-f", action="store_true")
    ap.add_argument("-c", type=int, default=0, help="this many random compositions instead")
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-t", action="store_true")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--props", default="")
    ap.add_argument("--show", action="store_true")
    a = ap.parse_args()
    from pstatic import rules
    props = a.props.split(",") if a.props else sorted(rules.CHECKS)
    jobs = []
    rnd = random.Random(a.s)
    for _ in range(a.c):
        ks = rnd.sample(sorted(KINDS), rnd.randint(2, 5))
        m = rnd.choice([m for m in modules() if a.m in m] if a.m else modules() + [""] * 4)
        jobs.append(("+".join(ks), m, None, props, True))
    if "+" in a.k:
        jobs.append((a.k, a.m, None, props, True))
    for k in KINDS:
        if a.c or a.k and k not in a.k.split(","):
            continue
        if getattr(KINDS[k], "whole", False):
            onlys = [None]
            if a.f:
                c = KINDS[k]()
                onlys = sorted(c.names({m: ast.parse(open(f"/repo/{SRC}/{m}").read()) for m in modules()}))
            jobs += [(k, None, o, props, a.t) for o in onlys]
            continue
        for m in modules():
            if a.m and a.m not in m:
                continue
            onlys = [None]
            if a.f:
                t = ast.parse(open(f"/repo/{SRC}/{m}").read())
                onlys = list(dict.fromkeys(label(t, f) for f in functions(t)))
            jobs += [(k, m, o, props, a.t) for o in onlys]
    if a.show:
        for k, m, o, *_ in jobs:
            for f, x in (compose(k.split("+"), m) if "+" in k else make(k, m, o)).items():
                print(x)
        return 0
    n = bad = 0
    und = {}
    with Pool(int(os.environ.get("JOBS", "8")), maxtasksperchild=3) as pool:
        for lab, res, err, out in pool.imap_unordered(one, jobs):
            if err:
                print(f"!! {lab}: {err}", flush=True)
                continue
            if not res:
                continue
            n += 1
            al = [f"{p}(rc={rc})" for p, (rc, _) in res.items() if rc]
            for p, (rc, u) in res.items():
                if u:
                    und.setdefault(lab, []).append(f"{p}:{u}")
            if al:
                bad += 1
                print(f"ALARM {lab}: {' '.join(al)}", flush=True)
            if a.v or al:
                print("   " + "\n   ".join(x[:300] for x in out.splitlines() if "[" in x and "KNOWN" not in x and "UNDEC" not in x or "ERROR" in x), flush=True)
    print(f"{n} rewritings, {bad} with an alarm, {len(und)} with something undecided")
    for lab in sorted(und):
        print(f"  undecided {lab}: {' '.join(und[lab])}")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
