"""C09: no recursion along expressions, and every distinct subexpression is handled once."""
from __future__ import annotations

import ast

from .lib import *  # noqa
from .lib import show_
from . import effects, graph

TREE = "protosym.core.tree."
SORT, SPLIT, GRAPH = (TREE + n for n in ("topological_sort", "topological_split", "forward_graph"))
TRAVERSE = (SORT, SPLIT, GRAPH)
NODES = ("Tree", "Sym", "Expr")
OPERANDS = ("children", "args")
# documented as recursive, and conversion of objects of SymPy, which nest by recursion themselves
RECURSIVE = {"protosym.core.evaluate.Evaluator.eval_recursive"}
FROM_SYMPY = "from_sympy"
TEXTS = ("__repr__", "__str__", "__format__", "_repr_latex_", "eval_repr", "eval_latex")
TEXT_FNS = ("builtins.str", "builtins.repr", "builtins.format", "builtins.ascii", "builtins.hash")
WHOLE = ("copy.deepcopy", "pickle.dumps", "pickle.loads", "pickle.dump", "pickle.load", "marshal.dumps", "marshal.loads", "builtins.eval", "builtins.exec",
         "builtins.compile", "ast.parse", "ast.literal_eval", "sympy.sympify", "sympy.parse_expr", "sympy.parsing.sympy_parser.parse_expr",
         "sys.setrecursionlimit", "threading.stack_size", "json.dumps", "json.loads", "dataclasses.asdict", "dataclasses.astuple")


def nodes_of(t):
    """A collection of subexpressions: operands, or the result of a traversal."""
    return contains(t, lambda s: s.op == "attr" and s.args[1] in OPERANDS or s.op == "app" and s.args[0].op == "fn" and s.args[0].args[0].qual in TRAVERSE)


def from_operands(t, r, seen=None):
    """A value that is made of operands of something: an element of children or args."""
    seen = set() if seen is None else seen
    todo = [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "attr" and x.args[1] in OPERANDS:
            return True
        if x.op in ("elem", "popped", "key") and nodes_of(x.args[0]):
            return True
        if x.op == "obj":
            o = x.args[0]
            todo += [y for i in o.init for y in (i if isinstance(i, tuple) else (i,))]
            todo += [y for e in r.effects if e.kind == "mut" and e.base is x for y in e.args]
        if x.op in ("mu", "out"):
            L, n = x.args
            todo += [L.init.get(n), L.back.get(n)]
        todo += list(flat(x.args))
    return False


def flat(xs):
    for x in xs:
        if isinstance(x, T):
            yield x
        elif isinstance(x, (tuple, list, frozenset)):
            yield from flat(x)


def entries(ctx):
    for r in ctx.everything():
        if effects.is_documented(r.fn):
            yield r


def allowed(fn):
    return fn.qual in RECURSIVE or from_sympy_(fn)


def from_sympy_(fn):
    return any(FROM_SYMPY in x for x in (fn.name, fn.qual.split(".")[-2]))


def recursion(ctx, rule="no-recursion"):
    """No function that a documented entry reaches calls itself with operands of its argument."""
    n = 0
    for r in entries(ctx):
        fn = r.fn
        if allowed(fn):
            continue
        n += 1
        clean = True
        for e in r.effects:
            if e.kind != "call" or e.name != "recursive":
                continue
            g = e.base.args[0]
            args = [a for a in e.args if isinstance(a, T)]
            if from_sympy_(g):
                continue
            if any(from_operands(a, r) for a in args):
                clean = False
                ctx.bad(rule, fn.short, e.where(), f"{g.short} calls itself with operands of its argument ({', '.join(show_(a)[:80] for a in args)}): "
                        "the depth of the calls is the depth of the expression")
            elif any(is_node(r.it.typeof(a)) for a in args) and not counted(args, r):
                clean = False
                ctx.und(rule, fn.short, e.where(), f"{g.short} calls itself with {', '.join(show_(a)[:80] for a in args)}")
        if clean:
            ctx.ok(rule, fn.short, f"{fn.module.rel}:{fn.node.lineno}", f"{len(r.it.calls)} calls")
    ctx.ok(rule, "package", "", f"{n} documented entry points: no call chain returns to one of its functions with operands")
    return n


def by_name(ctx, rule="no-recursion"):
    """No method calls the method of its own name of an operand."""
    runs = ctx.everything()
    called = {f.args[1] for r in runs for _, f, *_ in r.it.calls if f.op == "attr"}
    called |= {f.args[0].name for r in runs for _, f, *_ in r.it.calls if f.op == "fn" and f.args[0] is not r.fn}
    for r in runs:
        fn = r.fn
        if fn.cls is None or not (effects.is_documented(fn) or fn.name in called) or allowed(fn):
            continue
        found = {}
        for caller, f, node, loops, gate, args, module in r.it.calls:
            if f.op == "attr" and f.args[1] == fn.name and from_operands(f.args[0], r):
                found[getattr(node, "lineno", 0)] = (f, module)
        for line, (f, module) in found.items():
            ctx.bad(rule, fn.short, f"{module.rel if module else '?'}:{line}", f"calls {fn.name} of its operands ({show_(f.args[0])[:80]}): the depth of the calls is the depth of the expression")


def is_node(ty):
    return ty is not None and (ty.args[0] == "inst" and ty.args[1].op == "cls" and any(c.name in NODES for c in ty.args[1].args[0].mro())
                               or ty.args[0] in ("listof", "tuplevar", "setof") and is_node(ty.args[1]))


def counted(args, r):
    """A number that gets smaller bounds the calls."""
    return any(a.op in ("lin", "bin") and (ty := r.it.typeof(a)) is not None and ty.args[0] == "int" for a in args)


# ------------------------------------------------------------------ recursion through texts and hashes

def texts_in(t):
    """[(term, what)]: the values whose text or hash is taken in a term."""
    for s in subterms(t):
        if s.op == "fmt":
            for p in s.args[0]:
                if p[0] != "lit" and isinstance(p[1], T):
                    yield p[1], "the text"
        elif s.op == "app" and s.args[0].op == "ext":
            f = s.args[0].args[0]
            if f in TEXT_FNS and s.args[1]:
                yield s.args[1][0], "the hash" if f == "builtins.hash" else "the text"
            elif f == "builtins.map" and len(s.args[1]) > 1 and s.args[1][0].op == "ext" and s.args[1][0].args[0] in TEXT_FNS:
                yield mk("elem", s.args[1][1], None), "the text"


def values(r):
    for o in r.returns:
        yield o.value, o.where()
        for l, _ in o.gate:
            yield l, o.where()
    for e in r.effects:
        for a in e.args:
            if isinstance(a, T):
                yield a, e.where()
        for l, _ in e.gate:
            yield l, e.where()


def implicit(ctx, rule="no-recursion"):
    """Texts, hashes and comparisons of nodes do not use those of their operands."""
    for r0 in ctx.everything():
        fn = r0.fn
        own = fn.cls is not None and ctx.prog.is_node(fn.cls) and fn.name.startswith("__") and fn.name.endswith("__")
        r = r0
        if own and fn.name in ("__repr__", "__str__", "__format__", "__hash__"):
            r = inner(ctx, fn)
            clean = True
            for v, where in values(r):
                for x, what in texts_in(v):
                    if operand(x) and (is_node(r.it.typeof(x)) or what == "the hash" or x.op != "elem"):
                        clean = False
                        ctx.bad(rule, fn.short, where, f"takes {what} of {show_(x)[:100]}: the same again for its operands, to any depth")
            for e in r.effects:
                if e.kind == "call" and e.name == "recursive" and any(isinstance(a, T) and from_operands(a, r) for a in e.args):
                    clean = False
            if clean:
                ctx.ok(rule, f"{fn.short} (implicit)", f"{fn.module.rel}:{fn.node.lineno}", "no text or hash of an operand")
        elif own and fn.name in ("__eq__", "__ne__"):
            clean = True
            for v, where in values(r):
                for s in subterms(v):
                    if s.op == "cmp" and s.args[0] in ("==", "!=") and all(contains(x, lambda y: y.op == "attr" and y.args[1] in OPERANDS) for x in s.args[1:]):
                        clean = False
                        ctx.bad(rule, fn.short, where, f"compares operands by {show_(s)[:100]}: the same again for theirs, to any depth")
            if clean:
                ctx.ok(rule, f"{fn.short} (implicit)", f"{fn.module.rel}:{fn.node.lineno}", "no comparison of operands")


def operand(x):
    """An operand of a node (a head is not), or all of them."""
    if x.op == "app" and x.args[0].op == "ext" and x.args[0].args[0] in ("builtins.tuple", "builtins.list", "builtins.frozenset", "builtins.set") and x.args[1]:
        return operand(x.args[1][0])
    if x.op == "tup":
        return any(operand(y) for y in x.args[0])
    if x.op == "star":
        return operand(x.args[0])
    if x.op == "slice":
        return operand(x.args[0])
    if x.op == "attr":
        return x.args[1] in OPERANDS
    if x.op == "idx":
        return x.args[0].op == "attr" and x.args[0].args[1] in OPERANDS and not (x.args[0].args[1] == "children" and is_const(x.args[1], 0))
    if x.op == "elem":
        return nodes_of(x.args[0]) and not (x.args[0].op == "attr" and x.args[0].args[1] in ("atoms", "operations", "heads"))
    return False


# ------------------------------------------------------------------ work that is repeated

def inner(ctx, fn):
    return ctx.run(fn.qual, opaque=TRAVERSE)


def element(t, loops):
    """A term that changes with the iterations of one of these loops."""
    return contains(t, lambda s: s.op in ("elem", "key", "val", "popped") and len(s.args) > 1 and s.args[1] in loops or s.op in ("mu", "out", "idxvar") and s.args[0] in loops)


def node_loops(loops):
    return [L for L in loops if L.it is not None and nodes_of(L.it)]


def whole(f):
    return f.op == "ext" and (f.args[0] in WHOLE or f.args[0].startswith(("pickle.", "copy.deep")))


def repeated(ctx, rule="once"):
    """Inside a loop over the subexpressions of an expression no traversal of one of them starts."""
    n = 0
    for r0 in entries(ctx):
        fn = r0.fn
        if fn.qual in TRAVERSE or allowed(fn):
            continue
        try:
            r = inner(ctx, fn) if fn.qual in ctx.prog_quals else r0
        except KeyError:
            r = r0
        clean = True
        for caller, f, node, loops, gate, args, module in r.it.calls:
            at = f"{module.rel if module else '?'}:{getattr(node, 'lineno', 0)}"
            if f.op == "fn" and f.args[0].qual in TRAVERSE:
                n += 1
                mine = node_loops(loops)
                if mine and any(isinstance(a, T) and element(a, mine) for a in args):
                    clean = False
                    ctx.bad(rule, fn.short, at, f"{f.args[0].name}({', '.join(show_(a)[:60] for a in args if isinstance(a, T))}) for every element of "
                            f"{show_(mine[-1].it)[:80]}: shared parts are handled again for each of them")
            elif whole(f):
                clean = False
                ctx.bad("no-recursion", fn.short, at, f"{f.args[0]}() recurses along what it is given")
        for v, where in values(r):
            if fn.name in TEXTS:
                break
            for x, what in texts_in(v):
                if what == "the text" and operand(x) and is_node(r.it.typeof(x)):
                    clean = False
                    ctx.bad(rule, fn.short, where, f"takes the text of {show_(x)[:80]}: as long as the expression is written")
        for e in [*pushes(r0), *levels(r0)]:
            clean = False
            ctx.bad(rule, fn.short, e.where(), f"the work list {show_(e.base)[:40]} gets {show_(e.args[0])[:80]} without a test whether it was met before: "
                    "shared parts are handled as often as they are written")
        if clean:
            ctx.ok(rule, fn.short, f"{fn.module.rel}:{fn.node.lineno}", f"{len(r.it.calls)} calls")
    ctx.ok(rule, "package", "", f"{n} traversals started, none for the elements of another one")


def pushes(r):
    """Operands that are put on a work list whatever was there before."""
    out = []
    popped = {}
    for e in r.effects:
        if e.kind == "mut" and e.name in ("pop", "popleft") and e.loops and e.base.op == "obj":
            for L in e.loops:
                if L.kind == "while":
                    popped.setdefault(e.base, set()).add(L)
    for e in r.effects:
        if e.kind != "mut" or e.name not in ("append", "extend", "__iadd__", "appendleft", "extendleft", "insert") or not e.args:
            continue
        mine = popped.get(e.base, set()) & set(e.loops)
        if not mine:
            continue
        a = e.args[-1]
        if not from_operands(a, r):
            continue
        if tested(e, a, r):
            continue
        out.append(e)
    return out


def levels(r):
    """A list of nodes that is replaced by the list of all their operands, in a loop."""
    for L in {L for e in r.effects for L in e.loops}:
        if L.kind != "while":
            continue
        for v, x in L.back.items():
            if not (isinstance(x, T) and x.op == "obj" and x.args[0].kind == "list"):
                continue
            me = mk("mu", L, v)
            for e in r.effects:
                if e.kind == "mut" and e.base is x and e.name in ("append", "extend", "__iadd__") and e.args and from_operands(e.args[-1], r) \
                        and any(contains(D.it, lambda s: s is me) for D in e.loops if D.it is not None) and not tested(e, e.args[-1], r):
                    yield e


def tested(e, a, r):
    """Some condition on the way looks up a set or dictionary, or something not understood is looked at."""
    for l, _ in e.gate:
        if contains(l, lambda s: s.op == "contains" or s.op == "app" and s.args[0].op == "attr" and s.args[0].args[1] in ("get", "setdefault", "add", "issubset", "isdisjoint")):
            return True
    if contains(a, lambda s: s.op in ("setop", "contains") or s.op == "bin" and s.args[0] == "-"):
        return True
    for s in subterms(a):
        if s.op == "obj":
            for x in r.effects:
                if x.base is s and x.kind == "mut" and tested(x, NONE, r):
                    return True
    return False


def any_depth(ctx):
    ctx.prog_quals = {f.qual for f in ctx.prog.fns.values()}
    recursion(ctx)
    by_name(ctx)
    implicit(ctx)
    repeated(ctx)
    graph.sorting(ctx)
