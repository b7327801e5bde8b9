"""C04, C05, C06: what calls leave behind, and what the library holds on to."""
from __future__ import annotations

import ast

from . import identity
from .identity import all_classes, constructors, is_node_term, is_weak, node_classes, store_terms
from .lib import *  # noqa
from .lib import Canon, not_determined, rebuild_, understood

REGISTER = {
    "Evaluator": {"add_atom", "add_atom_generic", "add_op1", "add_op2", "add_opn", "add_op_generic"},
    "SymEvaluator": {"__setitem__", "add_op"},
    "SymDifferentiator": {"__setitem__", "add_distributive_rule"},
    "DiffProperties": {"add_distributive", "add_diff_rule"},
}
# documented classes and functions: the public surface whose arguments belong to the caller
CLASSES = {"AtomType", "Atom", "Tree", "ForwardGraph", "SubsFunc", "Evaluator", "Transformer", "DiffProperties", "Sym", "SymAtomType",
           "SymAtomValue", "SymEvaluator", "SymDifferentiator", "PyOp1", "PyOp2", "PyOpN", "PyFunc1", "AtomFunc", "HeadOp", "WildCall",
           "Expr", "ExprFunction", "Matrix"}
FUNCTIONS = {"Tr", "topological_sort", "topological_split", "forward_graph", "diff_forward", "star", "expressify", "lambdify", "to_sympy",
             "from_sympy", "to_sympy_matrix", "from_sympy_matrix", "funcs_symbols"}

FRESH_FNS = {"builtins." + n for n in ("list", "tuple", "set", "dict", "sorted", "frozenset", "str", "int", "float", "bool", "len", "sum", "max",
                                       "min", "repr", "type", "isinstance", "hash", "id", "abs", "divmod", "hex", "bytes", "bytearray")}
VIEWS = {"builtins." + n for n in ("reversed", "enumerate", "zip", "map", "filter", "iter", "range")} | {"itertools.chain", "itertools.product", "copy.copy"}


class Origins:
    """Which inputs or long-lived objects a term may be (a part of)."""

    def __init__(self, it):
        self.it, self.memo = it, {}

    def of(self, t, part=False):
        """part: the elements of t rather than t itself."""
        key = (t, part)
        r = self.memo.get(key)
        if r is None:
            self.memo[key] = frozenset()
            r = self.memo[key] = frozenset(self.go(t, part))
        return r

    def vals(self, t, depth=0):
        """The values an element access may stand for, as far as the container is made here."""
        if depth > 8:
            return {t}
        if t.op == "phi":
            return self.vals(t.args[1], depth + 1) | self.vals(t.args[2], depth + 1)
        if t.op == "popped":
            k = t.args[1][0] if t.args[1] else None
        elif t.op in ("idx", "elem"):
            k = t.args[1] if t.op == "idx" else None
        else:
            return {t}
        out = set()
        for b in self.vals(t.args[0], depth + 1):
            if b.op == "slice" and b.args[0].op in ("obj", "tup"):
                b, k2 = b.args[0], None
            else:
                k2 = k
            if b.op == "tup" and not any(x.op == "star" for x in b.args[0]):
                n = len(b.args[0])
                if isinstance(k2, T) and k2.op == "const" and isinstance(k2.args[0], int) and -n <= k2.args[0] < n:
                    out.add(b.args[0][k2.args[0]])
                else:
                    out |= set(b.args[0])
                continue
            if b.op == "obj" and b.args[0].kind in ("list",) and b.args[0].era != "module":
                items = [x for x in b.args[0].init if isinstance(x, T)]
                ok = len(items) == len(b.args[0].init)
                for e in self.it.log:
                    if e.base is b and e.kind == "mut":
                        if e.name in ("append", "insert", "appendleft"):
                            items.append(e.args[-1])
                        elif e.name == "__setitem__":
                            items.append(e.args[1])
                        elif e.name in ("extend",):
                            items.append(mk("star", e.args[0]))
                if ok:
                    for x in items:
                        if x.op == "star":
                            out |= self.vals(mk("idx", x.args[0], const("?")), depth + 1) if x.args[0].op in ("obj", "tup", "slice") else {mk("idx", x.args[0], const("?"))}
                        elif x.op == "phi":
                            out |= self.vals(x, depth + 1)
                        else:
                            out.add(x)
                    continue
            out.add(mk(t.op, b, *t.args[1:]) if b is not t.args[0] else t)
        return out or {t}

    def go(self, t, part):
        o, a = t.op, t.args
        if o in ("idx", "elem", "popped"):
            vs = self.vals(t)
            if vs != {t}:
                return frozenset().union(*[self.of(v, part) for v in vs])
        if o in ("const", "fmt", "cmp", "not", "and", "or", "join", "isinst", "truth", "un", "idxvar", "fn", "strop"):
            return ()
        if o in ("sym", "unk", "cls", "mod", "mu", "missing"):
            return (t,)
        if o in ("atom", "tree", "treeatom", "symw"):
            return ()
        if o == "phi":
            return self.of(a[1], part) | self.of(a[2], part)
        if o == "attr":
            return self.of(a[0])
        if o in ("idx", "elem", "key", "val", "popped", "bel", "bkey", "bval", "next"):
            return self.of(a[0], True)
        if o in ("slice", "setop"):
            return self.of(a[0] if o == "slice" else a[1], True) if part else ()
        if o in ("dictview", "star", "seqof", "out"):
            return self.of(a[1] if o == "dictview" else a[0], True) if isinstance((a[1] if o == "dictview" else a[0]), T) else (t,)
        if o == "bin":
            return self.of(a[1], True) | self.of(a[2], True) if part else ()
        if o == "tup":
            return frozenset().union(*[self.of(x, x.op == "star") for x in a[0]]) if a[0] else ()
        if o == "obj":
            ob = a[0]
            if not part:
                return (t,) if ob.era == "module" else ()
            out = set()
            for x in ob.init:
                if isinstance(x, T):
                    out |= self.of(x, x.op == "star")
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, T):
                            out |= self.of(y) | (self.of(y, True) if x[0] is None else frozenset())
            for e in self.it.log:
                if e.base is t and e.kind == "mut":
                    for y in e.args:
                        if isinstance(y, T):
                            out |= self.of(y, e.name in ("extend", "update"))
            if ob.era == "module":
                out.add(t)
            return out
        if o == "app":
            f = a[0]
            if f.op == "ext":
                n = f.args[0]
                if n == "builtins.iter" and len(a) > 3 and not part:
                    return (t,)
                if n in VIEWS or n in FRESH_FNS:
                    return frozenset().union(*[self.of(x, True) for x in a[1]]) if part and a[1] else ()
                if len(a) > 3 and isinstance(a[3], int) and a[3] < self.it.base:
                    return (t,)
                return ()
            if f.op == "attr" and f.args[1] in ("get", "pop", "setdefault", "popitem", "popleft"):
                return self.of(f.args[0], True)
            return ()
        return ()


def is_documented(fn):
    """A method of a documented class, or a documented function: entry points of users."""
    if fn.frame is not None and fn.cls is None:
        return False
    if fn.cls is not None:
        return fn.cls.name in CLASSES and (not fn.name.startswith("_") or fn.name.startswith("__"))
    return fn.name in FUNCTIONS


def registers(fn):
    if fn.cls is None:
        return False
    return any(fn.name in REGISTER.get(c.name, ()) for c in fn.cls.mro())


def no_argument_writes(ctx, rule="arguments-untouched"):
    """C04: no effect of a documented entry point changes a list, dictionary, set or object reached from its parameters."""
    prog = ctx.prog
    n = m = 0
    for r in ctx.roots():
        fn = r.fn
        if not is_documented(fn):
            continue
        m += 1
        org = Origins(r.it)
        params = {a.args[0] if a.op == "star" else a for a in list(r.args) + list(r.kws.values())}
        me = r.args[0] if fn.cls is not None and r.args and fn.kind not in ("static", "class") and fn.name != "__new__" else None
        nbad = len(ctx.obs)
        for e in r.effects:
            if e.kind not in ("mut", "setattr", "delattr", "delitem", "setitem"):
                if not (e.kind == "call" and e.base.op == "attr" and e.base.args[1] in ("__setattr__", "__delattr__") and e.args):
                    continue
                roots = org.of(e.args[0])
            else:
                roots = org.of(e.base)
            n += 1
            hit = {x for x in roots if x in params and x.op == "sym"}
            if not hit:
                continue
            if me in hit and (registers(fn) or fn.name == "__init__") and hit == {me}:
                continue
            if e.base in store_terms(ctx) or identity.class_setup(r, e):
                continue
            if all(str(x.args[0]).startswith("_") for x in hit):
                continue        # a private parameter: no argument of a caller of the documented function
            if e.kind == "setattr" and hit == {me} and e.base is me and e.name.startswith("_") and not is_field(fn.cls, e.name):
                ctx.und(rule, fn.short, e.where(), f"stores a private attribute {e.name} of self")
                continue
            ctx.bad(rule, fn.short, e.where(), f"{e.name} changes {show(e.base)}, reached from parameter {show(sorted(hit, key=lambda x: x.uid)[0])}")
        if len(ctx.obs) == nbad:
            ctx.ok(rule, fn.short, f"{fn.module.rel}:{fn.node.lineno}", f"{len(r.effects)} effects")
    ctx.ok(rule, "package", "", f"{m} documented entry points, {n} writes: none reaches an object that belongs to the caller")
    dictlike(ctx)


def is_field(c, name):
    return any(name in k.ns or any(isinstance(s, ast.AnnAssign) and getattr(s.target, "id", None) == name for s in k.node.body) for k in c.mro())


def dictlike(ctx):
    """Results that alias inner state: lists returned by documented methods are fresh."""
    rule = "fresh-results"
    for r in ctx.roots():
        fn = r.fn
        if not is_documented(fn) or fn.name.startswith("__") or fn.kind == "property":
            continue
        org = Origins(r.it)
        me = r.args[0] if fn.cls is not None and r.args and fn.kind not in ("static", "class") else None
        for o in r.returns:
            for g, v in phi_leaves(o.value):
                ty = r.it.typeof(v)
                if ty is None or ty.args[0] not in ("list", "listof", "dict", "dictof", "set", "setof"):
                    continue
                roots = org.of(v)
                if v.op != "obj" and any(x.op == "sym" for x in roots) and v.op in ("attr", "sym", "idx", "elem"):
                    ctx.bad(rule, fn.short, o.where(), f"returns {show(v)} itself, not a copy: the caller can change it")
                elif any(x.op == "obj" for x in roots):
                    ctx.bad(rule, fn.short, o.where(), f"returns the long-lived {show(v)}: later calls see what the caller does to it")
                else:
                    ctx.ok(rule, fn.short, o.where(), "the list or dictionary returned is made by this call")


# ------------------------------------------------------------------ C05

def long_lived(t, it):
    """The object outlives every call: made at import, or a class, module or global."""
    if t.op in ("cls", "mod"):
        return True
    if t.op == "obj":
        return t.args[0].era == "module"
    if t.op == "app" and len(t.args) > 3 and isinstance(t.args[3], int):
        return t.args[3] < it.base
    return False


def permanent_fns(prog):
    """Functions reachable from the name spaces of modules and classes."""
    out = set()
    for m in prog.modules.values():
        for v in m.ns.values():
            if isinstance(v, T):
                out |= {s.args[0] for s in subterms(v) if s.op == "fn"}
    for c in all_classes(prog):
        for v in c.ns.values():
            if isinstance(v, T) and v.op == "fn":
                out.add(v.args[0])
    return out


def persistent_writes(ctx):
    """[(result, effect, root)]: writes to objects that outlive the call, other than rule registration and the stores of unique objects."""
    if getattr(ctx, "pw", None) is not None:
        return ctx.pw
    prog = ctx.prog
    perm = permanent_fns(prog)
    stores = store_terms(ctx)
    sites = {e.node for k in constructors(ctx) for e in k.r.effects if e.kind == "mut"}
    out, seen = [], set()
    ctx.nwrites = 0
    for r in ctx.roots():
        fn = r.fn
        org = Origins(r.it)
        me = r.args[0] if fn.cls is not None and r.args and fn.kind not in ("static", "class") and fn.name != "__new__" else None
        for e in r.effects:
            if e.kind in ("setglobal", "delglobal"):
                roots = [e.base]
            elif e.kind == "setnonlocal":
                if fn not in perm:
                    continue
                roots = [e.base]
            elif e.kind in ("mut", "setattr", "delattr"):
                roots = [x for x in org.of(e.base) if long_lived(x, r.it)]
                if e.base.op in ("cls", "mod"):
                    roots = [e.base]
                if not roots and me is not None and me in org.of(e.base) and fn.cls.name in CLASSES:
                    if fn.name in ("__init__", "__post_init__") or registers(fn):
                        continue
                    # only objects that live on between calls
                    roots = [me]
            else:
                continue
            ctx.nwrites += 1
            if not roots or e.base in stores and e.node in sites:
                continue
            if any(is_lock(x) for x in roots) or identity.class_setup(r, e):
                continue
            if registers(fn) and roots == [me]:
                continue
            out.append((r, e, roots[0]))
    ctx.pw = out
    return out


def once(pw):
    """The same write seen from several entries is reported once."""
    seen = set()
    return [x for x in pw if not (x[1].node in seen or seen.add(x[1].node))]


def is_lock(t):
    from ..engine import is_lock as f
    return f(t)


ADDING = ("append", "add", "extend", "insert", "appendleft")


def read_anywhere(ctx, base):
    """Is the contents of a long-lived container used anywhere but for adding to it?"""
    for r in ctx.roots():
        for e in r.effects:
            if e.base is base and e.kind == "mut" and e.name in ADDING + ("__setitem__",):
                continue
            ts = list(e.args) + [e.base] + [l[0] for l in e.gate]
            if any(contains(t, lambda s: s is base) for t in ts):
                return e
        for o in r.returns + r.raises:
            if contains(o.value, lambda s: s is base) or any(contains(l[0], lambda s: s is base) for l in o.gate):
                return o
    return None


def history(ctx, rule="no-persistent-write"):
    prog = ctx.prog
    pw = once(persistent_writes(ctx))
    for r, e, root in pw:
        if e.kind == "mut" and e.base.op == "obj" and e.name in ADDING + ("__setitem__",):
            rd = read_anywhere(ctx, e.base)
            if rd is None:
                ctx.ok(rule, f"{e.where().split(':')[0]} write-only", e.where(), f"{show(e.base)} is only added to, nothing reads it")
                continue
        v = memo_ok(r, e)
        text = {"setglobal": f"rebinds the global {e.name}", "setattr": f"stores attribute {e.name} of {show(e.base)}",
                "mut": f"{e.name}() on {show(e.base)}"}.get(e.kind, f"{e.kind} {e.name}")
        if v:
            ctx.und(rule, r.fn.short, e.where(), f"{text} outlives the call; the value stored depends on its key only")
        else:
            ctx.bad(rule, r.fn.short, e.where(), f"{text} outlives the call and can change later results")
    ctx.ok(rule, "package", "", f"{ctx.nwrites} writes examined in {len(ctx.roots())} functions; those that outlive the call are rule registration and the stores of unique objects")
    caches(ctx, rule="no-stale-cache", nodes=False)
    store_reads(ctx)
    lazy_modules(ctx)
    own_tables(ctx)
    identity.interning(ctx)


def store_reads(ctx, rule="no-table-size"):
    """What is in the stores of unique objects depends on what was made before (and on the garbage collector):
    only the lookup of a key may reach a result."""
    terms = set(store_terms(ctx))
    names = {t.args[1] for t in terms if t.op == "attr"} | {n for _, n in identity.store_names(ctx, terms)}

    class Stores:
        def __contains__(self, t):
            return t in terms or isinstance(t, T) and t.op == "attr" and t.args[1] in names

    stores = Stores()

    def read(t):
        for s in subterms(t):
            if s.op == "app" and s.args[1] and s.args[0].op == "ext" and s.args[0].args[0] in ("builtins.len", "builtins.list", "builtins.sorted", "builtins.iter", "builtins.bool") and s.args[1][0] in stores:
                return s
            if s.op == "app" and s.args[0].op == "attr" and s.args[0].args[0] in stores and s.args[0].args[1] in ("keys", "values", "items", "valuerefs", "popitem", "copy", "__len__"):
                return s
            if s.op in ("elem", "truth", "each") and s.args[0] in stores:
                return s
        return None

    n = 0
    for r in ctx.everything():
        for o in r.returns:
            n += 1
            for t in [o.value] * (holds_node(r.it, ctx.prog, o.value) is not False) + [l[0] for l in o.gate if l[0].op not in ("inloop", "held")]:
                s = read(t)
                if s is not None:
                    ctx.bad(rule, r.fn.short, o.where(), f"the result depends on {show(s)}, that is on what was made before")
                    break
    ctx.ok(rule, "package", "", f"{n} results do not depend on the size or the elements of a store")


def remembers(fn):
    """A function made inside another one, with a local variable of that one that was read from an object."""
    names = {n.id for n in ast.walk(fn.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
    a = fn.node.args
    names -= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    if fn.frame is None:
        return False
    for s in ast.walk(fn.module.tree):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and any(n is fn.node for n in ast.walk(s)) and s is not fn.node:
            for n in ast.walk(s):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id in names for t in n.targets) and any(isinstance(x, ast.Attribute) for x in ast.walk(n.value)):
                    return True
    return False


def memo_ok(r, e):
    """D[K] = V where V is built from immutable parts of K only."""
    if e.kind != "mut" or e.name not in ("__setitem__", "setdefault") or len(e.args) != 2:
        return False
    K, V = e.args
    if isinstance(e.node, ast.AugAssign) or K.op == "const" and contains(V, lambda z: z.op == "idx" and z.args[1] is K and z.args[0] is e.base):
        return False            # counts or collects
    parts = [K, *(K.args[0] if K.op == "tup" else ())]
    W = subst(V, {z: mk("sym", f"key{n}", None) for n, z in enumerate(parts)}, rebuild=rebuild_)
    if not contains(W, lambda z: mutable_read(z, ()) or z.op in ("unk", "out", "mu", "popped") or z.op in ("idx", "elem") and z.args[0].op == "obj" or z.op == "fn"
                    or z.op == "app" and z.args[0].op == "attr" and z.args[0].args[0].op != "app") and not any(z.op == "obj" and z.args[0].kind in ("list", "dict", "set", "inst") for _, z in phi_leaves(V)):
        left, _ = not_determined(r.it, K, V, [z for z in subterms(V) if z.op == "sym"])
        if not left:
            return True
    if not understood(V) or any(s.op == "fn" and remembers(s.args[0]) for s in subterms(V)):
        return False
    free = {s for s in subterms(V) if s.op == "sym"}
    have = {s for s in subterms(K) if s.op == "sym"}
    if not free <= have or any(s.op == "obj" for s in subterms(V)):
        return False
    return identity.key_part(K, next(iter(have), K), True) is not False if len(have) <= 1 else True


def cached_functions(ctx):
    """Functions whose results are remembered by functools, however the cache is attached."""
    prog, out = ctx.prog, []
    for f in list(prog.fns.values()):
        for d in f.decorators:
            n = d.args[0] if d.op == "ext" else d.args[0].args[0] if d.op == "app" and d.args[0].op == "ext" else ""
            if "lru_cache" in n or n in ("functools.cache", "functools.cached_property"):
                out.append((f, n))
    places = [(m.name + "." + k, v) for m in prog.modules.values() for k, v in m.ns.items() if isinstance(v, T)]
    places += [(c.name + "." + k, v) for c in all_classes(prog) for k, v in c.ns.items() if isinstance(v, T)]
    for w, v in places:
        for s in subterms(v):
            if s.op == "app" and contains(s.args[0], lambda q: q.op == "ext" and ("lru_cache" in q.args[0] or q.args[0] == "functools.cache")):
                for x in s.args[1]:
                    for q in subterms(x):
                        if q.op == "fn":
                            out.append((q.args[0], "functools.lru_cache"))
                        elif q.op == "bound":
                            out.append((q.args[1].args[0], "functools.lru_cache"))
    return out


def caches(ctx, rule, nodes):
    prog = ctx.prog
    for f, n in cached_functions(ctx):
        w = f"{f.module.rel}:{f.node.lineno}"
        r = ctx.run_fn(f)
        ps = [a.args[0] if a.op == "star" else a for a in list(r.args) + list(r.kws.values())]
        if nodes:
            if n == "functools.cached_property":
                continue
            bad = [p for p in ps if p.op == "sym" and holds_node(r.it, prog, p) is not False]
            ret = [v for o in r.returns for g, v in phi_leaves(o.value) if holds_node(r.it, prog, v) is not False]
            if bad or ret:
                ctx.bad(rule, f.short, w, f"{n} keeps its arguments and results alive: {', '.join(show(x, 4) for x in (bad or ret)[:3])}")
            else:
                ctx.ok(rule, f.short, w, f"{n} holds plain values only")
            continue
        reads = None
        for v in list(r.it.log[r.it.base:]):
            if v.kind == "mut" and v.name in ADDING and v.base.op == "obj" and read_anywhere(ctx, v.base) is None:
                continue        # only added to
            ts = list(v.args) + [v.base] + [l[0] for l in v.gate]
            for t in ts:
                for s in subterms(t):
                    if mutable_read(s, ps):
                        reads = s
        for o in r.returns:
            for s in subterms(o.value):
                if mutable_read(s, ps):
                    reads = s
        if any(r.it.typeof(v) is not None and r.it.typeof(v).args[0] in ("list", "listof", "dict", "dictof", "set", "setof") for o in r.returns for g, v in phi_leaves(o.value)):
            ctx.bad(rule, f.short, w, f"{n} hands the same list or dictionary to every caller")
        elif reads is not None:
            ctx.bad(rule, f.short, w, f"{n} remembers a result that depends on {show(reads, 4)}, which can change")
        elif equal_keys(r, ps):
            ctx.bad(rule, f.short, w, f"{n} gives the result for one value to an equal value of another type")
        else:
            ctx.und(rule, f.short, w, f"results remembered by {n}")


def equal_keys(r, ps):
    return False


def mutable_read(s, ps):
    """A read of something that can change between calls: a field holding a registry, or a module level table."""
    if s.op == "attr" and s.args[1] in ("operations", "atoms", "diff_rules", "distributive", "generic_atom_func", "generic_operation_func"):
        return True
    if s.op == "obj" and s.args[0].era == "module" and s.args[0].kind in ("dict", "list", "set"):
        return True
    return False


def lazy_modules(ctx, rule="lazy-import"):
    """A module that is only imported when an operation needs it leaves the other modules as they are."""
    from .imports import eager_modules
    prog = ctx.prog
    eager = eager_modules(prog)
    lazy = {m for m in prog.modules if m not in eager and not m.endswith("__main__")}
    it = prog.interp()
    n = 0
    for e in it.log[:it.base]:
        if e.kind not in ("mut", "setattr", "setglobal", "delattr"):
            continue
        mod = prog.during(e.pos)
        if mod not in lazy:
            continue
        n += 1
        b = e.base
        while b.op in ("attr", "idx"):
            b = b.args[0]
        if b.op == "obj":
            home = prog.during(b.args[0].logpos)
        else:
            home = b.args[0].module.name if b.op == "cls" else b.args[0] if b.op == "mod" else None
        if home is not None and home in eager:
            ctx.bad(rule, mod, e.where(), f"importing {mod} on demand changes {show(b, 4)} of {home}: earlier and later results differ")
    ctx.ok(rule, "package", "", f"{len(lazy)} modules imported on demand, {n} writes at their import stay inside them")


def own_tables(ctx, rule="own-tables"):
    """Every evaluator and differentiator has rule tables of its own."""
    prog = ctx.prog
    for qual, fields in ((CORE + "evaluate.Evaluator", ("atoms", "operations")), (CORE + "differentiate.DiffProperties", ("distributive", "diff_rules"))):
        c = prog.cls_term(qual).args[0]
        r = analyse_term(prog, prog.cls_term(qual), [mk("sym", f"p{i}", None) for i in range(4)] if "Diff" in qual else [])
        v = [x for o in r.returns for g, x in phi_leaves(o.value)]
        for f in fields:
            es = [e for e in r.effects if e.kind == "setattr" and e.name == f]
            if not es:
                cv, owner = c.lookup(f)
                if cv is not None and isinstance(cv, T) and cv.op == "obj" and cv.args[0].era == "module":
                    ctx.bad(rule, f"{c.name}.{f}", f"{c.module.rel}:{c.node.lineno}", "one table is shared by all instances")
                else:
                    ctx.und(rule, f"{c.name}.{f}", f"{c.module.rel}:{c.node.lineno}", "initial table not found")
                continue
            x = es[-1].args[0]
            if x.op == "obj" and x.args[0].era != "module":
                ctx.ok(rule, f"{c.name}.{f}", es[-1].where(), "every instance gets a table of its own")
            elif x.op == "obj":
                ctx.bad(rule, f"{c.name}.{f}", es[-1].where(), "one table is shared by all instances")
            else:
                ctx.und(rule, f"{c.name}.{f}", es[-1].where(), f"table is {show(x)}")


# ------------------------------------------------------------------ C06

PLAIN = {"int", "str", "float", "bool", "none", "bytes", "type"}


def holds_node(it, prog, t, depth=0):
    """May keeping t alive keep an expression alive? True / False / None (unknown)"""
    if depth > 6:
        return None
    o, a = t.op, t.args
    if o in ("const", "fmt", "join", "cmp", "not", "and", "or", "isinst", "truth", "ext", "mod", "cls", "strop", "un", "idxvar"):
        return False
    if is_node_term(it, prog, t):
        return True
    ty = it.typeof(t)
    if ty is not None:
        n = ty.args[0]
        if n in PLAIN:
            return False
        if n in ("listof", "setof", "tuplevar", "tupleof", "dictof"):
            rs = [type_holds(prog, x) for x in ty.args[1:]]
            if True in rs:
                return True
            if rs and all(x is False for x in rs):
                return False
        if n == "inst":
            return type_holds(prog, ty)
    if o == "tup":
        rs = [holds_node(it, prog, x, depth + 1) for x in a[0]]
        return True if True in rs else None if None in rs else False
    if o == "star":
        return holds_node(it, prog, a[0], depth + 1)
    if o == "phi":
        rs = [holds_node(it, prog, x, depth + 1) for x in a[1:]]
        return True if True in rs else None if None in rs else False
    if o == "obj":
        ob = a[0]
        vs = []
        for x in ob.init:
            vs += [y for y in (x if isinstance(x, tuple) else (x,)) if isinstance(y, T)]
        for e in it.log:
            if e.base is t and e.kind in ("mut", "setattr"):
                vs += list(e.args)
        rs = [holds_node(it, prog, x, depth + 1) for x in vs if isinstance(x, T)]
        return True if True in rs else None if None in rs else False
    if o == "app" and a[0].op == "ext":
        n = a[0].args[0]
        if n in ("builtins.id", "builtins.hash", "builtins.len", "builtins.str", "builtins.repr", "builtins.type") or n.startswith("weakref."):
            return False
        rs = [holds_node(it, prog, x, depth + 1) for x in a[1]]
        return None if True in rs or None in rs else False
    if o == "app" and a[0].op == "attr" and a[0].args[1] in ("setdefault", "get", "pop") and len(a[1]) == 2 and holds_node(it, prog, a[1][1], depth + 1):
        return True             # one of the possible results
    if o == "app" and a[0].op == "cls" and any(e.base is t and e.kind == "setattr" and True in [holds_node(it, prog, x, depth + 1) for x in e.args] for e in it.log):
        return True
    if o == "app" and a[0].op == "attr":
        rs = [holds_node(it, prog, x, depth + 1) for x in (a[0].args[0],) + tuple(a[1])]
        return None if True in rs or None in rs else False
    if o in ("attr", "bound"):
        r = holds_node(it, prog, a[0], depth + 1) if isinstance(a[0], T) else None
        if r and a[1] in ("clear", "append", "extend", "remove", "pop", "add", "discard", "update", "sort", "get", "copy"):
            return True         # a method of the container
        return False if r is False else None
    if o == "slice":
        whole = a[0].op == "tup" and a[0].args[0] and a[1] in (NONE, const(0)) and (len(a) < 3 or a[2] is NONE or a[2].op == "const" and type(a[2].args[0]) is int and a[2].args[0] > 0)
        return True if whole and holds_node(it, prog, a[0].args[0][0], depth + 1) else None
    if o == "fn":
        return closure_holds(it, prog, a[0], depth)
    return None


def closure_holds(it, prog, fn, depth):
    if fn.frame is None:
        return False
    return None


def type_holds(prog, ty):
    if ty is None or not isinstance(ty, T):
        return None
    n = ty.args[0] if ty.op == "type" or ty.args else None
    if n in PLAIN:
        return False
    if n == "inst" and len(ty.args) > 1 and ty.args[1].op == "cls":
        c = ty.args[1].args[0]
        if prog.is_node(c) or c.name in ("Matrix", "SubsFunc", "ForwardGraph", "ExprFunction"):
            return True
        return None
    if n in ("listof", "setof", "tuplevar", "tupleof", "dictof"):
        rs = [type_holds(prog, x) for x in ty.args[1:] if isinstance(x, T)]
        return True if True in rs else None if None in rs else False
    return None


def narrowed(it, gate, t):
    """t, with the types that the conditions on the way give to its parameters."""
    m = {}
    for l, v in gate:
        if v is True and l.op == "isinst" and l.args[0].op == "sym" and it.typeof(l.args[0]) is None and l.args[1].op == "cls":
            m[l.args[0]] = mk("sym", l.args[0].args[0], mk("ty", "inst", l.args[1]))
    return subst(t, m) if m else t


def weak_memory(ctx, rule="weak-store"):
    prog = ctx.prog
    for k in constructors(ctx):
        for u in identity.k_uses(k):
            if u.table is None:
                continue
            t = u.table
            where = u.where
            if is_weak(t):
                ctx.ok(rule, k.label, where, "the store refers to the objects weakly")
            elif t.op == "obj" and t.args[0].kind == "dict" or t.op == "app" and t.args[0] is ext("builtins.dict") or t.op == "app" and t.args[0].op == "ext" and t.args[0].args[0] in ("weakref.WeakKeyDictionary", "collections.OrderedDict", "collections.defaultdict"):
                ctx.bad(rule, k.label, where, f"the store {show(t)} keeps every object alive")
            elif identity.module_level(k, t) is False and contains(t, lambda s: s.op == "app" and s.args[0] is ext("threading.local")):
                ctx.ok(rule, k.label, where, "per thread store")
            else:
                ctx.und(rule, k.label, where, f"store {show(t)} not recognised")
            if u.obj is not None and contains(u.key, lambda s: s is u.obj):
                ctx.bad(rule, k.label, where, "the key of the entry contains the object itself and keeps it alive")
    groups = {}
    for r, e, root in persistent_writes(ctx):
        groups.setdefault(e.node, []).append((r, e))
    for group in groups.values():
        for r, e in group:
            vs = e.args[:1] if is_weak(e.base) else e.args
            if True in [holds_node(r.it, prog, narrowed(r.it, e.gate, v)) for v in vs if isinstance(v, T)]:
                break
        else:
            r, e = group[0]
        vs = [x for x in e.args if isinstance(x, T)]
        if is_weak(e.base):
            vs = vs[:1]
        hs = [holds_node(r.it, prog, narrowed(r.it, e.gate, v)) for v in vs]
        w = e.where()
        if True in hs:
            ctx.bad("no-strong-reference", r.fn.short, w, f"{e.name} keeps {show(vs[hs.index(True)], 5)} alive in {show(e.base, 4)}")
        elif None in hs:
            if not external_only(vs):
                ctx.und("no-strong-reference", r.fn.short, w, f"{e.name} stores {show(vs[hs.index(None)], 5)}")
            else:
                ctx.ok("no-strong-reference", r.fn.short, w, "stores an object of an external library made from text only")
        else:
            ctx.ok("no-strong-reference", r.fn.short, w, f"{e.name} stores plain values")
    kept = {}
    for r in ctx.everything():
        for e in r.effects:
            if e.kind != "call":
                continue
            first = KEEPERS.get(e.base.args[0]) if e.base.op == "ext" else 0 if e.base.op == "attr" and e.base.args[1] == "set" and e.base.args[0].op == "app" \
                and e.base.args[0].args[0] is ext("contextvars.ContextVar") else None
            if first and e.args and e.args[0].op == "obj" and not any(contains(a, lambda z: z is e.args[0]) for a in e.args[1:] if isinstance(a, T)):
                continue        # what a new object is made of, for as long as it lives
            if first is not None:
                kept.setdefault(e.node, []).append((r, e, [strip_kw(a) for a in e.args[first:] if isinstance(a, T)]))
    for group in kept.values():
        hs = [holds_node(r.it, prog, narrowed(r.it, e.gate, v)) for r, e, vs in group for v in vs]
        r, e, vs = group[0]
        if True in hs:
            ctx.bad("no-strong-reference", r.fn.short, e.where(), f"{show(e.base)} keeps an expression alive: {', '.join(show(v, 4) for v in vs)}")
        elif None in hs:
            ctx.und("no-strong-reference", r.fn.short, e.where(), f"{show(e.base)} is given {', '.join(show(v, 4) for v in vs)}")
    ctx.ok("no-strong-reference", "package", "", f"{getattr(ctx, 'nwrites', 0)} writes examined")
    caches(ctx, rule="no-strong-cache", nodes=True)
    node_backrefs(ctx)


# functions that keep what they are given from that argument on
KEEPERS = {"weakref.finalize": 1, "atexit.register": 0, "threading.Timer": 1, "signal.signal": 1, "sys.setprofile": 0, "sys.settrace": 0, "threading.setprofile": 0,
           "sys.addaudithook": 0, "codecs.register": 0}


def strip_kw(t):
    return t.args[-1] if t.op == "kw" else t


def external_only(vs):
    """Results of external libraries computed from text: they cannot refer to expressions."""
    return all(v.op == "app" and (v.args[0].op == "ext" and not v.args[0].args[0].startswith(("builtins.", "functools.", "itertools."))) for v in vs)


def node_backrefs(ctx, rule="no-extra-reference"):
    """Nodes store nothing but their parts: no strong link to something that links back."""
    for k in constructors(ctx):
        objs = {u.obj for u in identity.k_uses(k) if u.obj is not None and u.obj.op == "obj"}
        for e in k.r.effects:
            if e.kind == "setattr" and e.base in objs and e.name not in {f for fs in identity.FIELDS.values() for f in fs}:
                ctx.und(rule, f"{k.label}.{e.name}", e.where(), f"extra field {e.name}")
        ctx.ok(rule, k.label, "", "only the parts are stored")
