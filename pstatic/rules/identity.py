"""C01, C02, C03, C06: interned, immutable, weakly remembered nodes."""
from __future__ import annotations

import itertools

from .lib import *  # noqa
from .lib import Canon, case, exc_names, raised_class, understood

ATOM, TREE, SYM, ATYPE = CORE + "atom.Atom", CORE + "tree.Tree", CORE + "sym.Sym", CORE + "atom.AtomType"
FIELDS = {"Atom": ("atom_type", "value"), "Tree": ("value", "children"), "Sym": ("rep",)}


def node_classes(ctx):
    """[(class, kind)] of Atom, Tree, Sym and every subclass of them in the package."""
    p = ctx.prog
    base = {k: p.cls_term(q).args[0] for k, q in (("Atom", ATOM), ("Tree", TREE), ("Sym", SYM))}
    out = []
    for m in p.modules.values():
        pass
    for c in all_classes(p):
        for k, b in base.items():
            if b in c.mro():
                out.append((c, k))
    for k, b in base.items():
        if (b, k) not in out:
            out.append((b, k))
    return out


def all_classes(prog):
    seen, out = set(), []
    for m in prog.modules.values():
        stack = [v for v in m.ns.values() if isinstance(v, T)]
        while stack:
            v = stack.pop()
            if v.op != "cls" or v.args[0] in seen:
                continue
            c = v.args[0]
            seen.add(c)
            out.append(c)
            stack.extend(x for x in c.ns.values() if isinstance(x, T))
    return out


class Ctor:
    """One way of making a node: the analysis of a constructor and what it publishes and returns."""

    def __init__(self, ctx, cls, kind, fn, parts, fields, label):
        self.ctx, self.cls, self.kind, self.fn, self.label = ctx, cls, kind, fn, label
        a = None
        if kind == "Sym":
            # as called for a subclass, so that the class asked for and the class Sym itself are told apart
            subs = [c for c, kk in node_classes(ctx) if kk == "Sym" and c is not cls and c.lookup("__new__")[0] is cls.lookup("__new__")[0]]
            if subs:
                a = ctx.prog.params(fn)[0]
                a[0] = ctx.prog.cls_term(subs[0].qual)
        self.r = analyse(ctx.prog, fn, args=a, intrinsic_nodes=False)
        ctx.note_run(self.r)
        self.args = [a.args[0] if a.op == "star" else a for a in self.r.args]
        self.parts = [self.args[i] for i in parts]
        self.fields = fields
        self.cn = Canon(self.r.it)
        self.base = self.r.it.base

    def const_cls(self, c):
        return c is self.r.args[0]


def constructors(ctx):
    """Every constructor of nodes in the package."""
    if getattr(ctx, "ctors", None) is not None:
        return ctx.ctors
    out, seen = [], set()
    for c, kind in node_classes(ctx):
        new, _ = c.lookup("__new__")
        if new is None or new.op != "fn":
            ctx.und("constructor", f"{c.name}.__new__", "", "no __new__ written in the package")
            continue
        fn = new.args[0]
        if fn not in seen:
            seen.add(fn)
            a = fn.node.args
            pos = [x.arg for x in a.posonlyargs + a.args]
            n = len(pos) + bool(a.vararg) + len(a.kwonlyargs) + bool(a.kwarg)
            want = {"Atom": 3, "Tree": 2, "Sym": 2}[kind]
            if n != want or (kind == "Tree") != bool(a.vararg):
                ctx.und("constructor", f"{c.name}.__new__", f"{fn.module.rel}:{fn.node.lineno}", "unexpected parameters")
                continue
            parts = {"Atom": (1, 2), "Tree": (1,), "Sym": (0, 1)}[kind]
            fields = {"Atom": {"atom_type": 1, "value": 2}, "Tree": {"children": 1}, "Sym": {"rep": 1}}[kind]
            out.append(Ctor(ctx, c, kind, fn, parts, fields, f"{c.name}.__new__"))
        if kind == "Tree":
            at, _ = c.lookup("atom")
            f2 = at
            if f2 is not None and f2.op in ("classmethod", "static", "staticmethod"):
                f2 = f2.args[0]
            if f2 is None or f2.op != "fn":
                ctx.und("constructor", f"{c.name}.atom", "", "Tree.atom is not a function of the package")
            elif f2.args[0] not in seen:
                seen.add(f2.args[0])
                out.append(Ctor(ctx, c, kind, f2.args[0], (-1,), {"value": -1, "children": None}, f"{c.name}.atom"))
    ctx.ctors = out
    return out


# ------------------------------------------------------------------ leaves

def strip_cast(v):
    while v.op == "app" and v.args[0].op == "ext" and v.args[0].args[0] in ("typing.cast",) and len(v.args[1]) == 2:
        v = v.args[1][1]
    return v


def same_seq(a, b):
    """a is b up to tuple(...)"""
    def core(x):
        while True:
            if x.op == "seqof":
                x = x.args[0]
            elif x.op == "tup" and len(x.args[0]) == 1 and x.args[0][0].op == "star":
                x = x.args[0][0].args[0]
            elif x.op == "app" and x.args[0] is ext("builtins.tuple") and len(x.args[1]) == 1:
                x = x.args[1][0]
            else:
                return x
    return core(a) is core(b)


LOSSY = {"builtins." + n for n in ("hash", "str", "repr", "len", "sorted", "set", "frozenset", "bool", "int", "float", "format", "abs", "round", "type", "sum", "ascii")}


TEXT_METHODS = ("strip", "lstrip", "rstrip", "lower", "upper", "casefold", "title", "capitalize", "swapcase", "replace", "removeprefix", "removesuffix", "expandtabs", "translate",
                "partition", "rpartition", "zfill", "ljust", "rjust", "center", "bit_length", "conjugate", "real", "numerator", "count", "__abs__", "__len__", "__bool__", "__hash__", "__round__")


def lossy_method(t, part):
    """A method of the part whose result does not determine it, such as value.strip()."""
    return t.op == "app" and t.args[0].op == "attr" and t.args[0].args[0] is part and t.args[0].args[1] in TEXT_METHODS


def key_part(K, part, ref):
    """Does the key K determine part? True / False (it is only there through something lossy, or not at all) / None.
    ref: the part is a unique object whose identity is its meaning (so that id() of it determines it)."""
    if K is part or same_seq(K, part):
        return True
    if K.op == "tup":
        rs = [key_part(x, part, ref) for x in K.args[0]]
        return True if True in rs else None if None in rs else False
    if K.op == "star":
        return key_part(K.args[0], part, ref)
    if not contains(K, lambda s: s is part):
        return False
    if K.op == "app" and K.args[0].op == "ext" and len(K.args[1]) == 1:
        n = K.args[0].args[0]
        if n == "builtins.id" and K.args[1][0] is part:
            return ref
        if n in LOSSY:
            return False
        if n in ("builtins.tuple", "builtins.list"):
            return key_part(K.args[1][0], part, ref)
    if lossy_method(K, part):
        return False
    if K.op == "each" and len(K.args[0]) == 1 and same_seq(K.args[0][0], part) and K.args[1] is TRUE:
        v = K.args[2]
        b = v
        if v.op == "app" and v.args[0] is ext("builtins.id"):
            b = v.args[1][0]
        if b.op == "bel" and b.args[0] is K.args[0][0]:
            return True
        return False if understood(v) and v.op in ("attr", "app", "fmt") else None
    if K.op in ("attr", "fmt", "slice", "idx", "cmp", "join", "strop", "setof", "opt"):
        return False
    if K.op == "phi":
        rs = [key_part(x, part, ref) for x in K.args[1:]]
        return True if all(x is True for x in rs) else False if False in rs else None
    return None


def no_lock(v):
    """A context that excludes nobody, in one of the cases."""
    return any(x.op == "app" and x.args[0].op == "ext" and x.args[0].args[0] in ("contextlib.nullcontext", "contextlib.suppress", "contextlib.ExitStack") for _, x in phi_leaves(v))


def by_form(K, value):
    """A component of the key that can be different for values that compare equal."""
    for t in subterms(K):
        if t.op == "app" and t.args[0].op == "ext" and t.args[0].args[0] in ("builtins.type", "builtins.id", "builtins.repr", "builtins.str", "builtins.ascii") and t.args[1] == (value,):
            return t
        if t.op == "attr" and t.args[0] is value and t.args[1] == "__class__":
            return t
    return None


NONDET = ("time.", "random.", "threading.get_ident", "threading.current_thread", "uuid.", "os.getpid", "secrets.", "itertools.count")


def key_extra(K, parts):
    """A component of the key that is not determined by the parts (so that equal parts may get different keys)."""
    if any(K is p or same_seq(K, p) for p in parts):
        return None
    if K.op in ("const", "cls", "fn", "ext", "sym", "bel", "bix"):
        return None
    if K.op == "app" and K.args[0].op == "ext":
        n = K.args[0].args[0]
        if n.startswith(NONDET):
            return K
    for x in K.args:
        xs = x if isinstance(x, tuple) else (x,)
        for y in xs:
            if isinstance(y, T):
                r = key_extra(y, parts)
                if r is not None:
                    return r
    return None


class Use:
    """One returned value of a constructor."""
    __slots__ = ("kind", "table", "key", "obj", "gate", "where", "eff", "leaf")

    def __init__(self, kind, table, key, obj, gate, where, eff, leaf):
        self.kind, self.table, self.key, self.obj, self.gate = kind, table, key, obj, gate
        self.where, self.eff, self.leaf = where, eff, leaf


def uses(k):
    r, out = k.r, []
    for o in r.returns:
        for g, leaf in phi_leaves(o.value):
            leaf = strip_cast(leaf)
            gate = tuple(o.gate) + tuple(g)
            w = o.where()
            if leaf.op == "app" and leaf.args[0].op == "attr" and leaf.args[0].args[1] in ("get", "setdefault") and 1 <= len(leaf.args[1]) <= 2:
                T_, n = leaf.args[0].args
                if n == "get":
                    out.append(Use("hit", T_, leaf.args[1][0], None, gate, w, None, leaf))
                else:
                    e = [e for e in r.effects if e.kind == "mut" and e.name == "setdefault" and e.base is T_ and len(leaf.args) > 3 and e.pos == leaf.args[3]]
                    out.append(Use("pub", T_, leaf.args[1][0], leaf.args[1][1] if len(leaf.args[1]) > 1 else NONE, gate, w, e[0] if e else None, leaf))
            elif leaf.op == "idx":
                out.append(Use("sub", leaf.args[0], leaf.args[1], None, gate, w, None, leaf))
            elif leaf.op == "obj" and leaf.args[0].kind == "inst":
                st = [e for e in r.effects if e.kind == "mut" and e.name in ("__setitem__", "setdefault", "update") and any(contains(x, lambda s: s is leaf) for x in e.args)
                      and not any((l, not v) in gate for l, v in e.gate)]
                if not st:
                    out.append(Use("unpublished", None, None, leaf, gate, w, None, leaf))
                elif len(st) == 1 and st[0].name == "__setitem__" and st[0].args[1] is leaf:
                    out.append(Use("store", st[0].base, st[0].args[0], leaf, gate, w, st[0], leaf))
                elif len(st) == 1 and st[0].name == "setdefault" and len(st[0].args) == 2 and st[0].args[1] is leaf:
                    out.append(Use("ignored", st[0].base, st[0].args[0], leaf, gate, w, st[0], leaf))
                else:
                    out.append(Use("other", None, None, leaf, gate, w, st[0], leaf))
            else:
                out.append(Use("other", None, None, None, gate, w, None, leaf))
    return out


def k_uses(k):
    if not hasattr(k, "_uses"):
        k._uses = uses(k)
    return k._uses


def module_level(k, t):
    """True: made once when the package is imported. False: made per call or per thread. None: unknown."""
    if t.op == "attr" and t.args[0].op == "app" and t.args[0].args[0] is ext("threading.local"):
        return False
    if t.op == "app" and t.args[0].op == "ext" and len(t.args) > 3 and isinstance(t.args[3], int):
        return t.args[3] < k.base
    if t.op == "obj":
        return t.args[0].era == "module"
    return None


def is_weak(t):
    return t.op == "app" and t.args[0].op == "ext" and t.args[0].args[0].endswith("WeakValueDictionary")


def interning(ctx):
    """C01: keys of the stores determine exactly the parts; what is returned is what the store holds."""
    for k in constructors(ctx):
        c = k.label
        us = k_uses(k)
        where = f"{k.fn.module.rel}:{k.fn.node.lineno}"
        tables, keys = [], []
        if not us:
            ctx.bad("interning", c, where, "no value is returned")
        pubs = 0
        for u in us:
            if u.kind == "unpublished":
                ctx.bad("interning", c, u.where, f"a newly made object is returned without being entered in the store of unique objects: {show(u.leaf)}")
                continue
            if u.kind == "other":
                if understood(u.leaf) and u.leaf.op in ("const", "param", "sym") and not any(u.leaf is p for p in k.parts):
                    ctx.bad("interning", c, u.where, f"the constructor returns {show(u.leaf)}")
                else:
                    ctx.und("interning", c, u.where, f"returned value not recognised: {show(u.leaf)}")
                continue
            pubs += u.kind in ("pub", "store", "ignored")
            tables.append((u.table, u))
            keys.append((k.cn(u.key), u))
            ml = module_level(k, u.table)
            if ml is False:
                ctx.bad("interning", c, u.where, f"the store of unique objects {show(u.table)} is not shared by all calls and threads")
            elif ml is None:
                ctx.und("interning", c, u.where, f"store not recognised: {show(u.table)}")
            if u.kind == "pub" and u.obj.op == "obj" and u.obj.args[0].kind == "inst":
                ctx.ok("interning", c + " published", u.where, f"setdefault({show(u.key)}, new object) decides the object returned")
        if pubs == 0 and us and not any(o[0] != "ok" and o[2] == c for o in ctx.obs):
            ctx.und("interning", c, where, "no publication found")
        if not keys:
            continue
        # publications whose result is not what is returned
        for e in k.r.effects:
            if e.kind == "mut" and e.name in ("setdefault", "__setitem__") and len(e.args) == 2:
                kk = k.cn(e.args[0])
                if any(e.base is t for t, _ in tables) and kk is not keys[0][0] and not any(kk is x for x, _ in keys):
                    keys.append((kk, Use("eff", e.base, e.args[0], e.args[1], e.gate, e.where(), e, e.args[1])))
        K0 = keys[0][0]
        diff = [u for kk, u in keys if kk is not K0 and not same_seq(kk, K0)]
        if len({t for t, _ in tables}) > 1 or diff:
            u = diff[0] if diff else tables[1][1]
            if all(understood(x) or x.op == "tup" for x, _ in keys) and all(module_level(k, t) is not None for t, _ in tables):
                ctx.bad("interning", c, u.where, f"looked up under {show(K0)} in {show(tables[0][0])} but entered under {show(u.key)} in {show(u.table)}")
            else:
                ctx.und("interning", c, u.where, "different keys or stores")
        else:
            ctx.ok("interning", c + " one key", where, f"every lookup and publication uses key {show(K0)}")
        for kk, u in keys[:]:
            for i, p in enumerate(k.parts):
                ref = not (k.kind == "Atom" and i == 1)
                d = key_part(kk, p, ref)
                ctx.decide(d, "key-determines-parts", f"{c} {show(p)}" if d else c, u.where,
                           f"key {show(kk)} {'determines' if d else 'does not determine'} {show(p)}")
            x = key_extra(kk, k.parts)
            if k.kind == "Atom" and x is None:
                x = by_form(kk, k.parts[-1])
                if x is not None:
                    ctx.bad("key-determined", c, u.where, f"key {show(kk)} contains {show(x)}, which can differ for values that compare equal")
                    continue
            if x is not None:
                ctx.bad("key-determined", c, u.where, f"key {show(kk)} contains {show(x)}, which differs between calls with the same parts")
            else:
                ctx.ok("key-determined", c, u.where, f"key {show(kk)} is determined by the parts")
    fields_are_parts(ctx)
    removal(ctx)
    identity_eq(ctx)
    node_instances(ctx)


def fields_are_parts(ctx, rule="fields"):
    """The fields of a new node are exactly the parts it was asked for."""
    for k in constructors(ctx):
        r = k.r
        objs = {u.obj for u in k_uses(k) if u.obj is not None and u.obj.op == "obj"}
        for ob in objs:
            sets = {}
            for e in r.effects:
                if e.base is ob and e.kind == "setattr":
                    sets.setdefault(e.name, []).append(e)
                elif e.base is ob and e.kind in ("delattr", "havoc"):
                    ctx.und(rule, k.label, e.where(), f"{e.kind} on the new object")
            for f, i in k.fields.items():
                es = sets.get(f, [])
                if not es:
                    if any(e.base is ob and e.kind not in ("setattr",) for e in r.effects) or any(e.kind == "call" and any(a is ob for a in e.args) for e in r.effects):
                        ctx.und(rule, f"{k.label}.{f}", "", "field not seen to be stored")
                    else:
                        ctx.bad(rule, f"{k.label}.{f}", f"{k.fn.module.rel}:{k.fn.node.lineno}", f"the field {f} of a new node is never stored")
                    continue
                e = es[-1]
                v = k.cn(e.args[0])
                if i is None:
                    ok = v.op == "tup" and v.args[0] == ()
                    want = "()"
                else:
                    want = k.args[i]
                    ok = v is want or same_seq(v, want) and k.kind == "Tree"
                    if ok and k.kind == "Tree" and v is not want and not (v.op in ("tup", "seqof") or v.op == "app"):
                        ok = False
                    want = show(want)
                if len(es) > 1 and ok:
                    ok = all(k.cn(x.args[0]) is v for x in es)
                if ok:
                    ctx.ok(rule, f"{k.label}.{f}", e.where(), f"stored {show(v)}")
                elif understood(v) or i is not None and any(lossy_method(x, k.args[i]) for _, x in phi_leaves(v)):
                    ctx.bad(rule, f"{k.label}.{f}", e.where(), f"stores {show(v)} instead of {want}")
                else:
                    ctx.und(rule, f"{k.label}.{f}", e.where(), f"stores {show(v)}, expected {want}")


def store_terms(ctx):
    return {u.table for k in constructors(ctx) for u in k_uses(k) if u.table is not None}


def removal(ctx, rule="store-kept"):
    """Nothing removes or replaces entries of the stores, or the stores themselves."""
    stores = store_terms(ctx)
    ctor_fns = {k.fn for k in constructors(ctx)}
    sites = {e.node for k in constructors(ctx) for e in k.r.effects if e.kind == "mut"}
    names = store_names(ctx, stores)
    n = 0
    for r in ctx.roots():
        for e in r.effects:
            n += 1
            if e.base in stores and e.kind in ("mut", "setattr", "havoc", "delattr"):
                if e.kind == "mut" and e.name in ("setdefault", "__setitem__") and (r.fn in ctor_fns or set(e.stack) & ctor_fns or e.node in sites):
                    continue
                ctx.bad(rule, r.fn.short, e.where(), f"{e.name}() changes the store of unique objects outside its constructor")
            elif e.kind in ("setglobal", "delglobal") and (e.module and e.module.name, e.name) in names:
                ctx.bad(rule, r.fn.short, e.where(), f"the store of unique objects {e.name} is replaced")
            elif e.kind in ("setattr", "delattr") and e.base.op in ("cls", "mod") and any(e.name == x[1] for x in names):
                ctx.bad(rule, r.fn.short, e.where(), f"the store of unique objects {e.name} is replaced")
            elif e.kind in ("setattr", "delattr") and e.base.op != "obj" and any(e.name == x[1] for x in names):
                ctx.und(rule, r.fn.short, e.where(), f"{show(e.base)}.{e.name} is written, which may be a store of unique objects")
    ctx.ok(rule, "package", "", f"{len(stores)} stores; {n} effects of the package examined, none removes or replaces an entry")


def class_setup(r, e):
    """A write of __init_subclass__ to the class that is being defined."""
    return r.fn.name == "__init_subclass__" and bool(r.args) and e.kind == "setattr" and e.base is r.args[0]


def lock_kept(ctx, rule="lock-kept"):
    """The locks of the stores are never replaced: two threads would not exclude each other any more."""
    locks = {v for ls in getattr(ctx, "locks", {}).values() for v in ls}
    stores = store_terms(ctx)
    names, store = store_names(ctx, locks), {n for _, n in store_names(ctx, stores)}
    n = 0
    for r in ctx.roots():
        for e in r.effects:
            n += 1
            if e.kind in ("setglobal", "delglobal") and (e.module and e.module.name, e.name) in names:
                ctx.bad(rule, r.fn.short, e.where(), f"the lock {e.name} is replaced")
            elif e.kind in ("setattr", "delattr") and any(e.name == x[1] for x in names) and e.base.op != "obj":
                if any(x.kind == "setattr" and x.name in store and x.base is e.base for x in r.effects):
                    ctx.und(rule, r.fn.short, e.where(), f"the lock {e.name} is replaced together with the store")
                else:
                    ctx.bad(rule, r.fn.short, e.where(), f"the lock {e.name} of the shared store is replaced, two threads can hold different ones")
    ctx.ok(rule, "package", "", f"{len(locks)} locks; {n} effects of the package examined, none replaces one")


def store_names(ctx, stores):
    out = set()
    for m in ctx.prog.modules.values():
        for n, v in m.ns.items():
            if isinstance(v, T) and v in stores:
                out.add((m.name, n))
    for c in all_classes(ctx.prog):
        for n, v in c.ns.items():
            if isinstance(v, T) and v in stores:
                out.add((c.qual, n))
    return out


def identity_eq(ctx, rule="identity-equality"):
    """Atom types, atoms, trees and expressions compare and hash as objects."""
    p = ctx.prog
    cs = [c for c, _ in node_classes(ctx)] + [c for c in all_classes(p) if c.qual == ATYPE or any(b.qual == ATYPE for b in c.mro())]
    for c in cs:
        for b in c.mro():
            for n in ("__eq__", "__ne__", "__hash__"):
                v = b.ns.get(n)
                if v is None:
                    continue
                w = f"{b.module.rel}:{b.node.lineno}"
                if v.op == "ext" or v.op == "attr" and v.args[0] is ext("builtins.object"):
                    continue
                if v.op != "fn":
                    ctx.und(rule, f"{c.name}.{n}", w, f"{n} is {show(v)}")
                    continue
                r = ctx.run(v.args[0].qual)
                me = r.args[0]
                w = f"{v.args[0].module.rel}:{v.args[0].node.lineno}"
                good = None
                val = Canon(r.it)(value_of(r))
                if val is not None:
                    if n == "__hash__":
                        good = val is mk("app", ext("builtins.id"), (me,), ()) or None
                        if good is None and understood(val) and not contains(val, lambda s: s.op == "app" and s.args[0] is ext("builtins.id")):
                            good = True if contains(val, lambda s: s is me) else None
                    else:
                        o = r.args[1]
                        want = {mk("cmp", q, *xy) for q in ("is", "==") for xy in ((me, o), (o, me))}
                        if val in want or (n == "__ne__" and mk_not(val) in want):
                            good = True
                        elif understood(val) and any(s.op == "attr" and s.args[0] in (me, o) for s in subterms(val)):
                            good = False
                ctx.decide(good, rule, f"{c.name}.{n}", w, f"returns {show(val) if val is not None else '?'}")
            if getattr(b, "dataclass", False) and any(isinstance(d, object) for d in b.node.decorator_list):
                import ast
                eq = True
                for d in b.node.decorator_list:
                    if isinstance(d, ast.Call):
                        for kw in d.keywords:
                            if kw.arg == "eq" and isinstance(kw.value, ast.Constant) and kw.value.value is False:
                                eq = False
                if eq and "__eq__" not in b.ns:
                    ctx.bad(rule, f"{c.name}.__eq__", f"{b.module.rel}:{b.node.lineno}", "dataclass generates an equality that compares fields")
        ctx.ok(rule, c.name, f"{c.module.rel}:{c.node.lineno}", "no structural equality or hash")


def node_instances(ctx, rule="made-by-constructor"):
    """Instances of node classes are made nowhere but in the constructors (no object.__new__, copy, pickling hooks)."""
    nodes = {c for c, _ in node_classes(ctx)}
    ctor_fns = {k.fn for k in constructors(ctx)}
    n = 0
    for r in ctx.roots():
        for o in made(r):
            n += 1
            c = o.cls
            if c is None or c.op != "cls" or c.args[0] not in nodes:
                continue
            if r.fn in ctor_fns:
                continue
            ctx.bad(rule, r.fn.short, f"{r.fn.module.rel}:{getattr(o.node, 'lineno', 0)}", f"makes a {c.args[0].name} without its constructor")
    for c in nodes:
        for nm in ("__copy__", "__deepcopy__", "__reduce__", "__reduce_ex__", "__getnewargs__", "__setstate__"):
            v = c.ns.get(nm)
            if v is not None and v.op == "fn":
                ctx.und(rule, f"{c.name}.{nm}", f"{c.module.rel}:{c.node.lineno}", "copying hook")
    ctx.ok(rule, "package", "", f"{len(nodes)} node classes; instances are made by their constructors only")


def made(r):
    """Objects of classes made during an analysis."""
    seen = set()
    for e in r.effects:
        for t in (e.base,) + tuple(e.args):
            for s in subterms(t, seen):
                if s.op == "obj" and s.args[0].kind == "inst" and s.args[0].era != "module":
                    yield s.args[0]
    for o in r.returns:
        for s in subterms(o.value, seen):
            if s.op == "obj" and s.args[0].kind == "inst" and s.args[0].era != "module":
                yield s.args[0]


# ------------------------------------------------------------------ C02

def held_regions(gate):
    return {l[0].args[1]: l[0].args[0] for l in gate if l[0].op == "held" and l[1]}


def publication(ctx, rule="publication"):
    for k in constructors(ctx):
        c = k.label
        for u in k_uses(k):
            if u.kind == "unpublished":
                ctx.bad(rule, c, u.where, "a newly made object is returned without being entered in the store")
                continue
            if u.kind == "other":
                ctx.und(rule, c, u.where, f"returned value not recognised: {show(u.leaf)}")
                continue
            if u.kind == "ignored":
                ctx.bad(rule, c, u.where, "the new object is returned although the store may already hold another one (result of setdefault ignored)")
                continue
            if module_level(k, u.table) is False:
                ctx.bad(rule, c, u.where, "the store is not shared by all threads")
                continue
            if u.kind == "sub" and any(l[1] and l[0].op in ("contains", "cmp") and contains(l[0], lambda s: s is u.table) for l in u.gate if l[0].op != "held"):
                ctx.bad(rule, c, u.where, f"{show(u.leaf)} is read after a separate test for it: the entry can disappear in between")
                continue
            if u.kind in ("hit", "sub"):
                ctx.ok(rule, f"{c} hit", u.where, f"single atomic lookup {show(u.leaf)}")
                continue
            e = u.eff
            if e is None:
                ctx.und(rule, c, u.where, "publication not located")
                continue
            regs = held_regions(e.gate)
            locks = [module_level(k, v) for v in regs.values()]
            if u.kind == "pub" and not is_weak(u.table) and u.table.op == "obj":
                ctx.ok(rule, f"{c} published", e.where(), "dict.setdefault is atomic")
            elif not regs and any(contains(l[0], lambda s: s.op == "attr" and s.args[1] == "acquire") for l in e.gate):
                if any(not l[1] and l[0].op == "truth" and l[0].args[0].op == "app" and l[0].args[0].args[0].op == "attr" and l[0].args[0].args[0].args[1] == "acquire" for l in e.gate):
                    ctx.bad(rule, c, e.where(), "stored without the lock when another thread holds it: both can publish an object")
                else:
                    ctx.und(rule, c, e.where(), "stored when a lock that may be refused was taken")
                continue
            elif not regs:
                ctx.bad(rule, c, e.where(), f"{show(u.table)}.{e.name} runs without a lock: it is not atomic, two threads can both publish an object")
                continue
            elif True not in locks:
                if any(no_lock(v) for v in regs.values()) and len(regs) == 1:
                    ctx.bad(rule, c, e.where(), "stored without a lock under a condition: two threads can both publish an object")
                elif u.obj is not None and all(v.op == "idx" and contains(v.args[1], lambda z: z.op == "app" and z.args[0] is ext("builtins.id") and z.args[1] == (u.obj,)) for v in regs.values()):
                    ctx.bad(rule, c, e.where(), "which lock is held depends on the new object: two threads that make equal objects hold different ones")
                elif all(x is False for x in locks):
                    ctx.bad(rule, c, e.where(), "the lock held while publishing is not shared by all threads")
                else:
                    ctx.und(rule, c, e.where(), "lock not recognised")
                continue
            elif u.kind == "store":
                # the entry must have been looked up again inside the same region
                every = [x for x in k.r.effects if x.pos < e.pos and (x.kind == "call" and x.base.op == "attr" and x.base.args[0] is u.table or x.kind == "test" and x.base is u.table)]
                look = [x for x in every if set(held_regions(x.gate)) & set(regs)]
                tests = [l for l in e.gate if l[0].op != "held" and contains(l[0], lambda s: s is u.table)]
                if look:
                    ctx.ok(rule, f"{c} published", e.where(), "looked up again and stored within one locked region")
                elif all(x.kind != "call" or not held_regions(x.gate) for x in k.r.effects if x.pos < e.pos) and tests and not any(l[0].op == "contains" or l[0].op == "cmp" and l[0].args[0] == "in" for l in tests):
                    ctx.bad(rule, c, e.where(), "the new object is stored under the lock without looking again whether another thread stored one")
                elif tests and every and not any(x.kind == "call" and x.base.op != "attr" for x in k.r.effects if x.pos < e.pos and held_regions(x.gate)):
                    ctx.bad(rule, c, e.where(), "the new object is stored under the lock, what decides that was looked up before the lock was taken")
                else:
                    ctx.und(rule, c, e.where(), "stored under the lock, repeated lookup not recognised")
                    continue
            else:
                ctx.ok(rule, f"{c} published", e.where(), f"setdefault within {', '.join(show(v) for v in regs.values())}")
            # one lock per store
            for l, v in regs.items():
                ctx.locks = getattr(ctx, "locks", {})
                ctx.locks.setdefault(u.table, {}).setdefault(v, set()).add(k.label)
            # initialised before it is visible
            late = [x for x in k.r.effects if x.kind in ("setattr", "delattr") and x.base in (u.obj, u.leaf) and x.pos > e.pos]
            if late:
                ctx.bad(rule, c, late[0].where(), f"field {late[0].name} is stored after the object can be seen by other threads")
            else:
                ctx.ok(rule, f"{c} initialised", e.where(), "all fields are stored before the publication")
    for t, ls in getattr(ctx, "locks", {}).items():
        if len(ls) > 1 and all(not a & b for a, b in itertools.combinations(ls.values(), 2)):
            # each constructor has its own lock, and may have its own keys
            ctx.und("one-lock", show(t), "", "publications of different constructors into the same store use different locks")
        elif len(ls) > 1:
            ctx.bad("one-lock", show(t), "", "publications into the same store use different locks")
        else:
            ctx.ok("one-lock", show(t), "", "all publications into the store hold the same lock")
    lock_kept(ctx)
    removal(ctx)
    node_init(ctx)


def node_init(ctx, rule="no-late-init"):
    """No __init__ of a node class runs on an object that already exists."""
    for c, kind in node_classes(ctx):
        v, owner = c.lookup("__init__")
        if v is None or v.op != "fn":
            ctx.ok(rule, c.name, f"{c.module.rel}:{c.node.lineno}", "no __init__")
            continue
        r = ctx.run(v.args[0].qual)
        bad = [e for e in r.effects if e.kind in ("setattr", "delattr") and e.base is r.args[0]]
        if bad:
            e = bad[0]
            same = any(e.args and e.args[0] is a for a in r.args[1:]) and e.name in FIELDS[kind]
            (ctx.und if same else ctx.bad)(rule, c.name, e.where(), f"__init__ stores {e.name} on every construction, also of an object that already exists")
        else:
            ctx.ok(rule, c.name, f"{c.module.rel}:{v.args[0].node.lineno}", "__init__ stores nothing")


# ------------------------------------------------------------------ C03

def is_node_term(it, prog, t):
    ty = it.typeof(t)
    if ty is None:
        return t.op in ("atom", "tree", "treeatom", "symw")
    if ty.args[0] == "inst" and len(ty.args) > 1 and isinstance(ty.args[1], T) and ty.args[1].op == "cls":
        return prog.is_node(ty.args[1].args[0])
    return False


def immutability(ctx, rule="no-write"):
    prog = ctx.prog
    nodes = {c: k for c, k in node_classes(ctx)}
    allf = {f for fs in FIELDS.values() for f in fs}
    ctors = {k.fn for k in constructors(ctx)}
    n = 0
    for r in ctx.roots():
        for e in r.effects:
            if e.kind in ("setattr", "delattr"):
                n += 1
                for g, b in phi_leaves(e.base):
                    if class_setup(r, e):
                        continue
                    if b.op == "obj" and b.args[0].kind == "inst" and b.args[0].era != "module":
                        continue        # made by this very call; publication order is checked below
                    c = b.args[0] if b.op == "cls" else None
                    if c is not None and c in nodes and e.name in allf:
                        ctx.bad(rule, r.fn.short, e.where(), f"replaces {c.name}.{e.name}")
                    elif is_node_term(r.it, prog, b):
                        ctx.bad(rule, r.fn.short, e.where(), f"stores .{e.name} of an existing node {show(b)}")
                    elif e.name in ("children", "rep", "atom_type") and r.it.typeof(b) is None and b.op not in ("cls", "mod", "sym"):
                        ctx.und(rule, r.fn.short, e.where(), f"stores .{e.name} of {show(b)}")
            elif e.kind == "call" and e.base.op == "attr" and e.base.args[1] in ("__setattr__", "__delattr__") or e.kind == "call" and e.base in (ext("builtins.setattr"), ext("builtins.delattr")):
                if any(is_node_term(r.it, prog, a) for a in e.args[:1]):
                    ctx.bad(rule, r.fn.short, e.where(), "changes a field of an existing node")
            elif e.kind == "mut":
                n += 1
                b = e.base
                if b.op == "attr" and b.args[1] in allf and is_node_term(r.it, prog, b.args[0]):
                    ctx.bad(rule, r.fn.short, e.where(), f"{e.name}() changes {show(b)}")
                if b.op == "attr" and b.args[1] == "__dict__" and is_node_term(r.it, prog, b.args[0]):
                    ctx.bad(rule, r.fn.short, e.where(), f"{e.name}() changes {show(b)}")
    # after publication
    for k in constructors(ctx):
        for u in k_uses(k):
            if u.obj is None:
                if u.leaf.op != "obj":
                    late = [x for x in k.r.effects if x.kind in ("setattr", "delattr") and x.base is u.leaf]
                    if late:
                        ctx.bad(rule, k.label, late[0].where(), f"stores .{late[0].name} of an object found in the store")
                continue
            late = [x for x in k.r.effects if x.kind in ("setattr", "delattr") and (x.base is u.leaf and u.leaf.op != "obj" or x.base is u.obj and u.eff is not None and x.pos > u.eff.pos)]
            if late:
                ctx.bad(rule, k.label, late[0].where(), f"stores .{late[0].name} after the object was published")
    ctx.ok(rule, "package", "", f"{n} writes examined: fields of nodes are only stored on objects that are being constructed")
    wellformed(ctx)
    fields_are_parts(ctx)
    node_init(ctx)
    # fields cannot be reassigned silently through property setters
    for c, kind in nodes.items():
        for nm, v in c.ns.items():
            if isinstance(v, T) and v.op == "property" and len(v.args) > 1 and isinstance(v.args[1], T) and v.args[1].op == "fn":
                ctx.und("property-setter", f"{c.name}.{nm}", f"{c.module.rel}:{c.node.lineno}", "property with a setter")


def wellformed(ctx, rule="well-formed"):
    """A node is only made from parts of the right class, and a compound tree has a head."""
    prog = ctx.prog
    for k in constructors(ctx):
        r = k.r
        for u in k_uses(k):
            if u.obj is None or u.obj.op != "obj":
                continue
            gate = [l for l in (u.eff.gate if u.eff is not None else u.gate) if l[0].op not in ("held", "inloop", "iterates")]
            facts = {lit_term(l) for l in gate}
            need = []
            if k.label.endswith(".atom"):
                need.append(("value", [r.it.isinst(r.args[-1], prog.cls_term(ATOM))], "isinstance(value, Atom)"))
            elif k.kind == "Sym":
                need.append(("tree_expr", [r.it.isinst(r.args[1], prog.cls_term(TREE))], "isinstance(tree_expr, Tree)"))
            for what, cs, text in need:
                if any(f in cs for f in facts):
                    ctx.ok(rule, f"{k.label} {what}", u.where, f"made only if {text}")
                elif any(contains(f, lambda s: s is cs[0]) for f in facts) or raising_helper(r, r.args[-1]):
                    ctx.und(rule, f"{k.label} {what}", u.where, f"check {text} not recognised")
                else:
                    ctx.bad(rule, f"{k.label} {what}", u.where, f"made without checking {text}")
            if k.kind == "Tree" and not k.label.endswith(".atom"):
                ch = k.args[1]
                empty = [f for f in facts if nonempty(r.it, f, ch)]
                ctx.decide(True if empty else None if any(contains(f, lambda s: s is ch) and f.op not in ("all",) and not isinstance_fact(f) and not tablefact(f, k) for f in facts) else False, rule,
                           f"{k.label} head", u.where, "made only if there is at least a head" if empty else "made without checking that there is a head")
                al = covered(facts, ch, prog, k)
                if al is None and loop_check(k, ch, prog, facts):
                    al = True
                ifs = [f for f in facts if contains(f, lambda s: s.op == "isinst")]
                some = all(f.op == "isinst" and f.args[0].op == "idx" for f in ifs) and not any(contains(conj(o.gate), lambda s: s.op == "isinst" and s.args[0].op != "idx") for o in r.raises)
                checks = [o for o in r.raises if contains(conj(o.gate), lambda s: s.op == "isinst")]
                if al is None and u.eff is not None and not ifs and checks and all(o.pos is not None and o.pos > u.eff.pos for o in checks):
                    # published first, checked later
                    some = True
                ctx.decide(al if al is not None else False if some else None, rule,
                           f"{k.label} children", u.where, "made only if all children are Trees" if al else "made without checking that all children are Trees")
            if k.kind == "Tree" and not k.label.endswith(".atom"):
                es = [e for e in r.effects if e.base is u.obj and e.kind == "setattr" and e.name == "children"]
                for e in es:
                    v = e.args[0]
                    ty = r.it.typeof(e.args[0])
                    istup = v is k.args[1] or v.op in ("seqof", "tup") or ty is not None and ty.args[0] in ("tuple", "tupleof")
                    if v.op == "obj" or v.op == "app" and v.args[0] is ext("builtins.list"):
                        istup = False
                    ctx.decide(istup, rule, f"{k.label} tuple", e.where(), f"children stored as {show(v)}")


def tablefact(f, k):
    return contains(f, lambda s: s.op in ("app", "attr", "idx") and any(u.table is not None and contains(s, lambda q: q is u.table) for u in k_uses(k)))


def raising_helper(r, p):
    return any(e.kind == "call" and e.base.op in ("fn",) and any(a is p for a in e.args) for e in r.effects)


def isinstance_fact(f):
    return contains(f, lambda s: s.op == "isinst")


def nonempty(it, f, ch):
    t = it.truth(ch)
    if f is t:
        return True
    n = mk("app", ext("builtins.len"), (ch,), ())
    if f.op == "cmp" and contains(f, lambda s: s is n):
        op, a, b = f.args
        if a is n and (op, b) in ((">", const(0)), (">=", const(1)), ("!=", const(0))):
            return True
        if b is n and (op, a) in (("<", const(0)), ("<=", const(1)), ("!=", const(0))):
            return True
    if f.op == "not" and f.args[0].op == "cmp":
        op, a, b = f.args[0].args
        if {a, b} == {n, const(0)} and op == "==":
            return True
        if {a, b} == {ch, mk("tup", ())} and op == "==":
            return True
    return False


def loop_check(k, ch, prog, facts):
    """A loop over the children raises for a child that is not a Tree."""
    tree = prog.cls_term(TREE)
    for o in k.r.raises:
        rest = [l for l in o.gate if l[0].op not in ("inloop", "iterates") and lit_term(l) not in facts]
        if len(rest) == 1 and not rest[0][1] and rest[0][0].op == "isinst" and rest[0][0].args[1] is tree:
            x = rest[0][0].args[0]
            if x.op == "elem" and same_seq(k.cn(k.r.it.domain(x.args[1])), ch):
                return True
    return False


def covered(facts, ch, prog, k):
    """Is every child known to be a Tree? False: some position is certainly not looked at."""
    tree = prog.cls_term(TREE)
    prefix, seen, parts, weak = set(), False, [], False
    for f in facts:
        for c in conjuncts(f):
            if c.op == "any" and c.args[1].op == "isinst" and c.args[1].args[0].op == "belem" and c.args[1].args[0].args[0] is c.args[0]:
                # some element is a Tree: says nothing about the others
                weak = True
                continue
            if c.op == "isinst" and c.args[0].op == "idx" and c.args[0].args[0] is ch and c.args[0].args[1].op == "const":
                if c.args[1] is tree:
                    prefix.add(c.args[0].args[1].args[0])
                continue
            if not contains(c, lambda s: s.op == "isinst") or not contains(c, lambda s: s is ch):
                continue
            seen = True
            X = c.args[0] if c.op == "all" else None
            if X is None or not any(d.op == "isinst" and d.args[1] is tree and d.args[0].op == "belem" and d.args[0].args[0] is X for d in conjuncts(c.args[1])):
                return None
            X = k.cn(X)
            if same_seq(X, ch):
                return True
            while X.op == "seqof":
                X = X.args[0]
            if X.op != "slice" or not same_seq(X.args[0], ch) or len(X.args) != 4:
                return None
            parts.append(X.args[1:])
    if not seen and weak and not any(contains(f, lambda s: s.op == "app" and s.args[0] is ext("builtins.len")) for f in facts):
        return False
    if not seen:
        return None
    for lo, hi, step in parts:
        if not all(x.op == "const" for x in (lo, hi, step)):
            return None
        if hi is NONE and step.args[0] in (None, 1):
            n = lo.args[0] or 0
            if n >= 0 and all(i in prefix for i in range(n)):
                return True
    return False if len(parts) == 1 else None


def conjuncts(f):
    """The parts of a conjunction, none of which is one itself."""
    if f.op == "and":
        for x in f.args[0] if f.args and isinstance(f.args[0], tuple) else f.args:
            yield from conjuncts(x)
    else:
        yield f

