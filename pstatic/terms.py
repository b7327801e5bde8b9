"""Immutable, hash-consed value terms of the value-flow graph."""
from __future__ import annotations


class T:
    __slots__ = ("op", "args", "uid", "__weakref__")
    table: dict = {}
    count = 0

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op, args) if op != "const" else (op, type(args[0]), repr(args[0]) if isinstance(args[0], float) else args[0])
    t = T.table.get(key)
    if t is None:
        t = object.__new__(T)
        t.op = op
        t.args = args
        T.count += 1
        t.uid = T.count
        T.table[key] = t
    return t


def const(v):
    return mk("const", v)


NONE, TRUE, FALSE = const(None), const(True), const(False)
NOTIMPL = mk("ext", "builtins.NotImplemented")


def is_const(t, *vals):
    return t.op == "const" and (not vals or any(type(t.args[0]) is type(v) and t.args[0] == v for v in vals))


def ext(name):
    return mk("ext", name)


def subterms(t, seen=None):
    """All subterms, each once."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)


def contains(t, pred):
    return any(pred(s) for s in subterms(t))


def subst(t, mapping, memo=None, rebuild=None):
    """Replace subterms by mapping (T -> T)."""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in mapping:
            return mapping[x]
        r = memo.get(x)
        if r is None:
            new = tuple(go(y) for y in x.args)
            if new == x.args:
                r = x
            elif rebuild is not None:
                r = rebuild(x.op, new)
            else:
                r = mk(x.op, *new)
            memo[x] = r
        return r

    return go(t)


def show(t, d=7):
    """Readable text of a term (for reports only)."""
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, d - 1) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if d <= 0:
        return "..."
    o, a = t.op, t.args
    s = lambda x: show(x, d - 1)
    if o == "const":
        return repr(a[0])
    if o == "sym":
        return str(a[0])
    if o == "ext":
        return a[0].replace("builtins.", "")
    if o in ("fn", "cls"):
        return a[0].short
    if o == "mod":
        return a[0]
    if o == "bound":
        return f"{s(a[0])}.{a[1].args[0].name}" if a[1].op == "fn" else f"{s(a[0])}.{s(a[1])}"
    if o == "obj":
        return a[0].show(d - 1)
    if o == "tup":
        return "(" + ", ".join(s(x) for x in a[0]) + ")"
    if o == "star":
        return "*" + s(a[0])
    if o == "app":
        kw = "".join(f", {k}={s(v)}" for k, v in a[2])
        return f"{s(a[0])}({', '.join(s(x) for x in a[1])}{kw})"
    if o == "attr":
        return f"{s(a[0])}.{a[1]}"
    if o == "idx":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "slice":
        return f"{s(a[0])}[{':'.join('' if is_const(x, None) else s(x) for x in a[1:4])}]"
    if o == "bin":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if o == "un":
        return f"({a[0]}{s(a[1])})"
    if o == "cmp":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if o == "not":
        return f"not {s(a[0])}"
    if o in ("and", "or"):
        return "(" + f" {o} ".join(s(x) for x in a[0]) + ")"
    if o == "truth":
        return f"bool({s(a[0])})"
    if o == "phi":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if o == "fmt":
        return "f'" + "".join(p[1] if p[0] == "lit" else "{" + s(p[1]) + p[0] + "}" for p in a[0]) + "'"
    if o == "join":
        return f"{s(a[0])}.join({s(a[1])})"
    if o == "elem":
        return f"each<{s(a[0])}>"
    if o == "idxvar":
        return f"i{a[0].id}"
    if o in ("key", "val"):
        return f"{o}<{s(a[0])}>"
    if o in ("mu", "out"):
        return f"{a[1]}@{o}{a[0].id}"
    if o == "atom":
        return f"Atom({s(a[0])}, {s(a[1])})"
    if o == "tree":
        return "Tree" + s(a[0])
    if o == "treeatom":
        return f"Tr({s(a[0])})"
    if o == "symw":
        return f"{s(a[0])}<{s(a[1])}>"
    return f"{o}{show(tuple(a), d)}"
