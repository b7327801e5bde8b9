"""C23: nothing that is returned depends on the order of sets, on addresses, hashes, time or chance."""
from __future__ import annotations

import ast

from .lib import *  # noqa
from .lib import T_type, show_
from . import effects

SETS = ("set", "setof", "frozenset", "frozensetof")
KEEP = ("list", "tuple", "iter", "enumerate", "reversed", "zip", "map", "filter", "islice", "chain", "from_iterable", "starmap", "accumulate",
        "combinations", "permutations", "product", "deque", "cycle", "fromkeys", "dict", "OrderedDict", "array", "count_once")
FREE = ("set", "frozenset", "sorted", "len", "any", "all", "sum", "bool", "isinstance", "issubclass", "type", "min", "max", "fsum")
CHANCE = ("random.", "secrets.", "uuid.", "time.", "datetime.", "os.urandom", "os.getpid", "os.getppid", "threading.get_ident", "threading.get_native_id",
          "threading.current_thread", "concurrent.futures.as_completed", "numpy.random.", "sys.getrefcount", "sys.intern_", "gc.get_objects", "gc.get_referrers",
          "tempfile.mk", "os.times", "weakref.getweakrefcount", "sys.getsizeof", "resource.")
AMBIENT = ("os.environ", "os.getenv", "sys.flags", "sys.argv", "sys.platform", "os.name", "platform.", "locale.", "socket.", "getpass.", "os.getcwd",
           "os.listdir", "os.path.", "os.stat", "builtins.open", "io.open", "os.getlogin", "os.cpu_count", "sys.hash_info", "sys.orig_argv", "sys.path", "shutil.")
ADDRESS = ("builtins.id", "builtins.hash")
VIEWS = ("keys", "items")
SET_METHODS = ("union", "difference", "intersection", "symmetric_difference")
SET_ATTRS = ("free_symbols",)
GROW = ("append", "extend", "insert", "__setitem__", "setdefault", "appendleft", "extendleft", "__iadd__")


def short(f):
    return f.args[0].split(".")[-1] if f.op == "ext" else f.args[1] if f.op == "attr" else ""


class Orders:
    """What has no order of its own in one analysed function."""

    def __init__(self, ctx, r):
        self.ctx, self.r, self.it = ctx, r, r.it
        self.memo = {}
        self.loops = {}         # loop -> why its order is arbitrary
        self.tainted = {}       # list or dict whose order is arbitrary -> effect
        todo = {L for e in r.effects for L in e.loops} | {L for o in r.returns + r.raises for L in o.loops}
        self.all_loops = todo
        for _ in range(4):
            n = len(self.loops) + len(self.tainted)
            self.memo.clear()
            for L in todo:
                if L not in self.loops and L.it is not None and (why := self.unordered(L.it)) is not None:
                    self.loops[L] = why
            for e in r.effects:
                if e.kind == "mut" and e.name in ("pop", "popitem") and not e.args and e.loops and (s := self.is_set(e.base)) is not None:
                    self.loops.setdefault(e.loops[-1], s)
            for e in r.effects:
                if e.kind != "mut" or e.base.op != "obj" or e.base.args[0].kind not in ("list", "dict") or e.base in self.tainted or e.name not in GROW:
                    continue
                own = [L for L in e.loops if L in self.loops and L not in self.born(e.base)]
                if own and (e.base.args[0].kind == "dict" or not self.fixed(e, own)):
                    self.tainted[e.base] = (e, self.loops[own[0]])
                elif e.name in ("extend", "__iadd__", "extendleft") and e.args and (why := self.unordered(e.args[0])) is not None:
                    self.tainted[e.base] = (e, why)
            if len(self.loops) + len(self.tainted) == n:
                break

    def born(self, o):
        """The loops in which a container is created anew in every iteration."""
        return getattr(o.args[0], "loops", None) or ()

    def fixed(self, e, own):
        """A list entry stored at a position of its own: not appended."""
        return e.name == "__setitem__" and not contains(e.args[0], lambda t: t.op == "idxvar" and t.args[0] in own)

    # ------------------------------------------------------------ collections without order

    def is_set(self, t):
        """The set that a term is, unless its order is the same in every run."""
        if t.op == "sym" and t.args[1] is None:
            return None
        ty = self.it.typeof(t)
        name = ty.args[0] if ty is not None else None
        if t.op == "obj" and t.args[0].kind == "set" or name in SETS:
            pass
        elif t.op == "bin" and t.args[0] in "|&-^" and any(self.is_set(x) is not None or x.op == "dictview" and x.args[0] in VIEWS for x in t.args[1:]):
            pass
        elif t.op == "setop":
            pass
        elif t.op == "app" and t.args[0].op == "ext" and t.args[0].args[0] in ("builtins.set", "builtins.frozenset"):
            pass
        elif t.op == "app" and t.args[0].op == "attr" and t.args[0].args[1] in SET_METHODS and self.is_set(t.args[0].args[0]) is not None:
            pass
        elif t.op == "attr" and t.args[1] in SET_ATTRS and name is None:
            pass
        elif t.op == "phi":
            return self.is_set(t.args[1]) or self.is_set(t.args[2])
        else:
            return None
        return None if self.stable(t) else t

    def stable(self, t):
        """A set of at most one element, or of integers: the order does not change between runs."""
        if t.op == "obj":
            o = t.args[0]
            mine = [e for e in self.r.effects if e.kind == "mut" and e.base is t and e.name in ("add", "update", "__ior__")]
            if not mine and len(o.init) <= 1 and not any(x.op == "star" for x in o.init):
                return True
            vals = [e.args[0] for e in mine if e.name == "add" and e.args]
            rest = [x.args[0] for x in o.init if x.op == "star"] + [a for e in mine if e.name != "add" for a in e.args]
            vals += [x for x in o.init if x.op != "star"]
            return all(self.numbers(self.it.typeof(v)) or v.op == "key" and self.positions(v.args[0]) for v in vals) and all(self.of_numbers(x) for x in rest)
        return self.of_numbers(t)

    def of_numbers(self, t):
        if t.op == "dictview":
            return t.args[0] == "keys" and self.of_numbers(t.args[1])
        if t.op == "app" and t.args[0].op == "ext" and short(t.args[0]) in ("list", "set", "tuple", "sorted", "frozenset", "reversed") and len(t.args[1]) == 1:
            return self.of_numbers(t.args[1][0])
        if t.op == "app" and t.args[0] is ext("builtins.range"):
            return True
        if t.op == "bin":
            return all(self.of_numbers(x) for x in t.args[1:])
        if t.op == "setop":
            return self.of_numbers(t.args[1])
        if t.op == "tup":
            return all(self.numbers(self.it.typeof(x)) for x in t.args[0])
        if t.op == "obj" and t.args[0].kind == "set":
            return self.stable(t)
        if t.op == "obj" and t.args[0].kind in ("list", "dict"):
            vals = [e.args[0] for e in self.r.effects if e.kind == "mut" and e.base is t and e.name in ("append", "__setitem__") and e.args]
            return bool(vals) and not t.args[0].init and all(self.numbers(self.it.typeof(v)) for v in vals)
        if self.positions(t):
            return True
        ty = self.it.typeof(t)
        return ty is not None and ty.args[0] in ("listof", "setof", "tuplevar", "dictof", "frozensetof") and self.numbers(ty.args[1])

    def positions(self, t):
        return t.op == "attr" and t.args[1] == "entrymap"

    def numbers(self, ty):
        if ty is None:
            return False
        if ty.args[0] in ("int", "bool", "float"):
            return True
        if ty.args[0] == "tupleof":
            return all(self.numbers(x) for x in ty.args[1])
        return ty.args[0] == "tuplevar" and self.numbers(ty.args[1])

    def unordered(self, t, depth=0):
        """Why iterating over a term has no order of its own (None: it has)."""
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        if depth < 10:
            self.memo[t] = self._unordered(t, depth + 1)
        return self.memo[t]

    def _unordered(self, t, depth):
        s = self.is_set(t)
        if s is not None:
            return s
        o = t.op
        if o == "obj":
            if t in self.tainted:
                return self.tainted[t][1]
            if t.args[0].kind in ("list", "dict"):
                for x in t.args[0].init:
                    y = x.args[0] if isinstance(x, T) and x.op == "star" else x[1] if isinstance(x, tuple) and x[0] is None else None
                    if isinstance(y, T) and (why := self.unordered(y, depth)) is not None:
                        return why
            return None
        if o == "tup":
            return next((w for x in t.args[0] if x.op == "star" and (w := self.unordered(x.args[0], depth)) is not None), None)
        if o == "star":
            return self.unordered(t.args[0], depth)
        if o == "app" and t.args[0].op == "ext" and short(t.args[0]) in KEEP:
            return next((w for x in t.args[1] if isinstance(x, T) and (w := self.unordered(x, depth)) is not None), None)
        if o == "dictview":
            return self.unordered(t.args[1], depth)
        if o == "slice":
            return self.unordered(t.args[0], depth)
        if o == "phi":
            return self.unordered(t.args[1], depth) or self.unordered(t.args[2], depth)
        if o == "zipdom":
            xs = t.args[0] if isinstance(t.args[0], tuple) else t.args
            return next((w for x in xs if isinstance(x, T) and (w := self.unordered(x, depth)) is not None), None)
        return None

    # ------------------------------------------------------------ use of an arbitrary order

    def uses(self, t, seen=None):
        """[(what, why)]: places in a value where an arbitrary order shows."""
        seen = set() if seen is None else seen
        if not isinstance(t, T) or t in seen:
            return []
        seen.add(t)
        o, a = t.op, t.args
        if o == "app" and a[0].op == "ext":
            f = short(a[0])
            if f in FREE:
                out = []
                key = dict(a[2]).get("key") if a[2] and all(len(x) == 2 for x in a[2] if isinstance(x, tuple)) else None
                if f in ("sorted", "min", "max") and key is not None:
                    if (w := self.address_key(key)) is not None:
                        return [("the order", f"by {w}")]
                for x in a[1]:
                    if isinstance(x, T) and self.unordered(x) is None:
                        out += self.uses(x, seen)
                return out
            if f in ("next", "popped") and a[1] and (w := self.unordered(a[1][0])) is not None:
                return [("an arbitrary element", w)]
        if o == "contains":
            return self.uses(a[1], seen)
        if o == "popped" and (w := self.is_set(a[0])) is not None:
            return [("an arbitrary element", w)]
        if o == "idx" and (w := self.unordered(a[0])) is not None and not (a[0].op == "obj" and a[0].args[0].kind == "dict") and self.it.typeof(a[0]) not in (T_type("dict"),):
            return [("an element by its position", w)]
        if o in ("tup", "tree"):
            parts = a[0] if o == "tup" else (a[0],)
            out = []
            for x in parts:
                if x.op == "star" and (w := self.unordered(x.args[0])) is not None:
                    out.append(("operands in the order", w))
                else:
                    out += self.uses(x, seen)
            return out
        if o == "join" and (w := self.unordered(a[1])) is not None:
            return [("text in the order", f"of the texts {show_(w)[:100]}" if self.themselves(a[1], w) else w)]
        if o == "obj":
            if t in self.tainted:
                return [(f"a {a[0].kind} filled in the order", self.tainted[t][1])]
            out = []
            if a[0].kind in ("list", "dict"):
                if (w := self.unordered(t)) is not None:
                    return [(f"a {a[0].kind} in the order", w)]
                for x in a[0].init:
                    for y in (x if isinstance(x, tuple) else (x,)):
                        if isinstance(y, T):
                            out += self.uses(y.args[0] if y.op == "star" else y, seen)
                for e in self.r.effects:
                    if e.kind == "mut" and e.base is t:
                        for y in e.args:
                            out += self.uses(y, seen)
            elif a[0].kind == "inst":
                for e in self.r.effects:
                    if e.kind == "setattr" and e.base is t:
                        for y in e.args:
                            out += self.uses(y, seen)
            return out
        if o == "app" and a[0].op in ("ext", "attr") and short(a[0]) in ("list", "tuple") and a[1] and (w := self.unordered(a[1][0])) is not None:
            return [("a list in the order", w)]
        if o in ("mu", "out") and a[0] in self.loops:
            x = a[0].back.get(a[1])
            if x is not None and not self.commutes(x, a[0], a[1]):
                return [("a value computed in the order", self.loops[a[0]])]
            return []
        if o == "idxvar" and a[0] in self.loops:
            return [("the position in the order", self.loops[a[0]])]
        out = []
        for x in flat(a):
            out += self.uses(x, seen)
        return out

    def themselves(self, t, w):
        """Whether what is joined are the elements of the set themselves: texts."""
        if t is w:
            return True
        if t.op == "app" and t.args[0].op == "ext" and short(t.args[0]) in ("list", "tuple", "iter", "reversed") and len(t.args[1]) == 1:
            return self.themselves(t.args[1][0], w)
        if t.op == "obj" and t.args[0].kind == "list":
            es = [e for e in self.r.effects if e.kind == "mut" and e.base is t]
            star = [x.args[0] for x in t.args[0].init if x.op == "star"]
            return any(self.themselves(x, w) for x in star) or any(e.name == "append" and e.args[0].op in ("elem", "key") and e.args[0].args[1] in self.loops for e in es)
        return False

    def commutes(self, x, L, name):
        """An update that gives the same in every order."""
        me = mk("mu", L, name)
        if not contains(x, lambda t: t.op in ("elem", "key", "val", "idxvar") and (t.args[0] if t.op == "idxvar" else t.args[1]) is L):
            return True
        if x.op == "bin" and x.args[0] in ("+", "*", "|", "&", "^") and me in x.args[1:]:
            other = next((y for y in x.args[1:] if y is not me), None)
            ty = self.it.typeof(other) if other is not None else None
            return ty is None or ty.args[0] in ("int", "bool") + SETS
        if x.op in ("lin", "and", "or", "not"):
            return True
        if x.op == "phi":
            return all(y is me or y.op == "const" or self.commutes(y, L, name) for y in x.args[1:])
        if x.op == "app" and x.args[0].op == "ext" and short(x.args[0]) in ("min", "max", "gcd", "lcm"):
            return True
        return False

    def address_key(self, key):
        if key.op == "ext" and key.args[0] in ADDRESS:
            return short(key)
        if key.op == "attr" and key.args[1] in ("__hash__",):
            return "hash"
        if key.op == "fn":
            for r in self.ctx.everything():
                if r.fn is key.args[0] or r.fn.node is key.args[0].node:
                    for o in r.returns:
                        for s in subterms(o.value):
                            if s.op == "app" and s.args[0].op == "ext" and s.args[0].args[0] in ADDRESS:
                                return short(s.args[0])
        return None


def flat(xs):
    for x in xs:
        if isinstance(x, T):
            yield x
        elif isinstance(x, (tuple, list, frozenset)):
            yield from flat(x)


def addresses(t, it, seen=None, inside=False):
    """Places where an address or a hash becomes visible: in texts and in comparisons of size."""
    seen = set() if seen is None else seen
    if not isinstance(t, T) or (t, inside) in seen:
        return []
    seen.add((t, inside))
    o, a = t.op, t.args
    if o == "app" and a[0].op == "ext" and a[0].args[0] in ADDRESS:
        if inside and not (a[0].args[0] == "builtins.hash" and a[1] and numeric(it.typeof(a[1][0]))):
            return [(f"{show_(t)[:80]}", inside)]
        return []
    if o == "fmt" or o == "join" or o == "app" and a[0].op == "ext" and short(a[0]) in ("str", "repr", "hex", "format"):
        inside = "text"
    elif o == "cmp":
        inside = "a comparison"
    elif o in ("contains", "eq", "=="):
        inside = False
    out = []
    for x in flat(a):
        out += addresses(x, it, seen, inside)
    return out


def numeric(ty):
    return ty is not None and ty.args[0] in ("int", "bool", "float")


def plain_objects(t, it):
    """Objects without a text of their own that are formatted: the text shows their address."""
    out = []
    for s in (t,):
        xs = [p[1] for p in s.args[0] if p[0] in ("s", "r") and isinstance(p[1], T)] if s.op == "fmt" else []
        if s.op == "app" and s.args[0].op == "ext" and short(s.args[0]) in ("str", "repr") and len(s.args[1]) == 1:
            xs = [s.args[1][0]]
        for x in xs:
            if x.op == "fn" or x.op == "bound":
                out.append((s, x, "a function"))
                continue
            ty = it.typeof(x)
            if ty is None or ty.args[0] != "inst" or ty.args[1].op != "cls":
                continue
            c = ty.args[1].args[0]
            if any(n in k.ns for k in c.mro() for n in ("__repr__", "__str__")) or [b for b in c.extbases() if b not in ("builtins.object", "typing.Generic")]:
                continue
            if any(ast_name(d) == "dataclass" for k in c.mro() for d in k.node.decorator_list):
                continue
            out.append((s, x, f"an object of class {c.name}, which has no text of its own"))
    return out


def ast_name(d):
    d = getattr(d, "func", d)
    return getattr(d, "attr", getattr(d, "id", ""))


def sort_key(ctx, e):
    """id or hash, when the key of list.sort() is made of it."""
    for k in getattr(e.node, "keywords", ()):
        if k.arg != "key":
            continue
        todo = [k.value]
        while todo:
            n = todo.pop()
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and x.id in ("id", "hash") or isinstance(x, ast.Attribute) and x.attr == "__hash__":
                    return getattr(x, "id", "hash")
            if isinstance(n, ast.Name):
                todo += [f.node.body if isinstance(f.node, ast.Lambda) else b for f in ctx.prog.fns.values() if f.name == n.id and f.module is e.module
                         for b in (f.node.body if isinstance(f.node.body, list) else [f.node.body])]
    return None


def reach(v, r):
    """Everything that is part of a value, the contents of containers included."""
    todo, seen = [v], set()
    while todo:
        t = todo.pop()
        if not isinstance(t, T) or t in seen:
            continue
        seen.add(t)
        yield t
        if t.op == "obj" and t.args[0].kind in ("list", "dict", "set"):
            for x in t.args[0].init:
                todo += list(flat(x if isinstance(x, tuple) else (x,)))
            for e in r.effects:
                if e.kind == "mut" and e.base is t:
                    todo += list(flat(e.args))
        todo += list(flat(t.args))


def values_of(r):
    """(value, place, what) of everything a function gives to others."""
    for o in r.returns:
        yield o.value, o.where(), "result", o.loops, o.gate
    for e in r.effects:
        if e.kind in ("setattr", "setglobal"):
            for a in e.args:
                yield a, e.where(), f"attribute {e.name}" if e.kind == "setattr" else f"global {e.name}", e.loops, e.gate


def determined(ctx, rule="order"):
    n = k = 0
    reported = set()

    def say(verdict, construct, where, text):
        if (rule, construct, where, text) in reported:
            return
        reported.add((rule, construct, where, text))
        getattr(ctx, verdict)(rule, construct, where, text)
    for r in ctx.roots():
        O = Orders(ctx, r)
        fn = r.fn
        bad = 0
        hashing = fn.name in ("__hash__", "__eq__")
        for v, where, what, loops, gate in values_of(r):
            n += 1
            for use, why in O.uses(v):
                bad += 1
                sure = known_order(why, O)
                say("bad" if sure else "und", fn.short, where, f"{what}: {use} {named(why)}")
            free = [L for L in loops if L in O.loops]
            if free and what == "result" and contains(v, lambda t: t.op in ("elem", "key", "val") and t.args[1] in free):
                bad += 1
                say("bad" if known_order(O.loops[free[0]], O) else "und", fn.short, where, f"returns the first element that is met {named(O.loops[free[0]])}")
            if hashing:
                continue
            for s in list(reach(v, r)):
                if s.op in ("fmt", "join", "cmp"):
                    for text, how in addresses(s, r.it):
                        bad += 1
                        say("bad", fn.short, where, f"{what}: {text} in {how}")
                for _, x, text in plain_objects(s, r.it):
                    bad += 1
                    say("bad", fn.short, where, f"{what}: the text of {show_(x)[:80]}, {text}")
                if s.op == "app" and s.args[0].op in ("ext", "attr") and is_chance(s):
                    bad += 1
                    say("bad", fn.short, where, f"{what}: {show_(s)[:100]}")
                if is_ambient(s) and what == "result":
                    bad += 1
                    say("bad", fn.short, where, f"{what}: depends on {s.args[0]} of the process")
        for o in r.returns:
            for l, _ in o.gate:
                if isinstance(l, T) and not hashing:
                    for text, how in addresses(l, r.it):
                        bad += 1
                        say("bad", fn.short, o.where(), f"what is returned depends on {text} in {how}")
                    for s in subterms(l):
                        if s.op == "app" and is_chance(s):
                            bad += 1
                            say("bad", fn.short, o.where(), f"what is returned depends on {show_(s)[:100]}")
                        if is_ambient(s):
                            bad += 1
                            say("bad", fn.short, o.where(), f"what is returned depends on {s.args[0]} of the process")
        for e in r.effects:
            if e.kind == "mut" and e.name == "sort" and (w := sort_key(ctx, e)) is not None:
                bad += 1
                say("bad", fn.short, e.where(), f"sorted by {w}")
            # what an object is made of
            if e.kind == "call" and e.args and e.base.op in ("fn", "cls"):
                for a in e.args:
                    for use, why in (O.uses(a) if isinstance(a, T) else ()):
                        if use.startswith("a set"):
                            continue
                        bad += 1
                        say("bad" if known_order(why, O) else "und", fn.short, e.where(), f"argument of {show_(e.base)[:60]}: {use} {named(why)}")
        k += len(O.loops) + len(O.tainted)
        if not bad:
            ctx.ok(rule, fn.short, f"{fn.module.rel}:{fn.node.lineno}", f"{len(r.returns)} results, {len(r.effects)} effects, {len(O.all_loops)} loops, {len(O.loops)} over sets")
    ctx.ok(rule, "package", "", f"{n} results and attributes; {k} loops over sets and containers filled in them")


def is_chance(s):
    f = s.args[0]
    name = f.args[0] if f.op == "ext" else None
    if name is None:
        return False
    return any(name.startswith(p) for p in CHANCE)


def is_ambient(s):
    """Something the environment of the process decides: variables, arguments, platform, files."""
    return s.op == "ext" and any(s.args[0].startswith(p) if p.endswith(".") else s.args[0] == p or s.args[0].startswith(p + ".") for p in AMBIENT)


def named(why):
    return why if isinstance(why, str) else f"of {show_(why)[:120]}"


def known_order(why, O):
    """Whether the elements of a set are known to be objects or texts, so that the order changes between runs."""
    if isinstance(why, str):
        return True
    return elements(why, O) is True


def elements(t, O, depth=0):
    """True: objects or texts; None: not known."""
    if depth > 8:
        return None
    ty = O.it.typeof(t)
    if ty is not None and ty.args[0] in SETS + ("listof", "tuplevar", "dictof", "seqof") and len(ty.args) > 1 and ty.args[1] is not None:
        return hashed(ty.args[1])
    if t.op in ("bin",):
        return any(elements(x, O, depth + 1) for x in t.args[1:] if isinstance(x, T)) or None
    if t.op == "setop":
        return elements(t.args[1], O, depth + 1)
    if t.op == "dictview":
        d = t.args[1]
        if t.args[0] != "keys" and d.op == "app" and d.args[0].op == "attr" and d.args[0].args[1] in ("todok", "as_coefficients_dict", "as_powers_dict"):
            return True
        return elements(d, O, depth + 1)
    if t.op == "app" and t.args[0].op in ("ext", "attr") and t.args[1]:
        return elements(t.args[1][0], O, depth + 1)
    if t.op == "attr" and t.args[1] in SET_ATTRS:
        return True
    if t.op == "attr" and t.args[1] in ("children", "args"):
        return True
    if t.op == "slice":
        return elements(t.args[0], O, depth + 1)
    if t.op == "tup":
        return any(elements(x.args[0], O, depth + 1) if x.op == "star" else hashed(O.it.typeof(x)) for x in t.args[0]) or None
    if t.op == "phi":
        return elements(t.args[1], O, depth + 1) or elements(t.args[2], O, depth + 1)
    if t.op == "obj":
        for x in t.args[0].init:
            if isinstance(x, T) and (elements(x.args[0], O, depth + 1) if x.op == "star" else hashed(O.it.typeof(x))):
                return True
        for e in O.r.effects:
            if e.kind == "mut" and e.base is t and e.args:
                if e.name in ("add", "append", "__setitem__") and (hashed(O.it.typeof(e.args[0])) or from_collection(e.args[0], O, depth + 1)):
                    return True
                if e.name in ("update", "extend") and elements(e.args[0], O, depth + 1):
                    return True
    return None


def from_collection(x, O, depth):
    return x.op in ("elem", "key") and elements(x.args[0], O, depth) or x.op == "idx" and elements(x.args[0], O, depth)


def hashed(ty):
    if ty is None:
        return None
    if ty.args[0] in ("inst", "str", "bytes"):
        return True
    if ty.args[0] == "tupleof":
        return any(hashed(x) for x in ty.args[1]) or None
    if ty.args[0] == "tuplevar":
        return hashed(ty.args[1])
    return None


def same_output(ctx):
    determined(ctx)
    effects.history(ctx)
