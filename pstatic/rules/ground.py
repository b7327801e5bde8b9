"""Constant propagation through extracted values: what an expression of the value-flow graph folds to when its leaves are given constants.

Used only to refute: where no normal form decides whether a computed value is the one that is wanted, constants for which
the two fold to different results show that it is not.  That they agree on constants shows nothing and leaves the case undecided.
"""
from __future__ import annotations

import math

from .lib import *  # noqa


class Unknown(Exception):
    pass


class Fails(Exception):
    """The expression raises an error."""


BUILTIN = {"builtins." + n: f for n, f in dict(len=len, sorted=sorted, abs=abs, min=min, max=max, sum=sum, int=int, str=str, float=float, list=list, tuple=tuple,
           set=set, frozenset=frozenset, reversed=lambda x: list(reversed(x)), range=range, bool=bool, repr=repr, divmod=divmod, pow=pow, round=round, hex=hex, oct=oct, bin=bin,
           chr=chr, ord=ord, zip=lambda *a: list(zip(*a)), enumerate=lambda *a: list(enumerate(*a)), iter=list, any=any, all=all, dict=dict, ascii=ascii).items()}
BUILTIN["builtins.dict.fromkeys"] = dict.fromkeys
BUILTIN["math.prod"] = math.prod
BUILTIN["math.fsum"] = math.fsum
STR = {"lower", "upper", "title", "capitalize", "swapcase", "casefold", "startswith", "endswith", "strip", "lstrip", "rstrip", "replace", "isdigit", "isalpha",
       "isidentifier", "isnumeric", "isascii", "isalnum", "isupper", "islower", "removeprefix", "removesuffix", "split", "rsplit", "partition", "rpartition",
       "count", "find", "index", "join", "zfill", "rjust", "ljust", "center", "encode", "decode", "isspace", "isdecimal", "splitlines", "expandtabs"}
INT = {"bit_length", "is_integer", "conjugate", "__index__", "__int__"}
OTHER = {"index", "count", "keys", "values", "items", "get"}
BIN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "//": lambda a, b: a // b, "%": lambda a, b: a % b,
       "**": lambda a, b: a ** b, "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b, "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b}
OPERATORS = {"operator." + k: BIN[v] for k, v in dict(add="+", sub="-", mul="*", truediv="/", floordiv="//", mod="%", pow="**", and_="&", or_="|", xor="^").items()}
CMP = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}
TYPES = {"builtins." + t.__name__: t for t in (int, str, float, list, tuple, dict, set, bool, complex, bytes, frozenset, object)}
LIMIT = 4096


def node(t):
    return isinstance(t, T)


class Ground:
    """fold(t): the value of t.  Trees, atoms and objects of SymPy are terms, everything else is a value of Python."""

    def __init__(self, env, tree=None):
        self.env = dict(env)
        self.memo = {}
        self.size = 0

    def __call__(self, t):
        if t in self.env:
            return self.env[t]
        if t in self.memo:
            r = self.memo[t]
            if isinstance(r, Exception):
                raise r
            return r
        try:
            r = self.go(t)
        except (Unknown, Fails) as e:
            self.memo[t] = e
            raise
        except (ArithmeticError, TypeError, ValueError, LookupError, AttributeError) as e:
            self.memo[t] = f = Fails(type(e).__name__)
            raise f from None
        if isinstance(r, (str, list, tuple, bytes)) and len(r) > LIMIT or isinstance(r, int) and abs(r).bit_length() > LIMIT:
            raise Unknown(t)
        self.memo[t] = r
        return r

    def items(self, ts):
        out = []
        for x in ts:
            if x.op == "star":
                out += list(self.seq(self(x.args[0])))
            elif x.op == "opt":
                if self(x.args[0]):
                    out.append(self(x.args[1]))
            elif x.op == "each":
                raise Unknown(x)
            else:
                out.append(self(x))
        return out

    def seq(self, v):
        if node(v):
            raise Unknown(v)
        return v

    def term(self, v):
        """A value as a term."""
        if node(v):
            return v
        if isinstance(v, (list, tuple)):
            return mk("tup", tuple(self.term(x) for x in v))
        if v is None or isinstance(v, (int, float, str, bytes)):
            return const(v)
        raise Unknown(v)

    def truth(self, v):
        if node(v):
            if v.op in ("tree", "treeatom", "atom", "fn", "cls", "ext"):
                return True
            raise Unknown(v)
        return bool(v)

    def same(self, a, b):
        if node(a) or node(b):
            if node(a) and node(b) and {a.op, b.op} & {"sympy"}:
                raise Unknown(a)
            return a is b
        return a == b

    def plain(self, *vs):
        for v in vs:
            if node(v):
                raise Unknown(v)
            if isinstance(v, (list, tuple, set, frozenset)):
                for x in v:
                    if isinstance(x, (list, tuple)):
                        self.plain(x)

    def go(self, t):
        o, a = t.op, t.args
        if o == "const":
            return a[0]
        if o in ("cls", "fn"):
            return t
        if o == "ext":
            if t is NOTIMPL or a[0].startswith("builtins.") or "." in a[0]:
                return t
            raise Unknown(t)
        if o in ("missing", "noreturn"):
            raise Fails(o)
        if o == "treeatom":
            return mk("treeatom", self.term(self(a[0])))
        if o == "atom":
            return mk("atom", a[0], self.term(self(a[1])))
        if o == "symw":
            return mk("symw", a[0], self.term(self(a[1])))
        if o == "tree":
            return mk("tree", self.term(self(a[0])))
        if o == "obj" and a[0].kind == "inst" and a[0].era == "module":
            return t
        if o == "tup":
            return tuple(self.items(a[0]))
        if o == "setof":
            return set(self.hashable(self.items(a[0])))
        if o == "seqof":
            return self.seq(self(a[0]))
        if o == "phi":
            return self(a[1]) if self.truth(self(a[0])) else self(a[2])
        if o == "not":
            return not self.truth(self(a[0]))
        if o == "and":
            return self.junction(a[0], False)
        if o == "or":
            return self.junction(a[0], True)
        if o == "truth":
            return self.truth(self(a[0]))
        if o == "lin":
            r = a[1]
            for x, c in a[0]:
                v = self(x)
                self.plain(v)
                r = r + v * c
            return r
        if o == "neg":
            v = self(a[0])
            self.plain(v)
            return -v
        if o == "un":
            v = self(a[1])
            self.plain(v)
            return {"-": lambda: -v, "+": lambda: +v, "~": lambda: ~v}[a[0]]()
        if o == "bin":
            return self.binary(a[0], self(a[1]), self(a[2]))
        if o == "cmp":
            x, y = self(a[1]), self(a[2])
            if a[0] in ("==", "eq"):
                return self.same(x, y)
            if a[0] == "is":
                if node(x) or node(y) or x is None or y is None or isinstance(x, bool) or isinstance(y, bool):
                    return x is y
                raise Unknown(t)
            self.plain(x, y)
            return CMP[a[0]](x, y)
        if o == "contains":
            b, x = self(a[0]), self(a[1])
            if isinstance(b, str):
                self.plain(x)
                return x in b
            self.plain(b)
            return any(self.same(x, y) for y in b)
        if o == "isinst":
            x = self(a[0])
            ks = a[1].args[0] if a[1].op == "tup" else (a[1],)
            if node(x):
                if all(k.op == "ext" and k.args[0] in TYPES and k.args[0] != "builtins.object" for k in ks):
                    return False
                raise Unknown(t)
            if all(k.op == "cls" or k.op == "ext" and k.args[0] in TYPES for k in ks):
                return any(k.op == "ext" and isinstance(x, TYPES[k.args[0]]) for k in ks)
            raise Unknown(t)
        if o in ("all", "any"):
            vals = []
            for v in self.seq(self(a[0])):
                g = Ground({**self.env, mk("belem", a[0]): v})
                vals.append(g.truth(g(a[1])))
            return all(vals) if o == "all" else any(vals)
        if o == "fmt":
            return "".join(p[1] if p[0] == "lit" else self.text(p, t) for p in a[0])
        if o == "join":
            s = self(a[0])
            self.plain(s)
            return s.join(list(self.seq(self(a[1]))))
        if o == "slice":
            b, k = self(a[0]), [self(x) for x in a[1:4]]
            self.plain(b, *k)
            return b[slice(*k)]
        if o == "idx":
            b, k = self(a[0]), self(a[1])
            self.plain(b, k)
            if isinstance(b, dict):
                return b[k]
            return b[k]
        if o == "rep":
            b, n = self(a[0]), self(a[1])
            self.plain(b, n)
            return b * n
        if o == "reduce":
            xs = ([self(a[2])] if a[2] is not NONE else []) + list(self.seq(self(a[1])))
            if not xs:
                raise Fails("reduce of nothing")
            r = xs[0]
            for x in xs[1:]:
                r = self.call(a[0], [r, x], {}, t)
            return r
        if o == "attr":
            return self.attribute(self(a[0]), a[1], t)
        if o == "app":
            if a[0].op == "ext" and a[0].args[0] in ("builtins.any", "builtins.all", "builtins.next"):
                pass
            return self.call(a[0], self.items(a[1]), {k: self(v) for k, v in a[2]}, t)
        if o in ("setop", "seqop"):
            b = self(a[1])
            args = [self(x) for x in a[2]]
            self.plain(b, *args)
            if o == "setop" and isinstance(b, (set, frozenset)):
                return getattr(b, a[0])(*args)
            raise Unknown(t)
        raise Unknown(t)

    def junction(self, xs, stop):
        """Facts about the same value may guard each other in any order."""
        late = None
        for x in xs:
            try:
                if self.truth(self(x)) is stop:
                    return stop
            except (Unknown, Fails) as e:
                late = late or e
        if late:
            raise late
        return not stop

    def hashable(self, xs):
        return [tuple(x) if isinstance(x, list) else x for x in xs]

    def text(self, p, t):
        v = self(p[1])
        spec = ""
        if len(p) == 3:
            if not isinstance(p[2], str):
                raise Unknown(t)
            spec = p[2]
        elif len(p) > 3:
            raise Unknown(t)
        self.plain(v)
        if isinstance(v, (list, tuple, set, dict)):
            raise Unknown(t)
        if p[0] in ("s", ""):
            return format(v, spec)
        if p[0] == "r":
            return format(repr(v), spec)
        raise Unknown(t)

    def binary(self, op, x, y):
        if op not in BIN:
            raise Unknown(op)
        if node(x) or node(y):
            return self.binary_of_terms(op, x, y)
        if op == "**" and isinstance(x, int) and isinstance(y, int) and (abs(y) > 512 or abs(x) > 1 << 80):
            raise Unknown(op)
        if op in ("*", "<<") and isinstance(y, int) and isinstance(x, int) and op == "<<" and y > 512:
            raise Unknown(op)
        return BIN[op](x, y)

    def binary_of_terms(self, op, x, y):
        if (node(x) and x.op == "sympy") or (node(y) and y.op == "sympy"):
            return mk("sympy", op, (self.term(x), self.term(y)))
        raise Unknown(op)

    def attribute(self, b, name, t):
        if node(b):
            if b.op == "symw" and name == "rep":
                return b.args[1]
            if b.op == "tree" and name == "children":
                return b.args[0].args[0]
            if b.op == "treeatom" and name == "children":
                return ()
            if b.op == "treeatom" and name == "atom":
                return b.args[0]
            if b.op == "atom" and name == "value":
                return self(b.args[1])
            if b.op == "atom" and name == "type":
                return b.args[0]
        raise Unknown(t)

    def call(self, f, args, kw, t):
        if f.op == "attr":
            b, n = self(f.args[0]), f.args[1]
            self.plain(b, *args)
            ok = STR if isinstance(b, (str, bytes)) else INT if isinstance(b, (int, float)) else OTHER if isinstance(b, (tuple, list, dict)) else ()
            if n in ok and not kw:
                r = getattr(b, n)(*args)
                return list(r) if n in ("keys", "values", "items") else r
            raise Unknown(t)
        if f.op in ("treeatom", "tree"):
            return mk("tree", mk("tup", (f, *[self.term(x) for x in args])))
        if f.op == "partial":
            return self.call(f.args[0], [self(x) for x in f.args[1]] + args, {**{k: self(v) for k, v in f.args[2]}, **kw}, t)
        if f.op == "cls" and f.args[0].name == "Tree" and not kw:
            return mk("tree", mk("tup", tuple(self.term(x) for x in args)))
        if f.op != "ext":
            raise Unknown(t)
        n = f.args[0]
        if n.startswith("sympy."):
            if kw and set(kw) != {"evaluate"}:
                raise Unknown(t)
            return mk("sympy", n.split(".")[-1], tuple(self.term(x) for x in args))
        if n in OPERATORS and len(args) == 2:
            return self.binary({v: k for k, v in BIN.items()}[OPERATORS[n]], *args)
        if n == "operator.neg":
            return -args[0]
        if n == "builtins.type":
            raise Unknown(t)
        if n in ("builtins.set", "builtins.frozenset", "builtins.dict.fromkeys"):
            return BUILTIN[n](self.hashable(args[0]), *args[1:]) if args else BUILTIN[n]()
        if n in BUILTIN:
            if n in ("builtins.str", "builtins.repr", "builtins.ascii"):
                if len(args) != 1 or kw or node(args[0]) or isinstance(args[0], (list, tuple, set, dict)):
                    raise Unknown(t)
            if n in ("builtins.sorted", "builtins.min", "builtins.max", "builtins.sum"):
                if any(node(x) for a in args if isinstance(a, (list, tuple, set)) for x in a):
                    raise Unknown(t)
            if any(node(x) for x in args):
                raise Unknown(t)
            if n == "builtins.sorted" and kw.get("key") is not None:
                k = kw["key"]
                if node(k) and k.op == "ext" and k.args[0] in BUILTIN:
                    kw = {**kw, "key": BUILTIN[k.args[0]]}
                else:
                    raise Unknown(t)
            if any(node(x) for x in kw.values()):
                raise Unknown(t)
            if n == "builtins.pow" and len(args) == 2:
                return self.binary("**", *args)
            r = BUILTIN[n](*args, **kw)
            if n == "builtins.range" and len(r) > LIMIT:
                raise Unknown(t)
            return list(r) if n == "builtins.range" else r
        if n.startswith("math.") and hasattr(math, n[5:]) and not kw:
            self.plain(*args)
            c = getattr(math, n[5:])
            return c(*args) if callable(c) else c
        raise Unknown(t)


def differ(a, b):
    """Different results; floating point numbers differ when they are not close."""
    if isinstance(a, bool) or isinstance(b, bool):
        return a != b
    if isinstance(a, complex) or isinstance(b, complex):
        return False
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) != math.isnan(b)
        return abs(a - b) > 1e-9 * max(1, abs(a), abs(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) != len(b) or any(differ(x, y) for x, y in zip(a, b))
    return a is not b if isinstance(a, T) or isinstance(b, T) else a != b


def witness(value, cases, gate=TRUE):
    """The first case (constants for the leaves, what is wanted) in which the value folds to something else: (constants, result, wanted)."""
    for env, want in cases:
        g = Ground(env)
        try:
            if gate is not TRUE and not g.truth(g(gate)):
                continue
        except (Unknown, Fails):
            continue
        try:
            got = g(value)
        except Unknown:
            continue
        except Fails as e:
            return env, f"an error ({e})", want
        except RecursionError:
            continue
        if differ(got, want):
            return env, got, want
    return None


def shown(w):
    env, got, want = w
    s = lambda v: show(v)[:80] if isinstance(v, T) else repr(v)[:80]
    return "for " + ", ".join(f"{show(k)} = {s(v)}" for k, v in env.items()) + f" it is {s(got)}, not {s(want)}"
