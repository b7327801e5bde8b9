"""C20: conversion to and from SymPy."""
from __future__ import annotations

from .lib import *  # noqa
from .lib import ADMIN, CAS, EXPR, Canon, case, closed, contains, exc_names, ns, raised_class, everything, kept_state, container_name, rebuild_, rep, scenario, show_, where_of
from . import backends, ground, matrix
from .backends import Names
from .graph import len_, lin_of

CLIENT = '''
from protosym.simplecas import Expr, Matrix

def frm(e):
    return Expr.from_sympy(e)

def frm_function(e):
    from protosym.simplecas.sympy_conversions import from_sympy
    return from_sympy(e)

def again(e, f):
    Expr.from_sympy(e)
    return Expr.from_sympy(f)

def to_matrix(M):
    return M.to_sympy()

def from_matrix(m):
    C = Matrix.from_sympy(m)
    return C.nrows, C.ncols, C.shape, C.elements, C.entrymap, C.elements_graph
'''
CONV = CAS + "sympy_conversions."

# ------------------------------------------------------------------ SymPy objects by kind

EXPR_ = ("Expr", "Basic", "object")
FUN = ("Function", "Application") + EXPR_
ATOM = ("AtomicExpr", "Atom") + EXPR_
NUM = ("Number",) + ATOM


class Kind:
    def __init__(self, name, cls, supers, arities=(0,), flags=(), want=None, cls_name=None, value=None):
        self.name, self.cls, self.supers, self.arities, self.flags, self.want, self.value = name, cls, {cls, *supers}, arities, set(flags), want, value


KINDS = [
    Kind("Add", "Add", ("AssocOp",) + EXPR_, (2, 3, 4), ("is_Add",), "Add"),
    Kind("Mul", "Mul", ("AssocOp",) + EXPR_, (2, 3, 4), ("is_Mul",), "Mul"),
    Kind("Pow", "Pow", EXPR_, (2,), ("is_Pow",), "Pow"),
    Kind("sin", "sin", ("TrigonometricFunction",) + FUN, (1,), ("is_Function",), "sin"),
    Kind("cos", "cos", ("TrigonometricFunction",) + FUN, (1,), ("is_Function",), "cos"),
    Kind("Tuple", "Tuple", ("Basic", "object"), (0, 1, 2, 3), (), "List"),
    Kind("named function", "<f>", ("AppliedUndef",) + FUN, (0, 1, 2, 3), ("is_Function",), "call"),
    Kind("Integer", "Integer", ("Rational",) + NUM, (0,), ("is_Integer", "is_Rational", "is_Number", "is_Atom", "is_number", "is_integer", "is_rational"), "Integer"),
    Kind("Integer 1", "One", ("Integer", "IntegerConstant", "Rational", "RationalConstant") + NUM, (0,),
         ("is_Integer", "is_Rational", "is_Number", "is_Atom", "is_number", "is_integer", "is_rational"), "Integer", value=1),
    Kind("Integer 0", "Zero", ("Integer", "IntegerConstant", "Rational", "RationalConstant") + NUM, (0,),
         ("is_Integer", "is_Rational", "is_Number", "is_Atom", "is_number", "is_integer", "is_rational", "is_zero"), "Integer", value=0),
    Kind("Symbol", "Symbol", ("Boolean",) + ATOM, (0,), ("is_Symbol", "is_symbol", "is_Atom"), "Symbol"),
    # without a counterpart
    Kind("exp", "exp", ("ExpBase",) + FUN, (1,), ("is_Function",)),
    Kind("tan", "tan", ("TrigonometricFunction",) + FUN, (1,), ("is_Function",)),
    Kind("asin", "asin", ("InverseTrigonometricFunction",) + FUN, (1,), ("is_Function",)),
    Kind("sinh", "sinh", ("HyperbolicFunction",) + FUN, (1,), ("is_Function",)),
    Kind("Max", "Max", ("MinMaxBase", "LatticeOp", "AssocOp", "Application") + EXPR_, (2, 3), ()),
    Kind("Rational", "Rational", NUM, (0,), ("is_Rational", "is_Number", "is_Atom", "is_number", "is_rational")),
    Kind("Rational 1/2", "Half", ("Rational", "RationalConstant") + NUM, (0,), ("is_Rational", "is_Number", "is_Atom", "is_number", "is_rational")),
    Kind("Float", "Float", NUM, (0,), ("is_Float", "is_Number", "is_Atom", "is_number")),
    Kind("oo", "Infinity", NUM, (0,), ("is_Number", "is_Atom", "is_number")),
    Kind("pi", "Pi", ("NumberSymbol",) + ATOM, (0,), ("is_NumberSymbol", "is_Atom", "is_number")),
    Kind("I", "ImaginaryUnit", ATOM, (0,), ("is_ImaginaryUnit", "is_Atom", "is_number")),
    Kind("Derivative", "Derivative", EXPR_, (2,), ("is_Derivative",)),
    Kind("Equality", "Equality", ("Relational", "Boolean", "EvalfMixin", "Basic", "object"), (2,), ("is_Relational", "is_Equality")),
    Kind("true", "BooleanTrue", ("BooleanAtom", "Boolean", "Basic", "object"), (0,), ("is_Boolean",)),
    Kind("FiniteSet", "FiniteSet", ("Set", "Basic", "object"), (1, 2), ("is_FiniteSet",)),
    Kind("Not", "Not", ("BooleanFunction", "Application", "Boolean", "Basic", "object"), (1,), ("is_Boolean", "is_Not")),
]
FLAGS = {f for k in KINDS for f in k.flags if f[3:4].isupper()} | {"is_Piecewise", "is_Matrix", "is_Poly", "is_Vector", "is_Wild", "is_Dummy", "is_Order", "is_MatAdd", "is_MatMul"} | {"is_symbol"}
ALIAS = {"sympy.sin": "sin", "Eq": "Equality"}


def class_name(c):
    """The SymPy class a term stands for."""
    if c.op == "ext" and (c.args[0].startswith("sympy.") or c.args[0] in ("builtins.object", "builtins.int", "builtins.str", "builtins.tuple")):
        n = c.args[0].rpartition(".")[2]
        return ALIAS.get(n, n)
    return None


class KindFacts:
    """The truth of conditions about an object x of a kind with k operands."""

    def __init__(self, x, kind, k, it, more=()):
        self.x, self.kind, self.k, self.it = x, kind, k, it
        self.more = set(more)
        self.memo = {}

    def __contains__(self, c):
        if c in self.more:
            return True
        if c not in self.memo:
            self.memo[c] = self.holds(c) is True
        return self.memo[c]

    def __iter__(self):
        return iter(self.more)

    def is_func(self, t):
        """t is the class of x."""
        return t.op == "attr" and t.args[0] is self.x and t.args[1] in ("func", "__class__") or t.op == "app" and t.args[0] is ext("builtins.type") and t.args[1] == (self.x,) \
            or t.op == "typeof" and t.args[0] is self.x

    def number(self, t):
        if t.op == "const" and type(t.args[0]) is int:
            return t.args[0]
        if t.op == "app" and t.args[0] is ext("builtins.len") and len(t.args[1]) == 1:
            s = t.args[1][0]
            if s.op == "attr" and s.args[0] is self.x and s.args[1] == "args":
                return self.k
        if t.op == "lin":
            lf, c = lin_of(t)
            vs = [(self.number(z), n) for z, n in lf.items()]
            return None if any(v is None for v, _ in vs) else sum(v * n for v, n in vs) + c
        return None

    def holds(self, c):
        K, x = self.kind, self.x
        if c in self.more:
            return True
        if c.op == "not":
            v = self.holds(c.args[0])
            return None if v is None else not v
        if c.op in ("and", "or"):
            vs = [self.holds(z) for z in c.args[0]]
            if c.op == "and":
                return False if False in vs else True if all(v is True for v in vs) else None
            return True if True in vs else False if all(v is False for v in vs) else None
        if c.op == "truth":
            t = c.args[0]
            if plain_tup(t):
                return len(t.args[0]) > 0
            if t.op == "attr" and t.args[0] is x:
                n = t.args[1]
                if n == "args":
                    return self.k > 0
                if n in K.flags:
                    return True
                if n in FLAGS:
                    return False
                return None
            n = self.number(t)
            if n is not None:
                return n != 0
            if t is x:
                return {0: False, 1: True}.get(K.value)
            if t.op == "slice" and t.args[0].op == "attr" and t.args[0].args == (x, "args") and all(z.op == "const" for z in t.args[1:]):
                return bool(range(self.k)[slice(*[z.args[0] for z in t.args[1:]])])
            return None
        if c.op == "isinst":
            n = class_name(c.args[1])
            if c.args[0] is x and n is not None:
                return n in K.supers
            if n == "UndefinedFunction" and self.is_func(c.args[0]):
                return "AppliedUndef" in K.supers
            if c.args[0] is x and c.args[1].op in ("ext", "cls"):
                return False if c.args[1].op == "cls" else None
            if c.args[0].op == "symw" and c.args[1].op == "cls":
                return c.args[1] is c.args[0].args[0] or None
            return None
        if c.op == "app" and c.args[0] is ext("builtins.issubclass") and len(c.args[1]) == 2 and self.is_func(c.args[1][0]):
            n = class_name(c.args[1][1])
            return None if n is None else n in K.supers
        if c.op == "app" and c.args[0] is ext("builtins.hasattr") and len(c.args[1]) == 2:
            return None
        if c.op == "cmp":
            op, a, b = c.args
            i, j = self.number(a), self.number(b)
            if i is not None and j is not None and op in ("==", "<", "<=", ">", ">=", "!=", "is"):
                return {"==": i == j, "is": i == j, "!=": i != j, "<": i < j, "<=": i <= j, ">": i > j, ">=": i >= j}[op]
            if op in ("==", "is"):
                for p, q in ((a, b), (b, a)):
                    if self.is_func(p) and class_name(q) is not None:
                        return class_name(q) == K.cls
                    if p.op == "attr" and p.args[0] is x and p.args[1] in FLAGS | K.flags and q.op == "const":
                        v = p.args[1] in K.flags
                        return v == q.args[0] if q.args[0] in (True, False) else None
                    if p.op == "attr" and p.args[0] is x and p.args[1] == "args" and q.op == "tup" and not any(z.op in ("star", "opt", "each") for z in q.args[0]) \
                            and len(q.args[0]) != self.k:
                        return False
                    if p.op == "attr" and p.args[0] is x and p.args[1] == "args" and q.op == "tup" and not q.args[0]:
                        return self.k == 0
                    n = self.class_text(p)
                    if n is not None and q.op == "const" and isinstance(q.args[0], str):
                        return n == q.args[0] if n != "<f>" else None
                    if (p.op == "symw" or p.op == "tree" or p.op == "treeatom") and q.op == "const":
                        return False
                    if q.op == "const" and q.args[0] is None and p is x:
                        return False
            return None
        if c.op == "contains":
            s, t = c.args
            keys = None
            if s.op == "tup" and not any(z.op in ("star", "opt", "each") for z in s.args[0]):
                keys = s.args[0]
            elif s.op == "obj" and s.args[0].kind in ("dict", "set", "list") and not any(e.base is s for e in self.it.log[self.it.base:]):
                keys = [z[0] if s.args[0].kind == "dict" else z for z in s.args[0].init]
                if any(z is None or z.op == "star" for z in keys):
                    keys = None
            if keys is None:
                return None
            if self.is_func(t):
                ns_ = [class_name(z) for z in keys]
                return None if None in ns_ else K.cls in ns_
            n = self.class_text(t)
            if n is not None and n != "<f>" and all(z.op == "const" for z in keys):
                return n in [z.args[0] for z in keys]
            return None
        return None

    def class_text(self, t):
        """The name of the class of x as a text."""
        if t.op == "attr" and t.args[1] == "__name__" and self.is_func(t.args[0]):
            return self.kind.cls
        return None


# ------------------------------------------------------------------ from SymPy

class From(Canon):
    """Normal form of what is made of an object of one kind, the operands being converted by the same function."""

    def __init__(self, r, fn, name, x, memo, kind, k):
        super().__init__(r.it, ())
        self.r, self.fn, self.name, self.x, self.memo_, self.kind, self.k = r, fn, name, x, memo, kind, k
        self.facts = KindFacts(x, kind, k, r.it, {mk_not(r.it.equal(memo, NONE))} if memo is not None else ())

    def go_rest(self, t, o, a, d, env):
        if o == "app" and a[0].op == "fn" and a[0].args[0].qual == self.fn:
            y = bound(a[0].args[0], a[1], a[2]).get(self.name)
            if y is not None:
                return mk("convrep", self(y, d, env))
        return self.fold(super().go_rest(t, o, a, d, env))

    def fold(self, u):
        o, a = u.op, u.args
        if o == "attr" and a[0] is self.x and a[1] == "args":
            return operands(self.k)
        if o == "attr" and a[0] is self.x and self.kind.cls == "Pow" and a[1] in ("base", "exp"):
            return operands(2).args[0][0 if a[1] == "base" else 1]
        if o == "idx" and a[0].op == "obj" and a[0].args[0].kind == "dict":
            for kk, v in a[0].args[0].init:
                if kk is not None and (self.facts.is_func(a[1]) and class_name(kk) == self.kind.cls or self.facts.class_text(a[1]) not in (None, "<f>") and is_const(kk, self.kind.cls)):
                    return self(v)
        if o == "app" and a[0] is ext("builtins.getattr") and len(a[1]) >= 2 and a[1][0] is self.x and a[1][1].op == "const":
            return self(mk("attr", self.x, a[1][1].args[0]))
        if o == "app" and a[0].op == "attr" and a[0].args[0] is self.memo_ and self.memo_ is not None and a[0].args[1] == "setdefault" and len(a[1]) == 2:
            return a[1][1]
        if o == "app" and a[0].op == "symw" and not a[2]:
            xs = []
            for z in a[1]:
                xs += z.args[0].args[0] if z.op == "star" and plain_tup(z.args[0]) else [z]
            if all(z.op == "symw" for z in xs):
                return mk("symw", a[0].args[0], mk("tree", mk("tup", (a[0].args[1], *[z.args[1] for z in xs]))))
        return u


def operands(k):
    return mk("tup", tuple(mk("sym", f"a{i}", None) for i in range(k)))


def bound(fn, args, kws):
    """Arguments by name."""
    a = fn.node.args
    ps = [p.arg for p in a.posonlyargs + a.args]
    out = {}
    for p, v in zip(ps, args):
        if v.op == "star":
            return {}
        out[p] = v
    out.update({k: v for k, v in kws})
    for p in ps:
        if p not in out and p in fn.defaults:
            out[p] = fn.defaults[p]
    return out


def params_of(fn):
    a = fn.node.args
    return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]


def wrapped(ctx):
    c = ctx.prog.cls_term(EXPR)
    return lambda t: mk("symw", c, t)


def recursion(ctx, r):
    """The function that a run calls again while it is being executed."""
    fs = {e.base.args[0] for e in r.effects if e.kind == "call" and e.name == "recursive" and e.base.op == "fn"}
    return fs


def converted(ctx, rule="from"):
    """from_sympy: the counterpart of every kind of object, made from its converted operands."""
    e = mk("sym", "e", None)
    r0 = scenario(ctx, CLIENT, "frm", [e])
    at = where_of(r0) or "?"
    fs = recursion(ctx, r0)
    if len(fs) != 1:
        ctx.und(rule, "from_sympy", at, f"{len(fs)} recursive functions: {', '.join(sorted(f.qual for f in fs))}"[:200])
        return
    F, = fs
    W = wrapped(ctx)
    names = params_of(F)
    # how the conversion starts
    start = None
    for name in ("frm", "frm_function"):
        r1 = scenario(ctx, CLIENT, name, [e], opaque=(F.qual,), results={F.qual: W})
        v = None
        if len(r1.returns) == 1:
            v = r1.returns[0].value
            v = v.args[1] if v.op == "symw" else v
        if v is None or not (v.op == "app" and v.args[0].op == "fn" and v.args[0].args[0].qual == F.qual):
            got = show_(v)[:200] if v is not None else f"{len(r1.returns)} results"
            ctx.und(rule, name, where_of(r1), got)
            return
        b = bound(F, v.args[1], v.args[2])
        if start is not None and {n: unobj(x) for n, x in b.items()} != {n: unobj(x) for n, x in start.items()}:
            ctx.und(rule, name, where_of(r1), "two ways to start the conversion")
            return
        start = b
    xs = [n for n in names if start.get(n) is e]
    if len(xs) != 1:
        ctx.und(rule, "from_sympy", at, f"started with {show_(v)[:200]}")
        return
    xn, = xs
    x = mk("sym", "x", None)
    args = {n: (x if n == xn else start[n]) for n in start}
    r2 = call_of(ctx, F, args, W, x, 2)
    rec = [bound(F, t.args[1], t.args[2]) for t in set(everything(r2)) if t.op == "app" and t.args[0].op == "fn" and t.args[0].args[0] is F]
    memos = {}
    for n in names:
        if n == xn:
            continue
        vals = {b[n] for b in rec if n in b}
        if n in start and isdict(start[n]) or any(isdict(v) for v in vals):
            memos[n] = mk("sym", "memo", T_type("dict"))
        elif any(v is not start.get(n) for v in vals):
            ctx.und(rule, "from_sympy", at, f"passes {show_(next(iter(vals)))[:100]} for {n}")
            return
    outer = {v for f in frames_of(ctx, F) for v in f.values() if isdict(v) and any(e.base is v for e in r2.effects if e.kind == "mut")}
    if len(memos) + len(outer) > 1:
        ctx.und(rule, "from_sympy", at, "several tables")
        return
    for s in [start.get(n) for n in memos] + list(outer):
        if s is not None and isdict(s):
            if s.args[0].era == "module" and s not in outer:
                ctx.bad(rule, "the table of one call", at, f"{show_(s)} is kept between calls")
            elif s.args[0].init:
                ctx.und(rule, "the table of one call", at, f"starts with {show_(s)}")
            else:
                ctx.ok(rule, "the table of one call", at, "a new one")
    memo = next(iter(memos.values()), None) or next(iter(outer), None)
    args.update(memos)
    runs = {}
    for k in sorted({k for K in KINDS for k in (sizes(ctx, K.arities) if len(K.arities) > 1 else K.arities)}):
        runs[k] = call_of(ctx, F, args, W, x, k, outer)
    kinds(ctx, rule, runs, F, xn, x, memo)
    if memos and not isdict(start.get(next(iter(memos)), NONE)):
        first = dict(args)
        first.update({n: start[n] for n in memos if n in start})
        kinds(ctx, rule, {k: call_of(ctx, F, first, W, x, k) for k in runs}, F, xn, x, None, "first call: ")
    for k in (0, 2):
        kept(ctx, rule, runs[k], memo)


def frames_of(ctx, F):
    """Variables of the functions in which a function is defined."""
    f, out = F.frame, []
    while f is not None and len(out) < 9:
        out.append(ctx.prog.saved_frames.get(f, {}))
        f = ctx.prog.frame_info.get(f, {}).get("parent")
    return out


def kept(ctx, rule, r, memo):
    """Nothing that one call stores is looked up by a later one."""
    state = {t for t in kept_state(r) if t is not memo}
    read = {t for t in everything(r) if t in state}
    used = set()
    for t in everything(r):
        if t.op in ("idx", "contains", "attr", "key", "val", "elem") and t.args[0] in read:
            used.add(t.args[0])
    for t in sorted(used, key=lambda t: t.uid):
        ev = next(z for z in r.effects if z.base is t)
        ctx.bad(rule, "kept between calls", ev.where(), f"{container_name(ctx, t)} is written and looked up")
    for t in state - used:
        ctx.und(rule, "kept between calls", "", f"{t if isinstance(t, tuple) else container_name(ctx, t)}"[:200])
    if not state:
        ctx.ok(rule, "kept between calls", where_of(r), "nothing")


def unobj(t):
    return "dict" if isdict(t) and t.args[0].era != "module" and not t.args[0].init else t


def isdict(t):
    return t is not None and t.op == "obj" and t.args[0].kind == "dict"


def call_of(ctx, F, args, W, x, k, volatile=()):
    """Analyse the function itself with given arguments."""
    from ..engine import Fn, analyse
    prog = ctx.prog
    saved, Fn.registry = Fn.registry, prog.fns
    try:
        a = F.node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        out, kws = [], {}
        ok = True
        for p in pos:
            if p in args and ok:
                out.append(args[p])
            elif p in args:
                kws[p] = args[p]
            else:
                ok = False
        kws.update({p.arg: args[p.arg] for p in a.kwonlyargs if p.arg in args})
        r = analyse(prog, F, args=out, kws=kws, deep=True, results={F.qual: W}, given={mk("attr", x, "args"): operands(k)}, volatile=volatile)
    finally:
        Fn.registry = saved
    ctx.note_run(r)
    return r


def kinds(ctx, rule, runs, F, xn, x, memo, pre=""):
    N = Names(ctx.prog)
    C = ctx.prog.cls_term(EXPR)
    keys = set()
    for K in KINDS:
        for k in (sizes(ctx, K.arities) if len(K.arities) > 1 else K.arities):
            what = f"{pre}{K.name}" + (f" of {k}" if k or len(K.arities) > 1 else "")
            r = runs[k]
            cn = From(r, F.qual, xn, x, memo, K, k)
            rets, raises = case(r, (), cn)
            want = wanted(N, C, K, k, x)
            verdicts = []
            for c, v, o in rets:
                if memo is not None and remembered(v, memo):
                    keys.add(remembered(v, memo))
                    continue
                verdicts.append((c, judge(v, want), v, o.where()))
            sure = [z for z in verdicts if z[0] is TRUE or memo is not None and memo_only(z[0], memo)]
            at = where_of(r) or "?"
            if K.want is None:
                wrong = [z for z in sure if z[1] != "und"]
                rc = [(c, raised_class(ctx.prog, v), o) for c, v, o in raises]
                if wrong:
                    ctx.bad(rule, what, wrong[0][3], f"becomes {show_(wrong[0][2])[:200]}")
                elif verdicts:
                    ctx.und(rule, what, verdicts[0][3], f"becomes {show_(verdicts[0][2])[:200]} if {show_(verdicts[0][0])[:100]}")
                elif not rc:
                    ctx.und(rule, what, at, "neither a result nor an error")
                else:
                    for c, cl, o in rc:
                        nm = exc_names(cl) if cl is not None else None
                        if nm is None:
                            ctx.und(rule, what, o.where(), show_(o.value)[:100])
                        elif "NotImplementedError" in nm:
                            ctx.ok(rule, what, o.where(), "NotImplementedError")
                        elif c is TRUE or memo is not None and memo_only(c, memo):
                            ctx.bad(rule, what, o.where(), f"raises {show_(o.value)[:100]}")
                        else:
                            ctx.und(rule, what, o.where(), f"raises {show_(o.value)[:100]} if {show_(c)[:100]}")
                continue
            bad = [z for z in sure if z[1] == "bad"]
            for c, j, v, w in verdicts:
                if j == "und" and not bad and (wit := refuted(N, C, K, k, x, memo, c, v, want)):
                    bad.append((c, "bad", v, w + f" ({ground.shown(wit)})"))
            certain = [z for z in raises if z[0] is TRUE or memo is not None and memo_only(z[0], memo)]
            if bad:
                ctx.bad(rule, what, bad[0][3], f"becomes {show_(bad[0][2])[:200]}")
            elif certain:
                ctx.bad(rule, what, certain[0][2].where(), f"raises {show_(certain[0][1])[:100]}")
            elif any(z[1] != "ok" for z in verdicts) or raises or not verdicts:
                z = next((z for z in verdicts if z[1] != "ok"), None)
                ctx.und(rule, what, z[3] if z else at, f"becomes {show_(z[2])[:200]} if {show_(z[0])[:100]}" if z else
                        f"raises {show_(raises[0][1])[:100]} if {show_(raises[0][0])[:200]}" if raises else "no result")
            else:
                ctx.ok(rule, what, verdicts[0][3], show_(verdicts[0][2])[:200])
            if memo is None:
                continue
            for ev in r.effects:
                if ev.kind == "mut" and ev.base is memo:
                    g = cn.cond(conj([l for l in ev.gate if l[0].op not in ADMIN + ("broke",)]))
                    if g is FALSE:
                        continue
                    if ev.name not in ("__setitem__", "setdefault") or len(ev.args) != 2 or ev.loops:
                        ctx.und(rule, what + ", table", ev.where(), f"{ev.name} of the table")
                        continue
                    key = cn(ev.args[0])
                    if key in operands(k).args[0]:
                        v = cn(ev.args[1])
                        good = mk("symw", C, mk("convrep", key))
                        (ctx.ok if v is good else ctx.bad if judge(v, [good]) == "bad" else ctx.und)(rule, what + ", table", ev.where(), f"stores {show_(v)[:200]} for an operand")
                        continue
                    keys.add(key)
                    j = {judge(leaf, want) for _, leaf in phi_leaves(cn(ev.args[1])) if not remembered(leaf, memo)}
                    {"ok": ctx.ok, "bad": ctx.bad, "und": ctx.und}["bad" if "bad" in j and len(j) == 1 else "und" if j - {"ok"} else "ok"](
                        rule, what + ", table", ev.where(), f"stores {show_(cn(ev.args[1]))[:200]}")
    if memo is not None:
        for key in sorted(keys, key=lambda t: t.uid):
            if key is x or key.op == "tup" and x in key.args[0]:
                ctx.ok(rule, "key of the table", where_of(r), show_(key))
            elif imprecise(key, x):
                ctx.bad(rule, "key of the table", where_of(r), f"different objects have the same {show_(key)[:100]}")
            else:
                ctx.und(rule, "key of the table", where_of(r), show_(key)[:100])


def refuted(N, C, K, k, x, memo, c, v, want):
    """Constants for the parts of a SymPy object for which the result is another one than wanted."""
    from .backends import rows
    leaf = lambda n: mk("treeatom", mk("atom", N.types["Symbol"], const(n)))
    free = {}
    if memo is not None:
        for z in list(subterms(c)) + list(subterms(v)):
            if z.op == "contains" and z.args[0] is memo:
                free[z] = False
            elif z.op == "cmp" and z.args[0] in ("==", "is") and any(y.op == "idx" and y.args[0] is memo for y in z.args[1:]) and any(is_const(y, None) for y in z.args[1:]):
                free[z] = True
            elif z.op == "truth" and z.args[0] is memo:
                free[z] = False
    cases = []
    if K.want in ("Integer", "Symbol"):
        vals = [K.value] if K.value is not None else (0, 1, -1, 2, 5, -7, 10, 1000, 2 ** 40, -2 ** 40) if K.want == "Integer" else \
            ("x", "_x", "__x", "x_1", "X", "xY", "e", "I", "pi", "longer_name_of_a_symbol", "alpha", "a b")
        parts = [w.args[1].args[0].args[1] for w in want]
        parts = [p for p in parts if p.op != "const"] + [mk("attr", x, "p"), mk("attr", x, "name")]
        for n in vals:
            cases.append(({**free, **{p: n for p in parts if p.op == "app" or p.args[1] != ("name" if K.want == "Integer" else "p")}}, mk("symw", C, mk("treeatom", mk("atom", N.types[K.want], const(n))))))
    elif K.want != "call":
        h = N.heads[K.want]
        t_ = lambda hd, *a: mk("tree", mk("tup", (N.heads[hd], *a)))
        xs = (leaf("x"), leaf("y"), N.integer(0), N.integer(1), N.integer(-1), N.integer(2), t_("Add", leaf("x"), leaf("y")), t_("Mul", leaf("x"), leaf("y")))
        for r in rows(k, xs):
            cases.append(({**free, **{mk("convrep", a): e for a, e in zip(operands(k).args[0], r)}}, mk("symw", C, mk("tree", mk("tup", (h, *r))))))
    return ground.witness(v, cases, c)


def imprecise(key, x):
    """Keys that different SymPy objects share."""
    if key.op == "tup":
        return all(imprecise(z, x) for z in key.args[0])
    if key.op == "const":
        return True
    if key.op == "app" and key.args[0].op == "ext" and key.args[0].args[0] in ("builtins.str", "builtins.repr", "builtins.hash", "builtins.type", "builtins.len") and len(key.args[1]) == 1:
        return key.args[1][0] is x or imprecise(key.args[1][0], x)
    if key.op == "fmt":
        return all(p[0] == "lit" or p[1] is x or imprecise(p[1], x) for p in key.args[0])
    return key.op == "attr" and key.args[0] is x and key.args[1] in ("name", "args", "func", "__class__", "p", "is_Add", "is_Mul") or \
        key.op == "typeof" and key.args[0] is x or key.op == "attr" and imprecise(key.args[0], x)


def remembered(v, memo):
    """The key under which a value was found in the table."""
    while v.op == "symw" or v.op == "attr" and v.args[1] == "rep":
        v = v.args[1] if v.op == "symw" else v.args[0]
    if v.op == "idx" and v.args[0] is memo:
        return v.args[1]
    return None


def memo_only(c, memo):
    """A condition about the table alone, true for an empty one."""
    if c.op == "not":
        z = c.args[0]
        return z.op == "contains" and z.args[0] is memo or z.op == "truth" and z.args[0] is memo
    if c.op in ("and", "or"):
        vs = [memo_only(z, memo) for z in c.args[0]]
        return all(vs) if c.op == "and" else any(vs)
    return c.op == "cmp" and c.args[0] in ("==", "is") and any(z.op == "idx" and z.args[0] is memo for z in c.args[1:]) and any(is_const(z, None) for z in c.args[1:])


def wanted(N, C, K, k, x):
    """Acceptable results for an object of a kind."""
    kids = tuple(mk("convrep", a) for a in operands(k).args[0])
    S = lambda t: mk("symw", C, t)
    at = lambda ty, v: mk("treeatom", mk("atom", N.types[ty], v))
    f = lambda n, v: mk("app", ext("builtins." + n), (v,), ())
    cl = [mk("attr", x, "func"), mk("attr", x, "__class__"), f("type", x), mk("typeof", x)]
    if K.want is None:
        return []
    if K.want == "Integer":
        out = [mk("attr", x, "p"), mk("attr", x, "numerator"), f("int", x), f("int", mk("attr", x, "p"))] + ([const(K.value)] if K.value is not None else [])
        return [S(at("Integer", v)) for v in out]
    if K.want == "Symbol":
        return [S(at("Symbol", v)) for v in (mk("attr", x, "name"), f("str", x), f("str", mk("attr", x, "name")))]
    if K.want == "call":
        out = [mk("attr", x, "name")] + [mk("attr", c, n) for c in cl for n in ("__name__", "name")] + [f("str", c) for c in cl]
        heads = [at("Function", v) for v in out + [f("str", v) for v in out]]
    else:
        heads = [N.heads[K.want]]
    return [S(mk("tree", mk("tup", (h, *kids)))) for h in heads]


# methods of SymPy objects that give their parts in another order or number than .args
OTHER_ORDER = ("as_ordered_terms", "as_ordered_factors", "as_coefficients_dict", "as_powers_dict", "atoms")


def judge(v, want):
    if v in want:
        return "ok"
    if contains(v, lambda z: z.op == "app" and z.args[0].op == "attr" and z.args[0].args[1] in OTHER_ORDER and z.args[0].args[0].op == "sym"):
        return "bad"
    own = {z for z in subterms(v) if z.op in ("convrep", "sym")} | {z for z in subterms(v) if z.op == "obj" and z.args[0].kind not in ("list", "dict", "set")}
    if v.op in ("symw", "const", "convrep") and closed(v, own | {z.args[0] for z in subterms(v) if z.op == "app" and plain_call(z)}) and not contains(
            v, lambda z: z.op in ("phi", "each", "star", "opt", "bel", "bix", "unk", "mu", "out", "reduce") or z.op == "obj" and z not in own
            or z.op == "app" and not plain_call(z)):
        return "bad"
    return "und"


def plain_call(t):
    """A call of a builtin or of a method of a text."""
    f = t.args[0]
    return f.op == "ext" and f.args[0].startswith("builtins.") or f.op == "attr" and f.args[1] in dir(str)


# ------------------------------------------------------------------ matrices

TO = (CONV + "to_sympy", EXPR + ".to_sympy", EXPR + "._sympy_")
FROM = (CONV + "from_sympy", EXPR + ".from_sympy")


def call_arg(t, quals):
    """The expression that is converted."""
    if t.op == "app" and t.args[0].op == "fn" and t.args[0].args[0].qual in quals and t.args[1] and len(t.args[1]) <= 2:
        return t.args[1][-1]
    return None


def to_matrix(ctx, rule="matrix"):
    M, = matrix.matrices(ctx, "M")
    r = scenario(ctx, CLIENT, "to_matrix", [M], opaque=TO)
    at = where_of(r) or "?"
    what = "to SymPy"
    if len(r.returns) != 1:
        ctx.und(rule, what, at, f"{len(r.returns)} results")
        return
    for o in r.raises:
        ctx.und(rule, what, o.where(), f"may raise {show_(o.value)[:100]}")
    V = matrix.View(ctx, r, mats=(M,))
    V = V.normally()
    res = r.returns[0].value
    rows, cols = mk("attr", M, "nrows"), mk("attr", M, "ncols")
    entry = mk("attr", M, "entrymap")
    if not (res.op == "app" and class_name(res.args[0]) in ("zeros", "Matrix", "SparseMatrix")):
        ctx.und(rule, what, at, show_(res)[:200])
        return
    a = [V(z) for z in res.args[1]]
    if len(a) == 1 and a[0].op == "star" and a[0].args[0].op == "tup":
        a = list(a[0].args[0].args[0])
    name = class_name(res.args[0])
    if len(a) < 2:
        square = name == "zeros" and len(a) == 1 and a[0].op != "star" and not res.args[2] and matrix.known(a[0], (M,))
        (ctx.bad if square and a[0].op != "tup" and a[0] is not mk("attr", M, "shape") else ctx.und)(rule, what, at, show_(res)[:200])
        return
    if a[:2] == [rows, cols]:
        ctx.ok(rule, what + ", shape", at, show_(res)[:200])
    elif all(matrix.known(z, (M,)) for z in a[:2]):
        ctx.bad(rule, what + ", shape", at, f"{show_(a[0])} rows and {show_(a[1])} columns")
    else:
        ctx.und(rule, what + ", shape", at, show_(res)[:200])
    base = res
    if name != "zeros":
        if len(a) == 3 and a[2].op == "obj" and a[2].args[0].kind == "dict":
            base = a[2]
        else:
            ctx.und(rule, what + ", entries", at, show_(res)[:200])
            return
    ws = [e for e in r.effects if e.kind == "mut" and e.base is base]
    if not ws:
        ctx.bad(rule, what + ", entries", at, "no entry is stored") if base is res else ctx.und(rule, what + ", entries", at, show_(base)[:200])
        return
    if len(ws) != 1 or ws[0].name != "__setitem__" or len(ws[0].args) != 2:
        ctx.und(rule, what + ", entries", at, f"{len(ws)} writes")
        return
    w, = ws
    key, val = V(w.args[0]), V(w.args[1])
    free = V.free(w.gate)
    if getattr(w.loops[-1] if w.loops else None, "breaks", None):
        ctx.und(rule, what + ", entries", w.where(), "the loop can end early")
        return
    if key.op == "key" and key.args[0] is entry:
        dom = V(strip_view(V.it.domain(w.loops[0]))) if len(w.loops) == 1 else None
        ok = dom is entry
        if not ok:
            ctx.und(rule, what + ", entries", w.where(), f"goes over {show_(dom)[:200] if dom is not None else len(w.loops)}")
            return
    elif key.op == "tup" and len(key.args[0]) == 2 and len(w.loops) == 2:
        doms = {L: V(V.it.domain(L)) for L in w.loops}
        kinds_ = []
        for z in key.args[0]:
            d = doms.get(z.args[0]) if z.op == "idxvar" else None
            over = d.args[1][0] if d is not None and d.op == "app" and d.args[0] is ext("builtins.range") and len(d.args[1]) == 1 else None
            kinds_.append("row" if over is rows else "column" if over is cols else None)
        if None in kinds_:
            ctx.und(rule, what + ", entries", w.where(), show_(key)[:200])
            return
        free = [f for f in free if f != (mk("contains", entry, key), True)]
        if kinds_ != ["row", "column"]:
            ctx.bad(rule, what + ", entries", w.where(), f"stored at {kinds_}")
            return
    else:
        k = next((z for z in subterms(key) if z.op == "key" and z.args[0] is entry), None)
        if k is not None and matrix.known(key, (M, k)):
            ctx.bad(rule, what + ", entries", w.where(), f"the entry at {show_(k)} is stored at {show_(key)[:100]}")
        else:
            ctx.und(rule, what + ", entries", w.where(), f"stored at {show_(key)[:100]}")
        return
    if free:
        g = conj(free)
        ctx.bad(rule, what + ", entries", w.where(), f"only stored if {show_(g)[:200]}") if matrix.known(g, (M, key)) and not contains(g, lambda z: z.op == "app" and z.args[0].op == "fn") \
            else ctx.und(rule, what + ", entries", w.where(), f"only stored if {show_(g)[:200]}")
        return
    ctx.ok(rule, what + ", places", w.where(), show_(key))
    pos = mk("idx", entry, key)
    v = val
    if v.op == "idx" and v.args[0].op == "attr" and v.args[0].args[1] == "args" and call_arg(v.args[0].args[0], TO) is not None:
        g, p = call_arg(v.args[0].args[0], TO), v.args[1]
        if V(g) is mk("attr", M, "elements_graph"):
            got = mk("conv", mk("idx", mk("attr", M, "elements"), p))
        else:
            got = None
    elif call_arg(v, TO) is not None:
        got = mk("conv", V(call_arg(v, TO)))
    else:
        got = None
    if got is mk("conv", mk("idx", mk("attr", M, "elements"), pos)):
        ctx.ok(rule, what + ", entries", w.where(), show_(got))
    elif got is not None and matrix.known(got, (M, key)):
        ctx.bad(rule, what + ", entries", w.where(), f"{show_(got)[:200]} is stored at {show_(key)}")
    else:
        ctx.und(rule, what + ", entries", w.where(), f"{show_(v)[:200]} is stored")


def operand(y):
    """(expression, position) of a term for one of the operands of an expression."""
    if y.op != "idx":
        return None, None
    b, k = y.args
    off = 0
    if b.op == "slice" and is_const(b.args[1], 1) and is_const(b.args[2], None) and is_const(b.args[3], None):
        b = b.args[0]
    else:
        off = -1
    if b.op != "attr" or b.args[1] != "children":
        return None, None
    lf, c = lin_of(k)
    c += off
    if c == 0 and len(lf) == 1 and set(lf.values()) == {1}:
        return b.args[0], next(iter(lf))
    if not lf:
        return b.args[0], const(c)
    return b.args[0], mk("lin", tuple(sorted(lf.items(), key=lambda x: x[0].uid)), c)


def strip_view(d):
    while True:
        if d.op == "app" and d.args[0].op == "ext" and d.args[0].args[0] in matrix.STRIP + matrix.PERMUTE and len(d.args[1]) == 1:
            d = d.args[1][0]
        elif d.op == "dictview":
            d = d.args[1]
        else:
            return d


def moved(k):
    """The reorderings between the entries and the position of this one (sorted, reversed ...)."""
    out = []
    p = k.args[1]
    while isinstance(p, T) and p.op == "perm":
        if p.args[0] in matrix.PERMUTE:
            out.append(p.args[0])
        p = p.args[1]
    return out


def from_matrix(ctx, rule="matrix", sums=False):
    s = mk("sym", "m", None)
    todok = lambda t: t.op == "app" and t.args[0].op == "attr" and t.args[0].args == (s, "todok") and not t.args[1]
    m = matrix.Mat(ctx, "from_matrix", [s], lambda r: matrix.View(ctx, r, maps=todok), text=CLIENT, opaque=FROM, results={q: wrapped(ctx) for q in FROM})
    if not m.good:
        return
    V = m.V
    m.leaves = (s, *(t for w in V.r.effects for L in w.loops for t in subterms(V.it.domain(L)) if todok(t)))
    at = lambda n: mk("attr", s, n)
    sh = lambda i: mk("idx", at("shape"), const(i))
    if not m.shape_is([at("rows"), sh(0)], [at("cols"), sh(1)]):
        return
    EM = matrix.base_dict(V, m.entrymap)
    if EM.op != "obj":
        m.note("und", "entries", show_(EM)[:200])
        return
    ws = [e for e in V.r.effects if e.kind == "mut" and e.base is EM]
    if matrix.shared(m, EM, ws, "bad" if sums else "und"):
        return
    if len(ws) != 1 or ws[0].name != "__setitem__" or EM.args[0].init or len(ws[0].loops) != 1:
        m.note("und", "entries", f"{len(ws)} writes to the map of entries")
        return
    w, = ws
    L, = w.loops
    d = V(strip_view(V.it.domain(L)))
    if not todok(d):
        m.note("und", "entries", f"goes over {show_(d)[:200]}", w.where())
        return
    if V.free(w.gate) or getattr(L, "breaks", None):
        g = conj(V.free(w.gate))
        m.note("und", "entries", f"only stored if {show_(g)[:200]}", w.where())
        return
    key = V(w.args[0], V.env(w))
    if key.op == "key" and todok(key.args[0]):
        m.note("ok", "place of an entry", show_(key), w.where())
    else:
        k = next((z for z in subterms(key) if z.op == "key" and todok(z.args[0])), None)
        m.note("bad" if k is not None and matrix.known(key, (s, k)) else "und", "place of an entry", f"recorded at {show_(key)[:200]}", w.where())
        return

    def element(p):
        """The entry at a position: the converted object, or None."""
        v = V.at(m.elements, {}, (p,))
        y = v.args[1] if v.op == "symw" else v
        c = call_arg(y, FROM)
        if c is not None:
            return V(c), None
        X, k = operand(y)
        c = call_arg(X, FROM) if X is not None else None
        if c is not None and c.op == "app" and class_name(c.args[0]) == "Tuple" and len(c.args[1]) == 1 and c.args[1][0].op == "star":
            EL = c.args[1][0].args[0]
            return V.at(EL, {}, (k,)), EL
        return None, v
    p = V(w.args[1], V.env(w))
    want = mk("idx", key.args[0], key)
    got, EL = element(p)
    if got is None:
        m.note("und", "value of an entry", show_(EL)[:200], w.where())
        return
    same = lambda t: t is want or t.op == "idx" and todok(t.args[0]) and t.args[1].op == "key" and todok(t.args[1].args[0]) and t.args[1].args[1] is key.args[1]
    if same(got):
        m.note("ok", "value of an entry", show_(got)[:200], w.where())
        return
    if got.op == "idx" and todok(got.args[0]) and got.args[1].op == "key" and todok(got.args[1].args[0]) and moved(got.args[1]) != moved(key):
        m.note("bad", "value of an entry", "the entries are numbered in another order than the one they are stored in", w.where())
        return
    base = matrix.base_list(V, EL) if EL is not None else matrix.base_list(V, m.elements)
    if base.op == "obj" and not contains(got, lambda z: z is want):
        q, right = matrix.placed(m, w, base)
        if q is not None and right is not None:
            x = V(q.args[0], V.env(q))
            x = V(call_arg(x.args[1] if x.op == "symw" else x, FROM)) if EL is None and call_arg(x.args[1] if x.op == "symw" else x, FROM) is not None else x
            if right and same(x):
                m.note("ok", "value of an entry", show_(x)[:200], q.where())
                return
            if not right:
                m.note("bad", "value of an entry", f"position {show_(w.args[1])} is recorded, the entry is stored somewhere else", w.where())
                return
    m.note("bad" if matrix.known(got, (s, key)) else "und", "value of an entry", f"{show_(got)[:200]} instead of {show_(want)[:200]}", w.where())


def conversions(ctx):
    backends.operations(ctx, ("sympy_",), rule="to")
    backends.atoms(ctx, ("sympy_",), rule="to")
    converted(ctx)
    to_matrix(ctx)
    from_matrix(ctx)
    backends.forward(ctx)
