"""C07, C08: building expressions and converting operands."""
from __future__ import annotations

from .lib import *  # noqa
from .lib import Canon, case, exc_names, raised_class, understood


class Names:
    """Public constants of simplecas as terms."""

    def __init__(self, prog):
        self.prog = prog
        self.E = prog.cls_term(EXPR)
        self.integer = att(prog, "Integer")

    def head(self, n):
        return rep(ns(self.prog, n))

    def int_(self, v):
        return mk("treeatom", mk("atom", self.integer, v if isinstance(v, T) else const(v)))


def method(prog, c, name):
    v = c.args[0].lookup(name)[0]
    return v


def of_self(prog, t, s):
    """type(self)(x) as an expression of the class the method is analysed for."""
    E = prog.cls_term(EXPR)
    ty = (mk("app", ext("builtins.type"), (s,), ()), mk("attr", s, "__class__"))

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T) or x.op in ("const", "obj") or not x.args:
            return x
        if x.op == "app" and x.args[0] in ty and len(x.args[1]) == 1:
            return mk("symw", E, go(x.args[1][0]))
        return mk(x.op, *[go(y) for y in x.args])
    return go(t)


def compare(ctx, rule, construct, where, got, want, what):
    """Every value returned must be the one documented."""
    if not got:
        ctx.bad(rule, construct, where, f"no {what} is returned")
        return
    for c, v, o in got:
        v = of_self(ctx.prog, v, expr_sym(ctx.prog, "self"))
        if v is want:
            ctx.ok(rule, construct, o.where(), f"{what}: {show_(v)}")
        elif understood(v) and understood(c):
            cond = "" if c is TRUE else f" when {show(c)}"
            ctx.bad(rule, construct, o.where(), f"builds {show_(v)}{cond} instead of {show_(want)}")
        else:
            ctx.und(rule, construct, o.where(), f"result {show_(v)} not recognised, expected {show_(want)}")


def operators(ctx):
    """[(name, facts kind, result, wanted tree)]: every operator with an Expr and with an int operand."""
    prog = ctx.prog
    N = Names(prog)
    add, mul, pw = N.head("Add"), N.head("Mul"), N.head("Pow")
    neg = N.int_(-1)

    def want(name, s, o):
        return {
            "__add__": lambda: tree(add, s, o), "__radd__": lambda: tree(add, o, s),
            "__sub__": lambda: tree(add, s, tree(mul, neg, o)), "__rsub__": lambda: tree(add, o, tree(mul, neg, s)),
            "__mul__": lambda: tree(mul, s, o), "__rmul__": lambda: tree(mul, o, s),
            "__truediv__": lambda: tree(mul, s, tree(pw, o, neg)), "__rtruediv__": lambda: tree(mul, o, tree(pw, s, neg)),
            "__pow__": lambda: tree(pw, s, o), "__rpow__": lambda: tree(pw, o, s),
        }[name]()
    return N, want


BINARY = ["__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__truediv__", "__rtruediv__", "__pow__", "__rpow__"]


def run_method(ctx, cls, name, args):
    prog = ctx.prog
    v = method(prog, cls, name)
    if v is None or v.op not in ("fn", "bound", "app"):
        return None
    r = analyse_term(prog, v, args)
    ctx.note_run(r)
    return r


def inert_operators(ctx, rule="operator-node"):
    prog = ctx.prog
    N, want = operators(ctx)
    E = N.E
    s, o = expr_sym(prog, "self"), expr_sym(prog, "other")
    sr, orr = rep(s), mk("attr", o, "rep")
    for name, w in (("__pos__", s), ("__neg__", symw(prog, tree(N.head("Mul"), N.int_(-1), sr)))):
        r = run_method(ctx, E, name, [s])
        if r is None:
            ctx.bad(rule, f"Expr.{name}", "src/protosym/simplecas/expr.py:0", "operator is missing")
            continue
        rets, raises = case(r, [r.it.isinst(s, E)], Canon(r.it, [r.it.isinst(s, E)]))
        compare(ctx, rule, f"Expr.{name}", "", rets, w, "node")
        no_raise(ctx, rule, f"Expr.{name}", raises)
    for name in BINARY:
        r = run_method(ctx, E, name, [s, o])
        if r is None:
            ctx.bad(rule, f"Expr.{name}", "src/protosym/simplecas/expr.py:0", "operator is missing")
            continue
        facts = [r.it.isinst(s, E), r.it.isinst(o, E)]
        rets, raises = case(r, facts, Canon(r.it, facts))
        compare(ctx, rule, f"Expr.{name}", "", rets, symw(prog, want(name, sr, orr)), "node")
        no_raise(ctx, rule, f"Expr.{name}", raises)
    for name in ("__iadd__", "__isub__", "__imul__", "__itruediv__", "__ipow__"):
        if method(prog, E, name) is not None:
            ctx.und(rule, f"Expr.{name}", "", "in-place operator defined")


def no_raise(ctx, rule, construct, raises):
    for c, v, o in raises:
        if understood(c):
            ctx.bad(rule, construct, o.where(), f"raises {show_(v)} for some operands" + ("" if c is TRUE else f": {show(c)}"))
        else:
            ctx.und(rule, construct, o.where(), f"may raise {show_(v)}: {show(c)}")


def calls(ctx, rule="call-node"):
    """head(*args): the node with exactly the given operands, in order."""
    prog = ctx.prog
    N = Names(prog)
    E = N.E
    s = expr_sym(prog, "self")
    args = mk("sym", "args", T_type("tuplevar", None))
    r = run_method(ctx, E, "__call__", [s, mk("star", args)])
    if r is None:
        ctx.bad(rule, "Expr.__call__", "src/protosym/simplecas/expr.py:0", "calling an expression is missing")
        return
    cn = Canon(r.it, [r.it.isinst(s, E)])
    rets, raises = case(r, [r.it.isinst(s, E)], cn)
    b = mk("bel", args, 0)
    conv = mk_phi(r.it.isinst(b, E), mk("attr", b, "rep"), N.int_(b))
    conv2 = mk_phi(r.it.isinst(b, ext("builtins.int")), N.int_(b), mk("attr", b, "rep"))     # nothing else is accepted: see C08
    def want(dom, conv):
        return symw(prog, tree(rep(s), mk("each", (dom,), TRUE, conv)))
    wants = {want(d, c) for d in (args, mk("seqof", args), mk("tup", (mk("star", args),))) for c in (conv, conv2)}
    got = 0
    for c, v, o in rets:
        got += 1
        v = of_self(prog, v, s)
        if v in wants:
            ctx.ok(rule, "Expr.__call__", o.where(), f"node: {show_(v)}")
        elif understood(settle(v, ())) and understood(settle(c, ())):
            ctx.bad(rule, "Expr.__call__", o.where(), f"builds {show_(v)}" + ("" if c is TRUE else f" when {show(c)}"))
        else:
            ctx.und(rule, "Expr.__call__", o.where(), f"result {show_(v)} not recognised")
    if not got:
        ctx.bad(rule, "Expr.__call__", "", "nothing is returned")
    # Tree level
    t = mk("sym", "t", T_type("inst", prog.cls_term(CORE + "tree.Tree")))
    targs = mk("sym", "args", T_type("tuplevar", T_type("inst", prog.cls_term(CORE + "tree.Tree"))))
    r = run_method(ctx, prog.cls_term(CORE + "tree.Tree"), "__call__", [t, mk("star", targs)])
    simple(ctx, rule, "Tree.__call__", r, {tree(t, mk("star", targs))})
    # atoms
    A = prog.cls_term(CORE + "atom.AtomType")
    at, val = mk("sym", "self", T_type("inst", A)), mk("sym", "value", None)
    simple(ctx, rule, "AtomType.__call__", run_method(ctx, A, "__call__", [at, val]), {mk("atom", at, val)})
    S = prog.cls_term(CORE + "sym.SymAtomType")
    sat = mk("sym", "self", T_type("inst", S))
    r = run_method(ctx, S, "__call__", [sat, val])
    w = mk("treeatom", mk("atom", mk("attr", sat, "atom_type"), val))
    simple(ctx, rule, "SymAtomType.__call__", r, {mk("app", mk("attr", sat, "sym"), (w,), ())}, loose=lambda v: v.op == "app" and v.args[0] is mk("attr", sat, "sym") and v.args[1] == (w,) and not v.args[2])
    tr = prog.find(CORE + "tree.Tr")
    at2 = mk("sym", "value", T_type("inst", prog.cls_term(CORE + "atom.Atom")))
    if tr is not None:
        r = analyse_term(prog, tr, [at2])
        simple(ctx, rule, "Tr", r, {mk("treeatom", at2)})
    # wild symbols
    wild = prog.find(CORE + "sym.Wild")
    r = run_method(ctx, E, "new_wild", [E, val])
    if wild is not None and r is not None:
        simple(ctx, rule, "Expr.new_wild", r, {symw(prog, mk("treeatom", mk("atom", wild, val)))})


def simple(ctx, rule, name, r, wants, loose=None):
    if r is None:
        ctx.bad(rule, name, "", "not defined")
        return
    rets, raises = case(r, [])
    if not rets:
        ctx.bad(rule, name, "", "nothing is returned")
    for c, v, o in rets:
        if v in wants or loose is not None and loose(v):
            ctx.ok(rule, name, o.where(), show_(v))
        elif understood(settle(v, ())):
            ctx.bad(rule, name, o.where(), f"returns {show_(v)}" + ("" if c is TRUE else f" when {show(c)}") + f" instead of {show_(next(iter(wants)))}")
        else:
            ctx.und(rule, name, o.where(), f"returns {show_(v)}, expected {show_(next(iter(wants)))}")
    for c, v, o in raises:
        if c is TRUE:
            ctx.bad(rule, name, o.where(), f"always raises {show_(v)}")


def accessors(ctx, rule="accessor"):
    """head and args of an expression are the first and the other children."""
    prog = ctx.prog
    E = prog.cls_term(EXPR)
    s = expr_sym(prog, "self")
    ch = mk("attr", rep(s), "children")
    for name in ("head", "args"):
        v = method(prog, E, name)
        if v is None or v.op != "fn":
            ctx.und(rule, f"Sym.{name}", "", "not a property written in the package")
            continue
        r = analyse_term(prog, v, [s])
        ctx.note_run(r)
        rets, _ = case(r, [r.it.isinst(s, E)], Canon(r.it, [r.it.isinst(s, E)]))
        for c, v, o in rets:
            if name == "head":
                x = unwrap(v, s, E)
                good = x is mk("idx", ch, const(0))
            else:
                good, x = None, v
                if v.op in ("tup", "seqof", "each") or v.op == "tup":
                    e = v.args[0][0] if v.op == "tup" and len(v.args[0]) == 1 else v
                    if e.op == "each" and len(e.args[0]) == 1:
                        dom, gate, val = e.args
                        y = unwrap(val, s, E)
                        good = dom[0] is mk("slice", ch, const(1), NONE, NONE) and gate is TRUE and y is mk("bel", dom[0], 0)
            if good:
                ctx.ok(rule, f"Sym.{name}", o.where(), show_(v))
            elif known(v, s):
                ctx.bad(rule, f"Sym.{name}", o.where(), f"returns {show_(v)}" + ("" if c is TRUE else f" when {show(c)}"))
            else:
                ctx.und(rule, f"Sym.{name}", o.where(), f"returns {show_(v)}")


def unwrap(v, s, E):
    """x of type(s)(x) or Expr(x)"""
    if v.op == "symw":
        return v.args[1]
    if v.op == "app" and len(v.args[1]) == 1 and v.args[0] in (mk("app", ext("builtins.type"), (s,), ()), mk("attr", s, "__class__")):
        return v.args[1][0]
    return v


def known(v, s):
    """Like understood, with calls of the class of s counted as constructors."""
    ty = (mk("app", ext("builtins.type"), (s,), ()), mk("attr", s, "__class__"))

    def strip(t):
        if isinstance(t, tuple):
            return tuple(strip(x) for x in t)
        if not isinstance(t, T) or not t.args or t.op == "const":
            return t
        if t.op == "app" and t.args[0] in ty:
            return mk("tup", strip(t.args[1]))
        return mk(t.op, *[strip(x) for x in t.args])
    return understood(strip(v))


def constants(ctx, rule="constants"):
    """zero, one, negone and the heads are what their names say, and different."""
    prog = ctx.prog
    N = Names(prog)
    for n, v in (("zero", 0), ("one", 1), ("negone", -1)):
        t = ns(prog, n)
        want = mk("symw", N.E, N.int_(v))
        judge(ctx, rule, n, t, want)
    heads = {}
    fn = att(prog, "Function")
    for n in ("Add", "Mul", "Pow", "sin", "cos", "List"):
        t = ns(prog, n)
        ok = t.op == "symw" and t.args[0] is N.E and t.args[1].op == "treeatom" and t.args[1].args[0].op == "atom" and t.args[1].args[0].args[0] is fn \
            and t.args[1].args[0].args[1].op == "const"
        if ok and t in heads:
            ctx.bad(rule, n, "src/protosym/simplecas/expr.py", f"{n} and {heads[t]} are the same head")
        elif ok:
            heads[t] = n
            ctx.ok(rule, n, "", show_(t))
        elif understood(t):
            ctx.bad(rule, n, "src/protosym/simplecas/expr.py", f"{n} is {show_(t)}")
        else:
            ctx.und(rule, n, "", f"{n} is {show_(t)}")
    types = {}
    for n in ("Integer", "Symbol", "Function"):
        t = att(prog, n)
        if t in types:
            ctx.bad(rule, n, "src/protosym/simplecas/expr.py", f"{n} and {types[t]} are the same atom type")
        else:
            types[t] = n
            ctx.ok(rule, n, "", show_(t))


def judge(ctx, rule, name, t, want):
    if t is want:
        ctx.ok(rule, name, "", show_(t))
    elif understood(t):
        ctx.bad(rule, name, "src/protosym/simplecas/expr.py", f"{name} is {show_(t)} instead of {show_(want)}")
    else:
        ctx.und(rule, name, "", f"{name} is {show_(t)}")


def building(ctx):
    inert_operators(ctx)
    calls(ctx)
    accessors(ctx)
    constants(ctx)
    node_parts(ctx)


def node_parts(ctx):
    from .identity import fields_are_parts, interning
    interning(ctx)


# ------------------------------------------------------------------ C08

def conv_cases(ctx, rule, construct, run, wrap, reject, at="", given=lambda it: ()):
    """The three cases of an operand x: an Expr is used as it is, an int becomes Integer(x), anything else is rejected.
    wrap(rep) is the wanted result; reject is 'notimpl' or 'raise'."""
    prog = ctx.prog
    N = Names(prog)
    E, INT = N.E, ext("builtins.int")
    # Expr
    r, x = run(T_type("inst", E))
    it = r.it
    isE = it.isinst(x, E)
    facts = [isE, *given(it)]
    rets, raises = case(r, facts, Canon(it, facts))
    compare(ctx, rule, construct + " Expr", at, rets, wrap(mk("attr", x, "rep")), "expression operand")
    no_raise(ctx, rule, construct + " Expr", raises)
    # int
    r, x = run(T_type("int"))
    it = r.it
    isE, isI = it.isinst(x, E), it.isinst(x, INT)
    facts = [mk_not(isE), isI, *given(it)]
    rets, raises = case(r, facts, Canon(it, facts))
    ints = {wrap(N.int_(v)) for v in (x, mk("app", ext("builtins.int"), (x,), ()), mk("app", ext("operator.index"), (x,), ()))}
    n = 0
    for c, v, o in rets:
        if only_bool(c, x, it):
            continue
        n += 1
        if v in ints:
            ctx.ok(rule, construct + " int", o.where(), f"int operand: {show_(v)}")
        elif v is NOTIMPL or understood(settle(v, {x})) and understood(settle(c, {x})):
            ctx.bad(rule, construct + " int", o.where(), f"an int gives {show_(v)}" + ("" if c is TRUE else f" when {show(c)}"))
        else:
            ctx.und(rule, construct + " int", o.where(), f"an int gives {show_(v)}")
    for c, v, o in raises:
        if only_bool(c, x, it):
            continue
        if understood(c):
            ctx.bad(rule, construct + " int", o.where(), f"an int is rejected" + ("" if c is TRUE else f" when {show(c)}"))
        else:
            ctx.und(rule, construct + " int", o.where(), f"an int may be rejected: {show(c)}")
    if not n:
        ctx.bad(rule, construct + " int", at, "an int is never accepted")
    # anything else
    r, x = run(None)
    it = r.it
    isE, isI = it.isinst(x, E), it.isinst(x, INT)
    facts = [mk_not(isE), mk_not(isI), *given(it)]
    rets, raises = case(r, facts, Canon(it, facts))
    good = 0
    for c, v, o in rets:
        if reject == "notimpl" and v is NOTIMPL:
            good += 1
        elif understood(settle(v, {x})) and understood(settle(c, {x})) or v is NOTIMPL or converted(v, c, x):
            ctx.bad(rule, construct + " other", o.where(), f"an operand that is neither Expr nor int gives {show_(v)}" + ("" if c is TRUE else f" when {show(c)}"))
        else:
            ctx.und(rule, construct + " other", o.where(), f"an operand that is neither Expr nor int gives {show_(v)}")
    for c, v, o in raises:
        k = raised_class(prog, v)
        ns_ = exc_names(k)
        if reject == "notimpl":
            ctx.bad(rule, construct + " other", o.where(), f"raises {show_(v)} instead of returning NotImplemented")
        elif "TypeError" in ns_:
            good += 1
        elif k is None:
            ctx.und(rule, construct + " other", o.where(), f"raises {show_(v)}")
        else:
            ctx.bad(rule, construct + " other", o.where(), f"raises {show_(v)}, which is not a TypeError")
    if good:
        ctx.ok(rule, construct + " other", at, "NotImplemented" if reject == "notimpl" else "TypeError")
    elif not rets and not raises:
        ctx.und(rule, construct + " other", at, "no outcome found")


CONVERTERS = {"builtins.int", "builtins.float", "builtins.round", "builtins.abs", "builtins.str", "builtins.repr", "builtins.bool", "operator.index", "math.floor",
              "math.trunc", "builtins.ord", "builtins.len", "builtins.complex"}


def converted(v, c, x):
    """A value made of the operand by a number conversion of the standard library, where that does not raise: there are objects other than int (and other
    than expressions) that it accepts, such as 1.0 or "1"."""
    def plain(t):
        if isinstance(t, tuple):
            return tuple(plain(y) for y in t)
        if not isinstance(t, T):
            return t
        if t.op == "app" and t.args[0].op == "ext" and t.args[0].args[0] in CONVERTERS:
            return mk("sym", f"a result of {t.args[0].args[0]}()", None)
        if t.op == "raises" and all(b.op == "ext" and b.args[0] in CONVERTERS for b in t.args[2]):
            return mk("sym", "the conversion raises", None)
        return rebuild_(t.op, [plain(y) for y in t.args]) if t.args and t.op not in ("const", "obj", "fn", "cls", "ext") else t
    if not any(q.op == "app" and q.args[0].op == "ext" and q.args[0].args[0] in CONVERTERS and q.args[1] and contains(q.args[1], lambda z: z is x) for q in subterms(v)):
        return False
    return understood(plain(v)) and all(understood(plain(lit_term(l))) for l in lits(c))


def only_bool(c, x, it):
    """The condition only holds for bool operands (a special int)."""
    b = it.isinst(x, ext("builtins.bool"))
    return b in {lit_term(l) for l in lits(c)} if c is not TRUE else False


def conversions(ctx):
    prog = ctx.prog
    N, want = operators(ctx)
    E = N.E
    s = expr_sym(prog, "self")
    for name in BINARY:
        if method(prog, E, name) is None:
            ctx.bad("operand", f"Expr.{name}", "src/protosym/simplecas/expr.py:0", "operator is missing")
            continue

        def run(ty):
            o = mk("sym", "other", ty)
            return run_method(ctx, E, name, [s, o]), o
        conv_cases(ctx, "operand", f"Expr.{name}", run, lambda t: symw(prog, want(name, rep(s), t)), "notimpl", given=lambda it: [it.isinst(s, E)])
    f = prog.find(CAS + "expr.expressify") or ns(prog, "expressify")

    def run(ty):
        x = mk("sym", "obj", ty)
        r = analyse_term(prog, f, [x])
        ctx.note_run(r)
        return r, x
    r, x = run(T_type("inst", E))
    rets, raises = case(r, [r.it.isinst(x, E)], Canon(r.it, [r.it.isinst(x, E)]))
    compare(ctx, "expressify", "expressify Expr", "", rets, x, "the same expression")
    no_raise(ctx, "expressify", "expressify Expr", raises)
    sub = Sub(ctx)                      # int and other as for any operand
    conv_cases(sub, "expressify", "expressify", run, lambda t: mk("symw", E, t), "raise")
    for o in sub.obs:
        if not o[2].endswith(" Expr"):
            ctx._add(*o)
    every_operand(ctx)


class Sub:
    """Collects obligations of a sub-rule."""

    def __init__(self, ctx):
        self.ctx, self.prog, self.obs = ctx, ctx.prog, []

    def _add(self, *a):
        self.obs.append(a)

    def ok(self, *a):
        self._add("ok", *(a + ("",) * (4 - len(a))))

    def bad(self, *a):
        self._add("bad", *a)

    def und(self, *a):
        self._add("undecided", *a)

    def decide(self, v, *a):
        (self.ok if v is True else self.bad if v is False else self.und)(*a)


def every_operand(ctx, rule="every-operand"):
    """Calls, substitutions and matrices convert (or reject) every single operand."""
    prog = ctx.prog
    N = Names(prog)
    E = N.E
    s = expr_sym(prog, "self")
    args = mk("sym", "args", T_type("tuplevar", None))
    reps = mk("sym", "reps", T_type("dict"))
    M = prog.cls_term(CAS + "matrix.Matrix")
    F = prog.cls_term(CAS + "expr.ExprFunction")
    ent = mk("sym", "entries", None)
    for label, f, a in (
        ("Expr.__call__", method(prog, E, "__call__"), [s, mk("star", args)]),
        ("Expr.as_function", method(prog, E, "as_function"), [s, mk("star", args)]),
        ("ExprFunction.__call__", method(prog, F, "__call__"), [mk("sym", "self", T_type("inst", F)), mk("star", args)]),
        ("Matrix", M, [ent]),
    ):
        r = analyse_term(prog, f, a, opaque=("protosym.core.tree.SubsFunc", "protosym.core.tree.SubsFunc.*"))
        ctx.note_run(r)
        root = args if label != "Matrix" else ent
        checked_elements(ctx, rule, label, r, root)
    keys_values(ctx, rule)


def elems_of(r, root):
    """Element terms of the operand sequence read by the code (innermost)."""
    out = set()
    seen = set()
    for e in r.effects:
        for t in list(e.args) + [e.base] + [l[0] for l in e.gate]:
            for q in subterms(t, seen):
                if q.op in ("elem", "idx", "bel") and contains(q, lambda z: z is root):
                    out.add(q)
    for o in r.returns + r.raises:
        for t in [o.value] + [l[0] for l in o.gate]:
            for q in subterms(t, seen):
                if q.op in ("elem", "idx", "bel") and contains(q, lambda z: z is root):
                    out.add(q)
    return out


def left_out(r, root):
    """Elements of the operands that are only put somewhere when they have a certain type, while nothing raises and nothing else happens otherwise."""
    used = {}
    for e in r.effects:
        for q in {q for t in e.args if isinstance(t, T) for q in subterms(t) if q.op in ("key", "val", "elem", "idx", "bel") and isinstance(q.args[0], T) and q.args[0] is root}:
            used.setdefault(q, []).append(e)

    def of_type(l, x):
        t, pol = l
        parts = t.args[0] if t.op == "or" and t.args and isinstance(t.args[0], (tuple, frozenset)) else t.args
        return t.op == "isinst" and t.args[0] is x and pol or t.op == "or" and pol and all(isinstance(y, T) and y.op == "isinst" and y.args[0] is x for y in parts)
    for x, es in used.items():
        if all(e.kind == "mut" and any(of_type(l, x) for l in e.gate) for e in es) and \
                not any(q.op == "isinst" and q.args[0] is x for o in r.raises for l in o.gate for q in subterms(l[0])) and \
                not any(q is x for o in r.returns for q in subterms(o.value)):
            return es[0], x
    return None


def checked_elements(ctx, rule, label, r, root):
    """There is a raise of a TypeError for an element that is neither Expr nor int, under no other condition; and elements are
    only used converted: as themselves under isinstance Expr, as Integer(e) under isinstance int."""
    prog = ctx.prog
    N = Names(prog)
    good, other = None, []
    for o in r.raises:
        ls = [l for l in o.gate if l[0].op not in ("inloop", "iterates", "broke", "lret", "held")]
        xs = [l[0].args[0] for l in ls if l[0].op == "isinst" and not l[1] and contains(l[0].args[0], lambda z: z is root)]
        for x in set(xs):
            need = {(r.it.isinst(x, N.E), False), (r.it.isinst(x, ext("builtins.int")), False)}
            if need <= set(ls):
                rest = [l for l in ls if l not in need]
                if "TypeError" in exc_names(raised_class(prog, o.value)):
                    good = (o, x, rest)
                else:
                    other.append(o)
    where = f"{r.fn.module.rel}:{r.fn.node.lineno}" if r.fn is not None and hasattr(r.fn, "module") else ""
    if good is None:
        used = [q for q in elems_of(r, root)]
        if other:
            ctx.bad(rule, label, other[0].where(), f"an operand that is neither Expr nor int raises {show_(other[0].value)}, which is not a TypeError")
        elif (d := left_out(r, root)) is not None:
            ctx.bad(rule, label, d[0].where(), f"{show(d[1])} of the wrong type is left out instead of raising TypeError")
        elif not any(e.kind == "call" and e.base.op == "fn" for e in r.effects) and not r.it.unmodelled:
            ctx.bad(rule, label, where, "operands that are neither Expr nor int are not rejected")
        else:
            ctx.und(rule, label, where, "rejection of operands not recognised")
        return
    o, x, rest = good
    extra = [l for l in rest if contains(l[0], lambda z: z is x or z.op in ("idxvar",))]
    if extra and all(understood(l[0]) for l in extra):
        ctx.bad(rule, label, o.where(), f"an operand is only checked when {show(conj(extra))}")
        return
    ctx.ok(rule, label, o.where(), f"every operand {show(x)} that is neither Expr nor int raises TypeError")
    # uses
    cn = Canon(r.it)
    bad = None
    for e in r.effects:
        if e.kind not in ("mut", "call", "setattr"):
            continue
        for t in e.args:
            if not isinstance(t, T):
                continue
            for q in subterms(t):
                if q.op == "atom" and contains(q.args[1], lambda z: z is root):
                    v = q.args[1]
                    core = v.args[1][0] if v.op == "app" and len(v.args[1]) == 1 and v.args[0] in (ext("builtins.int"), ext("operator.index")) else v
                    if core.op in ("elem", "idx") and q.args[0] is N.integer:
                        continue
                    if understood(q):
                        bad = (e, q)
    if bad:
        ctx.bad(rule, label + " value", bad[0].where(), f"an int operand becomes {show_(bad[1])}")
    else:
        ctx.ok(rule, label + " value", o.where(), "an int operand becomes the Integer of its value")


def keys_values(ctx, rule):
    """xreplace converts keys and values."""
    prog = ctx.prog
    N = Names(prog)
    E = N.E
    s = expr_sym(prog, "self")
    reps = mk("sym", "reps", T_type("dict"))
    f = method(prog, E, "xreplace")
    r = analyse_term(prog, f, [s, reps], opaque=("protosym.core.tree.SubsFunc", "protosym.core.tree.SubsFunc.*"))
    ctx.note_run(r)
    seen = {"key": None, "val": None}
    for o in r.raises:
        ls = [l for l in o.gate if l[0].op == "isinst" and not l[1]]
        for l in ls:
            x = l[0].args[0]
            need = {(r.it.isinst(x, N.E), False), (r.it.isinst(x, ext("builtins.int")), False)}
            if need <= set(ls) and "TypeError" in exc_names(raised_class(prog, o.value)):
                kind = "val" if x.op == "val" or x.op == "elem" and x.args[0].op == "dictview" and x.args[0].args[0] == "values" or x.op == "idx" and x.args[0] is reps else "key"
                if contains(x, lambda z: z is reps):
                    seen[kind] = o
    for k, text in (("key", "keys"), ("val", "replacements")):
        if seen[k] is not None:
            ctx.ok(rule, f"Expr.xreplace {text}", seen[k].where(), "anything but Expr and int raises TypeError")
        elif (d := left_out(r, reps)) is not None:
            ctx.bad(rule, f"Expr.xreplace {text}", d[0].where(), f"{show(d[1])} of the wrong type is left out instead of raising TypeError")
        else:
            ctx.und(rule, f"Expr.xreplace {text}", f"{r.fn.module.rel}:{r.fn.node.lineno}", "rejection not recognised")
