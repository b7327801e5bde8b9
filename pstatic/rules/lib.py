"""Shared helpers of the rules: canonical terms, case tables, expected values."""
from __future__ import annotations

import ast

from ..engine import (AnalysisError, Limit, T_type, analyse, analyse_term, conj, eval_under, lit_term, lits, mk_and, mk_not,
                      mk_or, mk_phi, phi_leaves, mk_fmt)
from ..terms import *  # noqa
from ..terms import T

CORE = "protosym.core."
CAS = "protosym.simplecas."
EXPR = CAS + "expr.Expr"


def at_loop(env, L):
    """Depth and bound loops at the point where loop L was entered."""
    k = env[L]
    return k, {K: n for K, n in env.items() if n < k}


def rebuild_(op, new):
    if op == "not":
        return mk_not(new[0])
    if op == "and":
        return mk_and(list(new[0]))
    if op == "or":
        return mk_or(list(new[0]))
    if op == "phi":
        return mk_phi(*new)
    return mk(op, *new)


LEN = ext("builtins.len")
SOLID = {"builtins." + k for k in ("int", "bool", "str", "float", "complex", "bytes", "tuple", "list", "dict", "set", "frozenset")}


def plain_tup(t):
    return t.op == "tup" and not any(x.op in ("star", "opt", "each") for x in t.args[0])


class Canon:
    """Loop-variable independent normal form of terms, under a set of facts (true literals)."""

    def __init__(self, it, facts=(), keep=()):
        self.it = it
        self.facts = set(facts)
        self.keep = set(keep)       # lists to refer to by themselves instead of by their content
        self.memo = {}
        self.active = []

    def cond(self, c):
        return eval_under(self(c), self.facts)

    def __call__(self, t, depth=0, env=None):
        env = env or {}
        key = (t, depth, tuple(sorted((L.id, k) for L, k in env.items())))
        r = self.memo.get(key)
        if r is None:
            self.memo[key] = t          # cycles: leave the term as it is
            r = self.memo[key] = self.go(t, depth, env)
        return r

    def go(self, t, d, env):
        if isinstance(t, tuple):
            return tuple(self.go(x, d, env) for x in t)
        if not isinstance(t, T):
            return t
        o, a = t.op, t.args
        if o == "const":
            return t
        if o == "phi":
            c = eval_under(self(a[0], d, env), self.facts)
            return mk_phi(c, self(a[1], d, env), self(a[2], d, env))
        if o == "elem" and a[1] in env:
            return mk("bel", self(a[0], *at_loop(env, a[1])), env[a[1]])
        if o == "idxvar" and a[0] in env:
            return mk("bix", env[a[0]])
        if o in ("key", "val") and a[1] in env:
            return mk("b" + o, self(a[0], *at_loop(env, a[1])), env[a[1]])
        if o == "tup" or (o == "obj" and a[0].kind in ("list", "set")) or o == "out" \
                or (o == "app" and a[0].op == "ext" and a[0].args[0] in ("builtins.list", "builtins.tuple") and len(a[1]) == 1) \
                or (o == "bin" and a[0] == "+" and any(x.op in ("tup", "obj", "out") for x in a[1:])):
            if o == "tup" and not any(x.op == "star" for x in a[0]):
                return mk("tup", tuple(self(x, d, env) for x in a[0]))
            if t in self.keep and self.active:
                return t
            if t in self.active:        # an accumulator defined in terms of itself
                return t
            self.active.append(t)
            try:
                return self.go_seq(t, o, a, d, env)
            finally:
                self.active.pop()
        if o == "dictview":
            return mk(o, a[0], self(a[1], d, env))
        if o == "obj":
            return t
        return self.go_rest(t, o, a, d, env)

    def go_seq(self, t, o, a, d, env):
            s = self.it.seq(t)
            if s is not None:
                items = self.segs(s, d, env)
                if len(items) == 1 and items[0].op == "star" and o in ("app", "tup"):
                    return mk("seqof", items[0].args[0])
                if o == "obj" and a[0].kind == "set":
                    return mk("setof", items)
                return mk("tup", items)
            return t if o == "obj" else self.go_rest(t, o, a, d, env)

    def go_rest(self, t, o, a, d, env):
        if o in ("and", "or"):
            xs = [self(x, d, env) for x in a[0]]
            return mk_and(xs) if o == "and" else mk_or(xs)
        if o == "not":
            return mk_not(self(a[0], d, env))
        if o == "isinst":
            x, k = self(a[0], d, env), self.go(a[1], d, env)
            r = self.it.isinst(x, k)
            if r.op == "isinst" and k.op == "ext" and k.args[0] in SOLID:       # an instance of a class of this repository is no int
                for f in self.facts:
                    if f.op == "isinst" and f.args[0] is x and f.args[1].op == "cls" and k.args[0] not in f.args[1].args[0].extbases():
                        return FALSE
            return r
        if o == "truth":
            x = self(a[0], d, env)
            return t if x is a[0] else self.it.truth(x)
        if o == "cmp":
            x, y = self(a[1], d, env), self(a[2], d, env)
            if a[0] == "==":
                return self.it.equal(x, y)
            if x.op == y.op == "const" and type(x.args[0]) is type(y.args[0]) is int and a[0] in ("<", "<=", ">", ">="):
                i, j = x.args[0], y.args[0]
                return const({"<": i < j, "<=": i <= j, ">": i > j, ">=": i >= j}[a[0]])
            return mk("cmp", a[0], x, y)
        if o == "fmt":
            return mk_fmt([p if p[0] == "lit" else (p[0], self(p[1], d, env)) for p in a[0]])
        new = tuple(self.go(x, d, env) if isinstance(x, (T, tuple)) else x for x in a)
        if o == "attr":
            x = new[0]
            if x.op == "symw" and new[1] == "rep":
                return x.args[1]
            if x.op == "phi" and any(y.op == "symw" for _, y in phi_leaves(x)):
                return self.over(x, lambda y: self.go_rest(mk("attr", y, new[1]), "attr", (y, new[1]), d, env))
        if o == "app" and new[0] is LEN and len(new[1]) == 1 and plain_tup(new[1][0]):
            return const(len(new[1][0].args[0]))
        if o == "idx" and new[1].op == "const" and type(new[1].args[0]) is int and plain_tup(new[0]) and -len(new[0].args[0]) <= new[1].args[0] < len(new[0].args[0]):
            return new[0].args[0][new[1].args[0]]
        if o in ("slice", "idx"):
            b = new[0]
            if b.op == "seqof":
                b = b.args[0]
            while b.op == "tup" and len(b.args[0]) == 1 and b.args[0][0].op == "star":
                b = b.args[0][0].args[0]
            if b is not new[0]:
                new = (b, *new[1:])
            if o == "slice" and b.op == "slice" and all(x.op == "const" for x in b.args[1:] + new[1:]) and b.args[2:] == new[2:] == (NONE, NONE) \
                    and type(b.args[1].args[0]) is int and type(new[1].args[0]) is int and min(b.args[1].args[0], new[1].args[0]) >= 0:
                return mk("slice", b.args[0], const(b.args[1].args[0] + new[1].args[0]), NONE, NONE)
            if o == "slice" and b.op == "tup" and new[2:] == (NONE, NONE) and new[1].op == "const" and type(new[1].args[0]) is int:
                k = new[1].args[0]
                if 0 <= k < len(b.args[0]) and not any(x.op in ("star", "opt", "each") for x in b.args[0][:k]):
                    rest = b.args[0][k:]
                    return mk("seqof", rest[0].args[0]) if len(rest) == 1 and rest[0].op == "star" else mk("tup", rest)
        return t if new == a else mk(o, *new)

    def over(self, v, f):
        return mk_phi(v.args[0], self.over(v.args[1], f), self.over(v.args[2], f)) if v.op == "phi" else f(v)

    def segs(self, s, d, env):
        out = []
        for x in s:
            if x[0] == "item":
                g = eval_under(self(conj(x[2]), d, env), self.facts)
                v = self(x[1], d, env)
                if g is TRUE:
                    out.append(v)
                elif g is FALSE:
                    continue
                else:
                    out.append(mk("opt", g, v))
            elif x[0] == "star":
                g = eval_under(self(conj(x[2]), d, env), self.facts)
                v = self(x[1], d, env)
                if v.op in ("seqof",):
                    v = v.args[0]
                if g is TRUE:
                    if v.op == "tup":
                        out.extend(v.args[0])
                    else:
                        out.append(mk("star", v))
                elif g is not FALSE:
                    out.append(mk("opt", g, mk("star", v)))
            else:
                _, loops, gate, v = x
                e2, d2, doms = dict(env), d, []
                for L in loops:
                    dom = self.it.domain(L)
                    doms.append(self(dom, d2, e2))
                    e2[L] = d2
                    d2 += 1
                g = eval_under(self(conj(gate), d2, e2), self.facts)
                if g is FALSE:
                    continue
                vv = self(v, d2, e2)
                for i, dom in enumerate(doms):      # a loop over a list built by a loop: one loop over the first domain
                    if dom.op == "tup" and len(dom.args[0]) == 1 and dom.args[0][0].op == "each" and len(dom.args[0][0].args[0]) == 1:
                        (D,), g0, v0 = dom.args[0][0].args
                        whole = mk("tup", (g, vv, *doms[i + 1:]))
                        if g0 is not TRUE and contains(whole, lambda z: z is mk("bix", d + i)):
                            continue
                        whole = subst(whole, {mk("bel", dom, d + i): v0}, rebuild=rebuild_)
                        g, vv, *rest = whole.args[0]
                        doms = doms[:i] + [D] + list(rest)
                        g = eval_under(mk_and([g0, g]), self.facts)
                if g is FALSE:
                    continue
                if g is TRUE and len(doms) == 1 and vv is mk("bel", doms[0], d):
                    out.append(mk("star", doms[0]))
                    continue
                whole = mk("tup", (g, vv))
                if len(doms) == 1 and doms[0].op == "tup" and len(doms[0].args[0]) <= 16 and all(y.op not in ("star", "each") for y in doms[0].args[0]) \
                        and not contains(whole, lambda z: z.op == "obj" and z.args[0].kind in ("list", "set", "dict") and z.args[0].era != "module"):
                    b, n = mk("bel", doms[0], d), mk("bix", d)      # over operands that are known one by one
                    if not (any(y.op == "opt" for y in doms[0].args[0]) and contains(whole, lambda z: z is n)):
                        for i, y in enumerate(doms[0].args[0]):
                            gy, y = y.args if y.op == "opt" else (TRUE, y)
                            gi, vi = self(subst(whole, {b: y, n: const(i)}, rebuild=rebuild_), d, env).args[0]
                            gi = eval_under(mk_and([gy, gi]), self.facts)
                            if gi is TRUE:
                                out.append(vi)
                            elif gi is not FALSE:
                                out.append(mk("opt", gi, vi))
                        continue
                out.append(mk("each", tuple(doms), g, vv))
        return tuple(out)


def case(r, facts, canon=None):
    """(returns, raises) of a result that are compatible with the facts: lists of (remaining condition, value, outcome)."""
    cn = canon or Canon(r.it, facts)
    rets, raises = [], []
    for os, out in ((r.returns, rets), (r.raises, raises)):
        for o in os:
            ls = [l for l in o.gate if l[0].op not in ("inloop", "iterates", "held", "lret", "broke")]
            c = cn.cond(conj(ls))
            if c is FALSE:
                continue
            v = cn(o.value)
            for g, leaf in phi_leaves(v):
                cc = eval_under(mk_and([c, conj(g)]), cn.facts)
                if cc is not FALSE:
                    out.append((cc, leaf, o))
    return rets, raises


def value_of(r):
    """The returned value as one term (choices between the returns as phis)."""
    if not r.returns:
        return mk("noreturn", r.fn)
    v = r.returns[-1].value
    for o in reversed(r.returns[:-1]):
        ls = [l for l in o.gate if l[0].op not in ("lret", "broke")]
        v = mk_phi(conj(ls), o.value, v)
    return v


PLAIN_METHODS = ("strip", "lstrip", "rstrip", "lower", "upper", "casefold", "title", "capitalize", "swapcase", "replace", "removeprefix", "removesuffix", "expandtabs",
                 "zfill", "ljust", "rjust", "center", "is_integer", "as_integer_ratio", "isdigit", "isdecimal", "isnumeric", "isalpha", "isalnum", "isidentifier", "isspace",
                 "startswith", "endswith", "bit_length", "conjugate", "count", "split", "join", "encode", "__index__", "__int__", "__float__", "__len__", "__bool__", "__trunc__",
                 "is_finite", "is_nan", "to_integral_value", "item")
PLAIN_FUNCTIONS = ("math.floor", "math.ceil", "math.trunc", "math.fsum", "math.sqrt", "math.isqrt", "math.isfinite", "math.isnan", "math.isinf", "operator.index", "sys.intern",
                   "unicodedata.normalize", "fractions.Fraction", "decimal.Decimal", "keyword.iskeyword")


def settle(t, leaves):
    """Results of well-known methods and functions of values (text, numbers) as values of their own: what they are does not matter, only that it is something else."""
    memo = {}

    def go(x):
        if isinstance(x, (tuple, frozenset)):
            return type(x)(go(y) for y in x)
        if not isinstance(x, T) or x in leaves or x.op in ("const", "obj", "fn", "cls", "ext") or not x.args:
            return x
        if x in memo:
            return memo[x]
        f = x.args[0] if x.op == "app" else None
        if f is not None and (f.op == "attr" and f.args[1] in PLAIN_METHODS and understood(go(f.args[0])) or f.op == "ext" and f.args[0] in PLAIN_FUNCTIONS) \
                and all(understood(go(y)) for y in x.args[1]):
            r = mk("sym", f"a result of {f.args[1] if f.op == 'attr' else f.args[0]}()", None)
        else:
            r = rebuild_(x.op, [go(y) for y in x.args])
        memo[x] = r
        return r
    return go(t)


HIDDEN_ORDER = {"builtins.zip", "builtins.map", "builtins.filter", "builtins.iter", "builtins.next"}     # sequences that are not followed in all their uses
OPAQUE_OPS = {"unk", "mu", "missing", "recursive", "noreturn", "raises"}


def understood(t, extra=()):
    """The term is built from inputs, constants and node constructors only: its meaning is fully known."""
    for s in subterms(t):
        if s.op in OPAQUE_OPS:
            return False
        if s.op == "app":
            f = s.args[0]
            if f.op == "ext" and f.args[0] in HIDDEN_ORDER:
                return False
            if f.op == "ext" and (f.args[0].startswith("builtins.") or f.args[0] in extra):
                continue
            return False
        if s.op == "out":
            return False
        if s.op == "obj" and s.args[0].kind in ("list", "set", "dict") and s.args[0].era != "module":
            return False
        if s.op in ("idx", "elem", "val", "key") and s.args[0].op == "obj":
            return False
        if s.op == "idx" and s.args[0].op == "tup" and any(x.op in ("star", "each", "opt") for x in s.args[0].args[0]):
            return False
    return True


def raised_class(prog, v):
    """Class of a raised value: ('cls', Cls) / ('ext', name) / None."""
    if v.op == "cls":
        return v
    if v.op == "obj" and v.args[0].kind == "inst":
        return v.args[0].cls
    if v.op == "app" and v.args[0].op in ("ext", "cls"):
        return v.args[0]
    if v.op == "ext":
        return v
    return None


def exc_names(c):
    """Names of the exception class and of its bases."""
    if c is None:
        return set()
    if c.op == "ext":
        n = c.args[0].split(".")[-1]
        import builtins
        k = getattr(builtins, n, None)
        return {n} | ({b.__name__ for b in k.__mro__} if isinstance(k, type) else set())
    out = set()
    for k in c.args[0].mro():
        out.add(k.name)
        for b in k.bases:
            if b.op == "ext":
                out |= exc_names(b)
    return out


def expr_sym(prog, name):
    return mk("sym", name, T_type("inst", prog.cls_term(EXPR)))


def ns(prog, name, module="protosym.simplecas"):
    v = prog.modules[module].ns.get(name) if module in prog.modules else None
    if v is None:
        raise AnalysisError(f"public name {module}.{name} not found")
    return v


def rep(t):
    return t.args[1] if t.op == "symw" else mk("attr", t, "rep")


def symw(prog, tree):
    return mk("symw", prog.cls_term(EXPR), tree)


def tree(*children):
    return mk("tree", mk("tup", tuple(children)))


def att(prog, name, module=None):
    """AtomType term wrapped by a public SymAtomType such as Integer."""
    v = ns(prog, name)
    it = prog.interp()
    from ..engine import State
    return it.read_attr(v, "atom_type", State({}, ()))


def show_(t):
    return show(t, 12)


def closed(t, leaves=(), extra=()):
    """Like understood, with the given terms taken as inputs (their own structure does not matter)."""
    stack, seen = [t], set()
    while stack:
        s = stack.pop()
        if isinstance(s, tuple):
            stack.extend(s)
            continue
        if not isinstance(s, T) or s in seen or s in leaves:
            continue
        seen.add(s)
        if s.op in OPAQUE_OPS or s.op in ("out", "popped", "zipdom"):
            return False
        if s.op == "app":
            f = s.args[0]
            if f not in leaves and not (f.op == "ext" and (f.args[0].startswith("builtins.") or f.args[0] in extra)):
                return False
        if s.op == "obj" and s.args[0].kind in ("list", "set", "dict") and s.args[0].era != "module":
            return False
        stack.extend(s.args)
    return True


def specialise(t, facts, memo=None):
    """Decide the choices (phi) of a term that the facts determine."""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T) or x.op in ("const", "obj", "sym") or not x.args:
            return x
        r = memo.get(x)
        if r is None:
            memo[x] = x
            if x.op == "phi":
                r = mk_phi(eval_under(go(x.args[0]), facts), go(x.args[1]), go(x.args[2]))
            else:
                new = tuple(go(y) for y in x.args)
                r = x if new == x.args else mk(x.op, *new)
            memo[x] = r
        return r
    return go(t)


def gate_under(gate, facts):
    """Remaining literals of a gate under facts, or None when it cannot hold."""
    out = []
    for c, pol in gate:
        c2 = eval_under(specialise(c, facts), facts)
        if c2 is TRUE or c2 is FALSE:
            if (c2 is TRUE) != pol:
                return None
            continue
        for l in lits(c2, pol):
            if l not in out:
                out.append(l)
    return tuple(out)


ADMIN = ("inloop", "iterates", "held", "lret")


def strip_seq(t):
    """The sequence whose elements t contains, whatever their order or container: list(x), x[::-1], reversed(x), [*x]."""
    while True:
        if t.op == "slice" and is_const(t.args[1], None) and is_const(t.args[2], None):
            t = t.args[0]
        elif t.op == "obj" and t.args[0].kind == "list" and len(t.args[0].init) == 1 and t.args[0].init[0].op == "star":
            t = t.args[0].init[0].args[0]
        elif t.op == "tup" and len(t.args[0]) == 1 and t.args[0][0].op == "star":
            t = t.args[0][0].args[0]
        elif t.op == "seqof":
            t = t.args[0]
        elif t.op == "app" and t.args[0].op == "ext" and t.args[0].args[0] in (
                "builtins.list", "builtins.tuple", "builtins.reversed", "builtins.iter", "collections.deque") and len(t.args[1]) == 1:
            t = t.args[1][0]
        else:
            return t


def where_of(r):
    return f"{r.fn.module.rel}:{r.fn.node.lineno}" if r.fn is not None else ""


def differ(a, b, path=""):
    """First difference between two terms (for debugging and reports)."""
    if a is b:
        return None
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op and len(a.args) == len(b.args):
        for i, (x, y) in enumerate(zip(a.args, b.args)):
            d = differ(x, y, f"{path}/{a.op}{i}")
            if d:
                return d
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, f"{path}/{i}")
            if d:
                return d
        return None
    if a == b:
        return None
    return path, a, b


def scenario(ctx, text, name, args=(), kws=None, opaque=(), const_globals=False, prog=None, elem_shape=None, results=None):
    """Analyse a function of a scenario (a client of the package, given as source text) with the package's code inlined."""
    import hashlib
    from ..engine import Fn, analyse as an
    prog = prog or ctx.prog
    saved, Fn.registry = Fn.registry, prog.fns
    try:
        m = prog.add_text("scenario_" + hashlib.sha1(text.encode()).hexdigest()[:10], text)

        def run(volatile=()):
            return an(prog, m.ns[name].args[0], opaque=opaque, args=list(args), kws=dict(kws or {}), const_globals=const_globals, deep=True, elem_shape=elem_shape,
                      volatile=volatile, results=results)
        r = run()
        state = kept_state(r)
        if state:
            memory(ctx, r, run(state) if const_globals else r, state, list(args) + list((kws or {}).values()))
    finally:
        Fn.registry = saved
    ctx.note_run(r)
    return r


# ------------------------------------------------------------------ state that is kept between calls

def kept_state(r):
    """State of the package that the analysed calls change: objects, (object, attribute), ('global', module, name)."""
    out = set()

    def package(t):
        return t.op == "obj" and t.args[0].era == "module" and not (t.args[0].module is not None and t.args[0].module.name.startswith("scenario_"))
    for e in r.effects:
        if e.base is None:
            continue
        if e.kind == "mut" and package(e.base):
            out.add(e.base)
        elif e.kind == "setattr" and (package(e.base) or e.base.op in ("cls", "fn", "mod")):
            out.add((e.base, e.name))
        elif e.kind == "setglobal" and not e.base.args[0].startswith("scenario_"):
            out.add(("global", e.base.args[0], e.name))
    return out


def memory(ctx, r, r2, state, args):
    """Results that are remembered: what is read again later has to be determined by the key under which it is found."""
    read = set()
    for t in everything(r2):
        if t in state:
            read.add(t)
        elif t.op == "attr" and tuple(t.args[:2]) in state:
            read.add(tuple(t.args[:2]))
        elif t.op == "sym" and t.args[1] is None and "." in str(t.args[0]):
            m, _, n = t.args[0].rpartition(".")
            if ("global", m, n) in state:
                read.add(("global", m, n))
    if not read:
        return
    inputs = [z for a in args if isinstance(a, T) for z in subterms(a) if z.op == "sym"]
    single = []
    for e in r.effects:
        if e.kind == "mut" and e.base in read:
            name = container_name(ctx, e.base)
            if e.name in ("__setitem__", "setdefault") and len(e.args) == 2:
                missing, known = not_determined(r.it, e.args[0], e.args[1], inputs)
                if not missing:
                    ctx.ok("memory", name, e.where(), f"key {show_(e.args[0])[:100]}")
                elif known:
                    ctx.bad("memory", name, e.where(), f"a result that depends on {', '.join(missing)} is remembered under the key {show_(e.args[0])[:100]}")
                else:
                    ctx.und("memory", name, e.where(), f"a result is remembered under the key {show_(e.args[0])[:100]}")
            elif any(t.op == "idx" and t.args[0] is e.base and t.args[1].op == "const" for t in everything(r2)) and e.args and depends(r.it, e.args[-1]) & set(inputs):
                ctx.bad("memory", name, e.where(), "what is put there for one call is used for another one")
            else:
                ctx.und("memory", name, e.where(), f"{e.name} to something that later calls look at")
        elif e.kind in ("setattr", "setglobal"):
            k = (e.base, e.name) if e.kind == "setattr" else ("global", e.base.args[0], e.name)
            if k in read:
                single.append((k, e))
    if single:
        # one remembered result: those compared for equality form the key
        def is_read(t):
            return t.op == "sym" and any(k[0] == "global" and t.args[0] == f"{k[1]}.{k[2]}" for k, _ in single) or t.op == "attr" and tuple(t.args[:2]) in {k for k, _ in single}
        keys = set()
        for o in list(r2.returns) + list(r2.raises) + list(r2.effects):
            for l in o.gate:
                for t in subterms(l[0]):
                    if t.op == "cmp" and t.args[0] in ("==", "is"):
                        keys |= {t2 for t2 in t.args[1:] if is_read(t2)}
        kv = [e.args[0] for k, e in single if any(t.op == "sym" and k[0] == "global" and t.args[0] == f"{k[1]}.{k[2]}" or t.op == "attr" and tuple(t.args[:2]) == k for t in keys)]
        for k, e in single:
            if any(e.args[0] is v for v in kv):
                continue
            missing, known = not_determined(r.it, mk("tup", tuple(kv)), e.args[0], inputs)
            if not missing:
                ctx.ok("memory", str(e.name), e.where(), "the same for all calls" if not kv else "remembered with its key")
            elif known:
                ctx.bad("memory", str(e.name), e.where(), f"a result that depends on {', '.join(missing)} is remembered" + (f" for {show_(mk('tup', tuple(kv)))[:100]}" if kv else ""))
            else:
                ctx.und("memory", str(e.name), e.where(), "a result is remembered")


def container_name(ctx, t):
    for m in ctx.prog.modules.values():
        for n, v in m.ns.items():
            if v is t:
                return n
    return show_(t)


def everything(r):
    seen = set()
    for o in list(r.returns) + list(r.raises) + list(r.effects):
        ts = [l[0] for l in o.gate] + (list(o.args) if hasattr(o, "args") else [o.value])
        if hasattr(o, "args") and o.kind == "call" and o.base is not None:
            ts.append(o.base)
        for t in ts:
            if isinstance(t, T):
                yield from subterms(t, seen)


INJECTIVE = ("builtins.tuple", "builtins.list", "builtins.int", "builtins.iter")


def not_determined(it, key, value, inputs):
    """([inputs that the value depends on and the key does not determine], whether all of the key is understood)."""
    det, known = [], [True]

    def go(t):
        if t.op == "tup":
            for x in t.args[0]:
                go(x.args[0] if x.op == "star" else x)
            return
        det.append(t)
        if t.op == "symw":
            det.append(t.args[1])
        elif t.op == "attr" and t.args[1] == "rep":
            go(t.args[0])
        elif t.op == "app" and t.args[0].op == "ext" and t.args[0].args[0] in INJECTIVE and len(t.args[1]) == 1:
            go(t.args[1][0])
        elif t.op == "obj" and t.args[0].kind == "list":
            for x in it.seq(t) or ():
                if x[0] != "each":
                    go(x[1])
                elif len(x[1]) == 1 and not [l for l in x[2] if l[0].op not in ADMIN]:
                    d = it.domain(x[1][0])
                    e = it.mk_elem(d, x[1][0])
                    w = e.args[1] if e.op == "symw" else e
                    if x[3] in (e, w, mk("attr", e, "rep")):
                        go(d)
        elif t.op in ("const", "sym", "fmt", "join", "lin", "cls", "fn", "treeatom", "tree", "atom", "attr", "idx"):
            pass
        elif t.op == "app" and t.args[0].op == "ext" and t.args[0].args[0] in ("builtins.str", "builtins.repr", "builtins.id", "builtins.hash", "builtins.len", "builtins.frozenset",
                                                                              "builtins.sorted", "builtins.type"):
            pass
        elif t.op == "setof":
            pass
        else:
            known[0] = False
    go(key)
    left = depends(it, value, {d for d in det if d.op != "const"})
    return [str(z.args[0]) for z in inputs if z in left], known[0]


def depends(it, t, stop=()):
    """Symbols that a value depends on, also through the content of objects, not looking into some terms."""
    seen, todo, out = set(), [t], set()
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo.extend(x)
            continue
        if type(x).__name__ == "Loop":
            d = it.domain(x) if x not in seen else None
            seen.add(x)
            if d is not None:
                todo.append(d)
            continue
        if not isinstance(x, T) or x in seen or x in stop:
            continue
        seen.add(x)
        if x.op == "sym":
            out.add(x)
        if x.op == "obj":
            o = x.args[0]
            for y in o.init:
                todo.append(y)
            if o.era != "module":
                for e in it.log[it.base:]:
                    if e.base is x and e.kind in ("mut", "setattr"):
                        todo.extend(e.args)
                        todo.extend(l[0] for l in e.gate)
                        todo.extend(e.loops)
            continue
        todo.extend(x.args)
    return out


SORT_FN = "protosym.core.tree.topological_sort"


def small_sorts(t):
    """The topological sort (the rules of C10) of a tree that is fully known and whose parts are different."""
    kws = dict(t.args[2])
    x = t.args[1][0] if t.args[1] else kws.pop("expression", None)
    heads, exclude = kws.pop("heads", FALSE), kws.pop("exclude", NONE)
    if kws or len(t.args[1]) > 1 or x is None or heads not in (TRUE, FALSE) or exclude is not NONE:
        return t
    out = {}

    def go(y):
        if y in out:
            return True
        if y.op == "treeatom":
            out[y] = True
            return True
        if y.op != "tree" or y.args[0].op != "tup":
            return False
        cs = y.args[0].args[0]
        if not all(go(c) for c in (cs if heads is TRUE else cs[1:])):
            return False
        out[y] = True
        return True
    return mk("tup", tuple(out)) if go(x) else t


SMALL = {"opaque": (SORT_FN,), "results": {SORT_FN: small_sorts}}

SUBS = "protosym.core.tree.SubsFunc"
SUBS_OPAQUE = tuple(f"{SUBS}.{n}" for n in ("__new__", "__init__", "__call__", "call"))


def deep_program(ctx, opaque=SUBS_OPAQUE):
    """The package again, with its module-level statements analysed in the mode of scenarios (for rules that need the tables built at import)."""
    from ..engine import Fn, Program
    key = ("deep", opaque)
    if key not in ctx.cache:
        saved = Fn.registry
        try:
            ctx.cache[key] = Program(ctx.prog.root, deep=True, opaque=opaque)
        finally:
            Fn.registry = saved
    return ctx.cache[key]


# ------------------------------------------------------------------ numbers of operands

def whole(n):
    """The value of an integer written in the source, computed from constants or not."""
    if isinstance(n, ast.Constant):
        return n.value if type(n.value) is int else None
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        a = whole(n.operand)
        return None if a is None else -a
    if isinstance(n, ast.BinOp):
        a, b = whole(n.left), whole(n.right)
        if a is None or b is None:
            return None
        if isinstance(n.op, ast.Add):
            return a + b
        if isinstance(n.op, ast.Sub):
            return a - b
        if isinstance(n.op, ast.Mult):
            return a * b
        if isinstance(n.op, ast.LShift) and 0 <= b < 64:
            return a << b
        if isinstance(n.op, ast.Pow) and 0 <= b < 64:
            return a ** b
    return None


def bounds(prog):
    """The integers the source compares, slices or counts with: the numbers of operands at which it may do something else."""
    if "bounds" not in prog.__dict__:
        out = set()
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                v = whole(n) if isinstance(n, (ast.Constant, ast.BinOp)) else None
                if v is not None and 2 < v <= 40:
                    out.add(v)
        prog.bounds = sorted(out)[:5]
    return prog.bounds


def sizes(ctx, base, least=None):
    """Numbers of operands to decide: the given ones and those around every integer of the source."""
    base = set(base)
    low = max(base) if least is None else least
    more = {k for b in bounds(ctx.prog) for k in (b - 1, b, b + 1)}
    if ctx.tier == "thorough":
        more |= set(range(10))
    return sorted(base | {k for k in more if k > low})
