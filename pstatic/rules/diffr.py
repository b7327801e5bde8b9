"""C14: differentiation."""
from __future__ import annotations

import itertools

from .lib import *  # noqa
from .lib import Canon, SUBS, SUBS_OPAQUE, deep_program, raised_class, scenario
from .build import Names
from .evalr import diff_registration, expr_term
from .graph import FGRAPH, forward, lin_of, one_call, substitution, unversion
from .instance import Inst, Stuck

DF = CORE + "differentiate.diff_forward"

GENERIC = '''
from protosym.core.sym import SymDifferentiator

def generic(new_sym, add, mul, zero, one, h, g, p, q, rhs, expr, sym):
    d = SymDifferentiator(new_sym, add=add, mul=mul, zero=zero, one=one)
    d.add_distributive_rule(h)
    d[g(p), p] = rhs
    return d(expr, sym)
'''
for _n in range(4):
    GENERIC += f'''
def times{_n}(new_sym, add, mul, zero, one, h, g, p, q, rhs, expr, sym):
    d = SymDifferentiator(new_sym, add=add, mul=mul, zero=zero, one=one)
    return d(expr, sym, {_n})

def method{_n}(expr, sym):
    return expr.diff(sym, {_n})

def named{_n}(expr, sym):
    return expr.diff(sym, ntimes={_n})
'''
GENERIC += '''
def default(new_sym, add, mul, zero, one, h, g, p, q, rhs, expr, sym):
    d = SymDifferentiator(new_sym, add=add, mul=mul, zero=zero, one=one)
    return d(expr, sym)

def symbolic(new_sym, add, mul, zero, one, h, g, p, q, rhs, expr, sym, n):
    d = SymDifferentiator(new_sym, add=add, mul=mul, zero=zero, one=one)
    return d(expr, sym, n)

def methodn(expr, sym, n):
    return expr.diff(sym, n)

def method(expr, sym):
    return expr.diff(sym)

def called(expr, sym):
    from protosym.simplecas import diff
    return diff(expr, sym)
'''


# ------------------------------------------------------------------ polynomials in normal form

class Alg:
    """Sums of products of opaque factors with exponents that are sums of products."""

    def __init__(self, add, mul, zero, one, pow_=None, integer=None, sub=None, unary=()):
        self.add, self.mul, self.zero, self.one, self.pow, self.integer = add, mul, zero, one, pow_, integer
        self.sub = sub or {}
        self.unary = unary

    def poly(self, t):
        if t in self.sub:
            return self.sub[t]
        if t is self.zero:
            return {}
        if t is self.one:
            return {(): 1}
        if self.integer is not None and t.op == "treeatom" and t.args[0].op == "atom" and t.args[0].args[0] is self.integer and t.args[0].args[1].op == "const":
            n = t.args[0].args[1].args[0]
            return {(): n} if n else {}
        if t.op == "tree" and t.args[0].op == "tup" and not any(x.op == "star" for x in t.args[0].args[0]):
            h, *args = t.args[0].args[0]
            if h is self.add:
                out = {}
                for x in args:
                    for m, c in self.poly(x).items():
                        out[m] = out.get(m, 0) + c
                return {m: c for m, c in out.items() if c}
            if h is self.mul:
                out = {(): 1}
                for x in args:
                    out = self.times(out, self.poly(x))
                return out
            if h is self.pow and len(args) == 2:
                b, e = self.poly(args[0]), self.poly(args[1])
                return {((freeze(b), freeze(e)),): 1}
            if h in self.unary and len(args) == 1:
                return self.factor((h.uid, freeze(self.poly(args[0]))))
        return self.factor(("t", t.uid))

    def factor(self, key):
        return {((freeze({("atom", key): 1}), freeze({(): 1})),): 1}

    def times(self, p, q):
        out = {}
        for m, c in p.items():
            for n, k in q.items():
                exps = {}
                for b, e in m + n:
                    pe = dict(exps.get(b, {}))
                    for mm, cc in dict(e).items():
                        pe[mm] = pe.get(mm, 0) + cc
                    exps[b] = {mm: cc for mm, cc in pe.items() if cc}
                key = tuple(sorted(((b, freeze(e)) for b, e in exps.items() if e), key=repr))
                # a power of something that is a plain factor to the first power
                out[key] = out.get(key, 0) + c * k
        return {m: c for m, c in out.items() if c}

    def norm(self, t):
        return freeze(self.poly(t))


def freeze(p):
    return tuple(sorted(p.items(), key=repr))


# ------------------------------------------------------------------ the step

class Step:
    """The derivative of one operation in terms of the values and derivatives of its operands."""

    def __init__(self, ctx, rule, label, r, expr, H, I):
        self.ctx, self.rule, self.label, self.r, self.it = ctx, rule, label, r, r.it
        self.H, self.I = H, I
        self.good = False
        at = self.at = r.returns[0].where() if r.returns else ""
        G = one_call(ctx, r, FGRAPH)
        if G is None or G.args[1] != (expr,):
            ctx.und(rule, label, at, "does not use forward_graph of the expression exactly once")
            return
        if len(r.returns) != 1:
            ctx.und(rule, label, at, "returns in several places")
            return
        v = r.returns[0].value
        v = v.args[1] if v.op == "symw" else v
        if not (v.op == "idx" and v.args[0].op == "obj" and v.args[0].args[0].kind == "list"):
            ctx.und(rule, label, at, f"result {show_(v)}")
            return
        if not is_const(v.args[1], -1):
            (ctx.bad if v.args[1].op == "const" else ctx.und)(rule, label, at, f"the result is the derivative at position {show_(v.args[1])}")
            return
        self.G, self.D = G, v.args[0]
        self.others = []
        self.atoms, self.ops = mk("attr", G, "atoms"), mk("attr", G, "operations")
        cn = self.cn = Canon(self.it)
        vals = self.values()
        if self.D in vals:
            ctx.bad(rule, label, at, "the result is the value of the expression, not its derivative")
            return
        cn = self.cn = Canon(self.it, keep=[o for o in self.lists if o is not self.D])
        c = joined(cn(self.D))
        p = {}
        for x in (c.args[0] if c.op == "tup" else ()):
            if x.op == "each" and len(x.args[0]) == 1 and x.args[1] is TRUE:
                p[x.args[0][0]] = x.args[2]
        # a list derived from the list of values: loops over it are loops over the atoms
        if c.op == "tup" and len(c.args[0]) == 2 and len(p) == 2:
            ks = list(p)
            first = ks[0]
            if (first in self.lists or first is self.atoms) and ks[1] is self.ops:
                self.atom_value, self.step = p[ks[0]], p[ks[1]]
                self.S = vals
                self.first = first
                # a list with the derivatives of the operations but something else for the atoms
                for o, x in self.lists.items():
                    y = joined(Canon(self.it, keep=[q for q in self.lists if q is not o])(o))
                    if o is not self.D and y.op == "tup" and y.args[0][1:] == c.args[0][1:]:
                        self.others.append(o)
                self.good = bool(vals or self.others)
            wrong = [(o, x) for o, x in self.lists.items() if o is not self.D and o not in vals and x.op == "each" and x.args[2].op == "tree"
                     and len(self.I) > 1 and x.args[2].args[0].args[0][0] is self.H]
            for o, x in wrong:
                try:
                    inst, V, _ = self.instance((), mk("sym", "zero", None), mk("sym", "one", None), (2,) * len(self.I), Choice(), (o,))
                    got = inst(Canon(self.it, keep=self.lists)(x.args[2]))
                except Stuck as e:
                    c2 = e.args[0]
                    if c2.op == "order":
                        got = mk("tup", ("sorted positions",))
                    else:
                        continue
                ctx.bad(rule, label, at, f"the value kept for an operation is {show_(x.args[2])[:200]}")
                self.good = False
                return
            if self.good:
                return
        ctx.und(rule, label, at, f"derivatives {show_(c)[:300]}")

    def values(self):
        """Lists that hold the value of every expression of the graph: {object: canonical content}."""
        out, self.lists = {}, {}
        objs = []
        for e in self.r.effects:
            if e.kind == "mut" and isinstance(e.base, T) and e.base.op == "obj" and e.base.args[0].kind == "list" and not e.base.args[0].loops and e.base not in objs:
                objs.append(e.base)
        for o in objs:
            c = joined(Canon(self.it)(o))
            if c.op != "tup" or len(c.args[0]) != 2:
                continue
            a, b = c.args[0]
            self.lists[o] = b
            each = mk("each", (self.ops,), TRUE, mk("tree", mk("tup", (self.H, *(mk("idx", o, i) for i in self.I)))))
            if a is mk("star", self.atoms) and unversion(b) is each:
                out[o] = c
        return out

    def atom_rule(self, sym, one, zero, leaves):
        ctx, it = self.ctx, self.it
        v = self.atom_value
        a = mk("bel", self.atoms, 0)
        v = subst(v, {mk("bel", s, 0): a for s in (*self.S, self.first)}, rebuild=rebuild_)
        eq = it.equal(sym, a)
        for fact, want, what in ((eq, one, "the symbol itself"), (mk_not(eq), zero, "another atom")):
            got = Canon(it, {fact})(v)
            if got is want:
                ctx.ok(self.rule, f"{self.label}: {what}", self.at, show_(got))
            elif closed(got, leaves | {a}):
                ctx.bad(self.rule, f"{self.label}: {what}", self.at, f"the derivative is {show_(got)} instead of {show_(want)}")
            else:
                ctx.und(self.rule, f"{self.label}: {what}", self.at, show_(got))

    def instance(self, facts, zero, one, status, choice, values=None):
        """(Inst, values, derivatives) for operands whose derivatives are 0, 1 or something else."""
        it = self.it
        tr = T_type("inst", self.ctx.prog.cls_term(CORE + "tree.Tree"))
        k = len(self.I)
        V = [mk("sym", f"u{j}", tr) for j in range(k)]
        D = [mk("sym", f"du{j}", tr) for j in range(k)]
        facts = set(facts) | choice.facts
        facts.add(mk_not(it.equal(zero, one)))
        for j, s in enumerate(status):
            for v, n in ((zero, 0), (one, 1)):
                facts.add(it.equal(v, D[j]) if s == n else mk_not(it.equal(v, D[j])))
                if s:
                    facts.add(mk_not(it.equal(v, V[j])))
        for i, j in itertools.combinations(range(k), 2):
            if status[i] != status[j]:
                facts |= {mk_not(it.equal(D[i], D[j])), mk_not(it.equal(V[i], V[j]))}
            elif status[i] < 2:
                facts.add(it.equal(D[i], D[j]))
        sub = choice.sub
        V, D = [[self.sub(x, sub) for x in xs] for xs in (V, D)]
        facts = {self.sub(f, sub) for f in facts}
        ids = [sub.get(i, i) for i in self.I]
        elems = {o: dict(zip(ids, D)) for o in (self.D, *self.others)}
        for s in self.S if values is None else values:
            elems[s] = dict(zip(ids, V))
        return Inst(it, facts, {}, elems, choice.perms), V, D

    def sub(self, t, sub):
        return subst(t, sub, rebuild=rebuild_) if sub else t

    def branches(self, stuck, status, choice):
        """The cases to consider for a condition on free operands that the facts do not decide."""
        c, it = stuck.args[0], self.it
        k = len(self.I)
        tr = T_type("inst", self.ctx.prog.cls_term(CORE + "tree.Tree"))
        V = {mk("sym", f"u{j}", tr): j for j in range(k)}
        D = {mk("sym", f"du{j}", tr): j for j in range(k)}
        I = {x: j for j, x in enumerate(self.I)}
        neg = c.op == "not"
        if neg:
            c = c.args[0]
        if c.op == "order":
            return [choice.perm(c.args[0], p) for p in itertools.permutations(range(c.args[1]))]
        if c.op != "cmp":
            return None
        x, y = c.args[1], c.args[2]
        no = choice.fact(mk_not(c))
        if c.args[0] in ("<", "<=", ">", ">=") and x in I and y in I:
            return [choice.fact(c), no]
        if c.args[0] != "==":
            return None
        for A in (V, I):
            if x in A and y in A:
                i, j = A[x], A[y]
                same = status[i] == status[j]
                both = {list(V)[j]: list(V)[i], list(D)[j]: list(D)[i], self.I[j]: self.I[i]}
                return ([choice.same(both)] if same else []) + [no]
        if x in D and y in D and status[D[x]] == status[D[y]] == 2:
            return [choice.same({y: x}), no]
        for x, y in ((x, y), (y, x)):
            if x in V and y in D and status[D[y]] == 2:
                return [choice.same({y: x}), no]
            if x in V and status[V[x]] == 0 and y.op in ("treeatom", "sym") and y not in V and y not in D and y not in I:
                return [choice.same({x: y}), no]
        return None

    def raises(self, inst, sub):
        """Does an explicit raise happen for this operation?  (True / False / None)"""
        res = False
        for o in self.r.raises:
            env, doms = {}, []
            for n, L in enumerate(o.loops):
                dom = self.cn(self.it.domain(L), len(doms), {M: i for M, i in env.items()})
                env[L] = n
                doms.append(dom)
            if not doms or doms[0] is not self.ops:
                res = None
                continue
            c = self.sub(self.cn(conj([l for l in o.gate if l[0].op not in ADMIN + ("broke",)]), len(doms), env), sub)
            try:
                def go(n, e):
                    if n == len(doms):
                        return inst.cond(c, n, e)
                    return any([go(n + 1, {**e, n: (j, x)}) for j, x in enumerate(inst.seq(doms[n], n, e))])
                if go(1, {}):
                    return True
            except Stuck:
                res = None
        return res

    def case(self, name, facts, status, zero, one, alg, want, must_raise=False, exact=None):
        """want(V, D) -> expected normal form; exact(V, D) -> expected term."""
        k = len(status)
        label = f"{self.label}: {name}, {k} operands"
        desc = ", ".join(("0", "1", "u'")[s] for s in status)
        todo, seen, good = [Choice()], 0, None
        while todo:
            ch = todo.pop()
            seen += 1
            if seen > 60:
                verdict, text = "und", "too many cases"
                break
            try:
                verdict, text = self.verdict(ch, facts, status, zero, one, alg, want, must_raise, exact)
            except Stuck as e:
                more = self.branches(e, status, ch)
                if more is None:
                    verdict, text = "und", f"depends on {show_(e.args[0])[:200]}"
                    break
                todo += more
                continue
            good = good or text
            if verdict != "ok":
                if ch.text:
                    text += f" ({ch.text})"
                break
        getattr(self.ctx, verdict)(self.rule, label, self.at, f"derivatives of the operands ({desc}): {text if verdict != 'ok' else good}")
        return verdict == "ok"

    def verdict(self, choice, facts, status, zero, one, alg, want, must_raise, exact):
        inst, V, D = self.instance(facts, zero, one, status, choice)
        got = inst(self.sub(self.step, choice.sub))
        rz = self.raises(inst, choice.sub)
        missing = rz is True or contains(got, lambda z: z.op == "missing")
        if must_raise:
            if missing:
                return "ok", "no rule, raises"
            if rz is None or not self.plain(got):
                return "und", show_(got)[:200]
            return "bad", f"a missing rule is not reported, the derivative is {show_(got)[:300]}"
        if missing:
            return "bad", "raises instead of giving the derivative"
        if rz is None:
            return "und", "may raise"
        sub = {}
        for j, s in enumerate(status):
            if s == 0:
                sub[D[j]] = {}
            elif s == 1:
                sub[D[j]] = {(): 1}
        ws = None
        if exact is not None:
            w = exact(V, D)
            z = {D[j]: (zero if s == 0 else one) for j, s in enumerate(status) if s < 2}
            same = self.sub(got, z) is self.sub(w, z)
            ws = show_(w)
        else:
            a = alg(sub)
            w = want(a, V, D)
            same = freeze(a.poly(self.apply(got))) == freeze(w)
        if same:
            return "ok", show_(got)[:200]
        if self.plain(got):
            return "bad", f"the derivative is {show_(got)[:300]}" + (f" instead of {ws}" if ws else "")
        return "und", show_(got)[:200]

    def plain(self, t):
        """Built from operands, their derivatives and registered functions only."""
        def ok(z):
            if z.op in ("sym", "const", "cls", "ext", "fn", "treeatom", "atom", "missing") or z in (self.H,):
                return True
            if z.op == "tree":
                return all(ok(x) for x in z.args[0].args[0])
            if z.op == "app":
                c = call_of(z)
                return c is not None and all(ok(x) for x in c[2])
            if z.op == "tup":
                return all(ok(x) for x in z.args[0])
            return False
        return ok(t)

    def apply(self, t):
        """Results of registered functions written out."""
        def go(z):
            if isinstance(z, tuple):
                return tuple(go(x) for x in z)
            if not isinstance(z, T):
                return z
            if z.op == "app":
                s = call_of(z)
                if s is not None:
                    e, ps, args = s
                    ps = self.cn(ps)
                    args = tuple(go(x) for x in args)
                    if ps.op == "tup" and len(ps.args[0]) == len(args) and len(set(ps.args[0])) == len(args):
                        if e.op == "sym":
                            return mk("app", e, args, ())
                        return subst(e, dict(zip(ps.args[0], args)), rebuild=rebuild_)
                return z
            if z.op == "tree":
                return mk("tree", mk("tup", tuple(go(x) for x in z.args[0].args[0])))
            return z
        return go(t)


def subs_of(f):
    """(expression, parameters) of a SubsFunc."""
    if f.op == "app" and f.args[0].op == "fn" and f.args[0].args[0].qual in SUBS_OPAQUE[:2] and len(f.args[1]) == 3:
        return f.args[1][1], f.args[1][2]
    if f.op == "app" and f.args[0].op == "cls" and f.args[0].args[0].qual == SUBS and len(f.args[1]) == 2:
        return f.args[1]
    return None


def call_of(z):
    """(expression, parameters, arguments) of a call of a SubsFunc."""
    f, args = z.args[0], z.args[1]
    if f.op == "fn" and f.args[0].qual == SUBS + ".__call__" and args:
        f, args = args[0], args[1:]
    elif f.op == "fn" and f.args[0].qual == SUBS + ".call" and len(args) == 2 and args[1].op == "tup":
        f, args = args[0], args[1].args[0]
    s = subs_of(f)
    return None if s is None else (*s, args)


def joined(c):
    """Neighbouring parts over the same domain with complementary conditions as one part."""
    if c.op != "tup":
        return c
    out = []
    for x in c.args[0]:
        if out and x.op == "each" and out[-1].op == "each" and out[-1].args[0] == x.args[0] and out[-1].args[1] is mk_not(x.args[1]):
            out[-1] = mk("each", x.args[0], TRUE, mk_phi(x.args[1], x.args[2], out[-1].args[2]))
        else:
            out.append(x)
    return mk("tup", tuple(out))


class Choice:
    """Assumptions on the operands made so far."""

    def __init__(self, facts=frozenset(), sub=None, perms=None, text=""):
        self.facts, self.sub, self.perms, self.text = set(facts), sub or {}, perms or {}, text

    def fact(self, c):
        return Choice(self.facts | {c}, self.sub, self.perms, self.text)

    def same(self, d):
        d = dict(d)
        sub = {k: subst(v, d, rebuild=rebuild_) for k, v in self.sub.items()}
        return Choice({subst(f, d, rebuild=rebuild_) for f in self.facts}, {**sub, **d}, self.perms,
                      ", ".join(filter(None, [self.text, *(f"{show_(k)} = {show_(v)}" for k, v in d.items())])))

    def perm(self, t, p):
        return Choice(self.facts, self.sub, {**self.perms, t: p}, self.text)


def graph_shape(ctx, H, k):
    """The description of an operation with k operands at any position: (positions, elem_shape)."""
    I = tuple(mk("sym", f"index{j}", T_type("int")) for j in range(k))
    op = mk("tup", (H, mk("tup", I)))

    def shape(t):
        return op if t.op == "attr" and t.args[1] == "operations" else None
    return I, shape


def statuses(k):
    if k < 4:
        return list(itertools.product((2, 0, 1), repeat=k))
    return [(2,) * k, (0,) * k, (1,) * k, (2, 0) * (k // 2) + (1,) * (k % 2), ((0, 2, 1, 2, 1, 0) * k)[:k]]


def generic(ctx, rule="derivative"):
    prog = ctx.prog
    names = "new_sym add mul zero one h g p q rhs expr sym".split()
    args = [prog.cls_term(EXPR) if n == "new_sym" else expr_term(prog, n) for n in names]
    s = {n: (a.args[1] if a.op == "symw" else a) for n, a in zip(names, args)}
    H = mk("sym", "head", T_type("inst", prog.cls_term(CORE + "tree.Tree")))
    heads = ("h", "g", "add", "mul")

    def alg(sub):
        return Alg(s["add"], s["mul"], s["zero"], s["one"], sub=sub)
    sum_ = lambda a, V, D: plus(a.poly(d) for d in D)

    def product(a, V, D):
        return plus(times(a, [a.poly(D[j])] + [a.poly(V[i]) for i in range(len(V)) if i != j]) for j in range(len(D)))
    z = (s["zero"], s["one"])
    for k in sizes(ctx, range(6)):
        I, shape = graph_shape(ctx, H, k)
        r = scenario(ctx, GENERIC, "generic", args, opaque=(FGRAPH,) + SUBS_OPAQUE, elem_shape=shape)
        st = Step(ctx, rule, "diff(expr, sym)", r, s["expr"], H, I)
        if not st.good:
            return
        it = r.it
        if k == 0:
            st.atom_rule(s["sym"], s["one"], s["zero"], set(s.values()))

        def facts(hit):
            f = {(lambda c: c if n == hit else mk_not(c))(it.equal(H, s[n])) for n in heads}
            f |= {mk_not(it.equal(s[x], s[y])) for x, y in itertools.combinations(heads, 2)}
            return f
        for ss in statuses(k):
            st.case("distributive head", facts("h"), ss, *z, alg, None, exact=lambda V, D: mk("tree", mk("tup", (H, *D))))
            st.case("sum", facts("add"), ss, *z, alg, sum_)
            st.case("product", facts("mul"), ss, *z, alg, product)
            miss = any(x != 0 for x in ss)
            st.case("head without rule", facts(None), ss, *z, alg, lambda a, V, D: {}, must_raise=miss)
            if k == 1:
                st.case("head with a rule", facts("g"), ss, *z, alg, lambda a, V, D: a.times(a.poly(mk("app", s["rhs"], (V[0],), ())), a.poly(D[0])))
            elif k > 1 and any(x != 0 for x in ss[1:]):
                st.case("head without rule for this operand", facts("g"), ss, *z, alg, None, must_raise=True)


def plus(ps):
    out = {}
    for p in ps:
        for m, c in p.items():
            out[m] = out.get(m, 0) + c
    return {m: c for m, c in out.items() if c}


def builtin(ctx, rule="built-in-rule", heads=None):
    """The rules registered by the package for its own functions."""
    prog = deep_program(ctx)
    args = [expr_term(prog, n) for n in ("expr", "sym")]
    expr, sym = (a.args[1] for a in args)
    integer = att(prog, "Integer")
    N = {n: rep(ns(prog, n)) for n in ("Add", "Mul", "Pow", "sin", "cos", "List")}
    zero, one = (mk("treeatom", mk("atom", integer, const(n))) for n in (0, 1))
    tr = lambda *xs: mk("tree", mk("tup", xs))
    i = lambda n: mk("treeatom", mk("atom", integer, const(n)))
    unknown = mk("treeatom", mk("atom", att(prog, "Function"), const("some function without rules")))

    def alg(sub):
        return Alg(N["Add"], N["Mul"], zero, one, N["Pow"], integer, sub, (N["sin"], N["cos"]))

    def product(a, V, D):
        return plus(times(a, [a.poly(D[j])] + [a.poly(V[i]) for i in range(len(V)) if i != j]) for j in range(len(D)))
    spec = {"sin": (1, lambda a, V, D: a.times(a.poly(tr(N["cos"], V[0])), a.poly(D[0]))),
            "cos": (1, lambda a, V, D: a.times(a.poly(tr(N["Mul"], i(-1), tr(N["sin"], V[0]))), a.poly(D[0]))),
            "Pow": (2, lambda a, V, D: a.times(a.poly(tr(N["Mul"], V[1], tr(N["Pow"], V[0], tr(N["Add"], V[1], i(-1))))), a.poly(D[0])))}
    for how in ("method", "called"):
        label = "expr.diff(sym)" if how == "method" else "diff(expr, sym)"
        for h in heads or (*N, None):
            H = N.get(h, unknown)
            for k in ((spec[h][0],) if h in spec else sizes(ctx, range(4)) if how == "method" else (2,)):
                I, shape = graph_shape(ctx, H, k)
                r = scenario(ctx, GENERIC, how, args, opaque=(FGRAPH,) + SUBS_OPAQUE, const_globals=True, prog=prog, elem_shape=shape)
                st = Step(ctx, rule, label, r, expr, H, I)
                if not st.good:
                    continue
                if (h is None or heads) and k == 2:
                    st.atom_rule(sym, one, zero, {sym})
                for ss in statuses(k):
                    z = (zero, one, alg)
                    if h in spec:
                        st.case(h, (), ss, *z, spec[h][1], must_raise=h == "Pow" and ss[1] != 0)
                    elif h == "List":
                        st.case(h, (), ss, *z, None, exact=lambda V, D: tr(H, *D))
                    elif h == "Add":
                        st.case(h, (), ss, *z, lambda a, V, D: plus(a.poly(d) for d in D))
                    elif h == "Mul":
                        st.case(h, (), ss, *z, product)
                    else:
                        st.case("unknown head", (), ss, *z, lambda a, V, D: {}, must_raise=any(ss))


def times(a, ps):
    out = {(): 1}
    for p in ps:
        out = a.times(out, p)
    return out


def repeated(ctx, rule="order"):
    """The n-th derivative differentiates n times with respect to the same symbol."""
    prog = ctx.prog
    names = "new_sym add mul zero one h g p q rhs expr sym".split()
    args = [prog.cls_term(EXPR) if n == "new_sym" else expr_term(prog, n) for n in names]
    p2 = deep_program(ctx)
    two = [expr_term(p2, n) for n in ("expr", "sym")]
    for name, n in [(f"times{n}", n) for n in range(4)] + [("default", 1)] + [(f"{m}{n}", n) for m in ("method", "named") for n in range(4)] + [("method", 1)]:
        if name[0] in "mn":
            r = scenario(ctx, GENERIC, name, two, opaque=(DF,), const_globals=True, prog=p2)
            e, s = (a.args[1] for a in two)
            label = "expr.diff(sym" + {"m": f", {n}", "n": f", ntimes={n}"}[name[0]] * (name != "method") + ")"
        else:
            r = scenario(ctx, GENERIC, name, args, opaque=(DF,))
            e, s = args[10].args[1], args[11].args[1]
            label = "diff(expr, sym" + f", {n}" * (name != "default") + ")"
        at = r.returns[0].where() if r.returns else ""
        v = Canon(r.it)(value_of(r))
        v = v.args[1] if v.op == "symw" else v
        k, ok = 0, True
        x = v
        while x.op == "app" and x.args[0].op == "fn" and x.args[0].args[0].qual == DF and len(x.args[1]) >= 2:
            if x.args[1][1] is not s:
                break
            k += 1
            x = x.args[1][0]
        if x is e and k == n:
            ctx.ok(rule, label, at, f"{k} derivatives")
        elif x is e:
            ctx.bad(rule, label, at, f"differentiates {k} times instead of {n}")
        elif x.op == "phi" and lost_chain(x, e, s):
            ctx.bad(rule, label, at, f"the result is {show_(lost_chain(x, e, s))} when {show(x.args[0])}")
        elif closed(v, {e, s}, ()) or x.op == "app" and x.args[0].op == "fn" and x.args[0].args[0].qual == DF and closed(mk("tup", x.args[1][:2]), {e, s}):
            ctx.bad(rule, label, at, f"the result is {show_(v)[:200]}")
        else:
            ctx.und(rule, label, at, show_(v)[:200])


def lost_chain(x, e, s):
    """x is something else than a derivative when an expression is its own derivative."""
    def chain(t):
        t = t.args[0] if t.op == "attr" and t.args[1] == "rep" else t
        t = t.args[1] if t.op == "symw" else t
        while t.op == "app" and t.args[0].op == "fn" and t.args[0].args[0].qual == DF and len(t.args[1]) >= 2 and t.args[1][1] is s:
            t = t.args[1][0]
        return t is e

    c, yes, no = x.args
    if c.op == "not":
        c, yes, no = c.args[0], no, yes
    if c.op != "cmp" or c.args[0] != "==" or not chain(c.args[1]) or not chain(c.args[2]):
        return None
    return yes if yes.op in ("treeatom", "tree", "const") and not any(chain(t) for t in subterms(yes)) else None


def any_order(ctx, rule="order"):
    """The same for an order that is not known: the loop body differentiates once, the loop runs as often as given."""
    prog = ctx.prog
    names = "new_sym add mul zero one h g p q rhs expr sym".split()
    n = mk("sym", "n", T_type("int"))
    args = [prog.cls_term(EXPR) if k == "new_sym" else expr_term(prog, k) for k in names]
    p2 = deep_program(ctx)
    two = [expr_term(p2, k) for k in ("expr", "sym")]
    for name, as_, pr in (("symbolic", args + [n], prog), ("methodn", two + [n], p2)):
        label = "diff(expr, sym, n)" if name == "symbolic" else "expr.diff(sym, n)"
        r = scenario(ctx, GENERIC, name, as_, opaque=(DF,), const_globals=pr is p2, prog=pr)
        at = r.returns[0].where() if r.returns else ""
        e, s = (a.args[1] for a in (as_[10:12] if pr is prog else two))
        v = value_of(r)
        out = v.args[1] if v.op == "symw" else v
        if out.op != "out" or out.args[0].kind != "for" or out.args[0].breaks or out.args[0].returns:
            ctx.und(rule, label, at, show_(v)[:200])
            continue
        L, var = out.args
        bare = lambda t: t.args[1] if t.op == "symw" else t
        dom = strip_seq(L.it)
        init, back = bare(L.init.get(var, NONE)), bare(L.back.get(var, NONE))
        prev = mk("mu", L, var)
        isdf = back.op == "app" and back.args[0].op == "fn" and back.args[0].args[0].qual == DF
        rng = dom.args[1] if dom.op == "app" and dom.args[0] is ext("builtins.range") and not dom.args[2] else ()
        if len(rng) == 1:
            rng = (const(0), *rng)
        if len(rng) == 3 and is_const(rng[2], 1):
            rng = rng[:2]
        good = isdf and init is e and back.args[1][0] in (prev, mk("attr", prev, "rep")) and back.args[1][1] is s
        if good and len(rng) == 2:
            (lo, c), (hi, d) = lin_of(rng[0]), lin_of(rng[1])
            times = {k: hi.get(k, 0) - lo.get(k, 0) for k in set(hi) | set(lo)}
            times = {k: v for k, v in times.items() if v}
            if times == {n: 1} and d == c:
                ctx.ok(rule, label, at, f"{show_(back)} repeated for {show_(dom)} from {show_(init)}")
            elif set(times) <= {n}:
                ctx.bad(rule, label, at, f"differentiates for each of {show_(dom)}")
            else:
                ctx.und(rule, label, at, f"{show_(back)} repeated for {show_(dom)} from {show_(init)}")
        else:
            ctx.und(rule, label, at, f"{show_(back)} repeated for {show_(dom)} from {show_(init)}")


def differentiation(ctx):
    any_order(ctx)
    generic(ctx)
    builtin(ctx)
    repeated(ctx)
    diff_registration(ctx)
    forward(ctx)
    substitution(ctx)
