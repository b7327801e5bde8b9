"""C19: operations of matrices."""
from __future__ import annotations

from .lib import *  # noqa
from .lib import ADMIN, CAS, EXPR, OPAQUE_OPS, closed, ns, raised_class, exc_names, rebuild_, scenario, show_, tree, att
from . import diffr, graph, llvmr
from .graph import len_, lin_of

CLIENT = '''
from protosym.simplecas import Matrix

def fields(C):
    return C.nrows, C.ncols, C.shape, C.elements, C.entrymap, C.elements_graph

def new(entries):
    return fields(Matrix(entries))

def add(M, N):
    return fields(M + N)

def binop(M, N, f):
    return fields(M.binop(N, f))

def diff(M, s):
    return fields(M.diff(s))

def get(M, i, j):
    return M[i, j]

def item(M, ij):
    return M[ij]

def tolist(M):
    return M.tolist()

def text(M):
    return M.__repr__()

def plain_text(M):
    return M.__str__()
'''
FIELDS = ("nrows", "ncols", "shape", "elements", "entrymap", "elements_graph")
MATRIX = CAS + "matrix.Matrix"
DIFF = EXPR + ".diff"
STRIP = ("builtins.list", "builtins.tuple", "builtins.iter")
PERMUTE = ("builtins.sorted", "builtins.reversed")


class View:
    """Terms about matrices in normal form: sequences are indexed by positions, entries are known to be expressions."""

    def __init__(self, ctx, r, entries=None, mats=(), facts=(), maps=None):
        self.ctx, self.r, self.it = ctx, r, r.it
        self.maps = maps        # other terms that are mappings; the order of their keys matters
        self.E, self.mats, self.facts = entries, mats, set(facts)
        self.expr = ctx.prog.cls_term(EXPR)
        self.alias = {}
        self.memo = {}
        sure = None
        for o in r.returns:     # what holds whenever there is a result
            ls = {(l if p else mk_not(l)) for l, p in o.gate if l.op not in ADMIN + ("broke",)}
            sure = ls if sure is None else sure & ls
        self.sure = sure or set()

    def normally(self):
        v = self.under({self(l) for l in self.sure})
        v.facts |= self.sure
        return v

    def under(self, facts):
        v = View(self.ctx, self.r, self.E, self.mats, self.facts | set(facts), self.maps)
        v.alias = self.alias
        return v

    # -------------------------------------------------------------- entries

    def entry(self, x):
        """x is an entry of a matrix or of the rows given for one: an expression."""
        if x.op != "idx":
            return False
        b = x.args[0]
        if b.op == "attr" and b.args[1] == "elements" and b.args[0] in self.mats:
            return True
        if b.op == "idx" and b.args[0] is self.E and self.E is not None:
            return True
        if b.op == "obj" and b.args[0].kind == "list":
            key = ("entries", b)
            if key not in self.memo:
                self.memo[key] = True       # an element read from the list itself
                put = [x for e in self.r.effects if e.kind == "mut" and e.base is b for x in ((e.args[-1],) if e.name in ("append", "__setitem__", "insert") else (None,))]
                self.memo[key] = all(self.expression(self.at(y.args[0], {}, (const(0),)) if y.op == "star" else self(y)) for y in b.args[0].init) \
                    and all(x is not None and self.expression(self(x)) for x in put)
            return self.memo[key]
        return False

    def expression(self, x):
        return x.op == "symw" or x.op == "sym" and x.args[1] is not None and x.args[1].args[:1] == ("inst",) and x.args[1].args[1] is self.expr or self.entry(x) \
            or x.op == "idx" and x.args[0].op == "attr" and x.args[0].args[1] == "args" and derivative(x.args[0].args[0]) is not None or derivative(x) is not None

    # -------------------------------------------------------------- normal form

    def origin(self, k):
        """The keys of a map in any order are the keys of the map."""
        while k.op == "perm" and self.maps is None:
            k = k.args[1]
        return k

    def pos(self, L, env):
        return env.get(L) or mk("idxvar", L)

    def at(self, t, env, ks):
        """t[k1][k2]..."""
        if not ks:
            return self(t, env)
        o, a = t.op, t.args
        if t in self.alias:
            return self.at(self.alias[t], {}, ks)
        if o == "idx":
            return self.at(a[0], env, (self(a[1], env), *ks))
        if o == "elem":
            return self.at(a[0], env, (self.pos(a[1], env), *ks))
        if o == "phi":
            c = self.cond(a[0], env)
            return mk_phi(c, self.at(a[1], env, ks), self.at(a[2], env, ks))
        if o == "slice" and is_const(a[2], None) and is_const(a[3], None) and ks[0].op == "idxvar":
            lf, c = lin_of(self(a[1], env))
            return self.at(a[0], env, (mk("lin", tuple(sorted({**lf, ks[0]: 1}.items(), key=lambda x: x[0].uid)), c), *ks[1:])) if c or lf else self.at(a[0], env, ks)
        if o == "app" and a[0].op == "ext":
            f = a[0].args[0]
            if f in STRIP and len(a[1]) == 1:
                return self.at(a[1][0], env, ks)
            if f in PERMUTE and len(a[1]) == 1 and ks[0].op in ("idxvar", "perm"):
                return self.at(a[1][0], env, (mk("perm", f, ks[0]), *ks[1:]))
            if f == "builtins.range" and len(ks) == 1 and len(a[1]) == 1:
                return ks[0]
        if o == "attr" and a[1] == "entrymap" and ks[0].op in ("idxvar", "perm") and self(a[0], env) in self.mats \
                or self.maps is not None and ks[0].op in ("idxvar", "perm") and self.maps(t):
            k = mk("key", self(t, env), self.origin(ks[0]))
            return self.at(k, env, ks[1:]) if len(ks) > 1 else k
        if o == "dictview":
            d = self(a[1], env)
            k = mk("key", d, self.origin(ks[0]))
            v = self.at(a[1], env, (k,))
            x = {"keys": k, "values": v, "items": mk("tup", (k, v))}[a[0]]
            return self.at(x, env, ks[1:]) if len(ks) > 1 else x
        if o == "tup" and ks[0].op == "const" and type(ks[0].args[0]) is int and not any(x.op in ("star", "opt", "each") for x in a[0]) \
                and -len(a[0]) <= ks[0].args[0] < len(a[0]):
            return self.at(a[0][ks[0].args[0]], env, ks[1:])
        if o == "obj" and a[0].kind == "dict" and not any(e.kind == "mut" and e.base is t for e in self.r.effects):
            s = a[0].init
            if len(s) == 1 and s[0][0] is None:
                return self.at(s[0][1], env, ks)
        if (o == "obj" and a[0].kind == "list") or (o == "tup" and len(a[0]) == 1 and a[0][0].op == "star"):
            s = self.it.seq(t)
            if s is not None and len(s) == 1:
                x = s[0]
                if x[0] == "star" and not self.free(x[2], env) and x[1] is not t:
                    return self.at(x[1], env, ks)
                if x[0] == "each" and len(x[1]) == 1 and not self.free(x[2], env):
                    return self.at(x[3], {**env, x[1][0]: ks[0]}, ks[1:])
            if s is not None and ks[0].op == "const" and type(ks[0].args[0]) is int and all(x[0] == "item" and not self.free(x[2], env) for x in s) \
                    and -len(s) <= ks[0].args[0] < len(s):
                return self.at(s[ks[0].args[0]][1], env, ks[1:])
        if o == "tup" and len(a[0]) == 1 and a[0][0].op == "star":
            return self.at(a[0][0].args[0], env, ks)
        if o == "obj" and a[0].kind == "list" and self.copied(t) is not None:
            return self.at(self.copied(t), env, ks)
        out = t if o == "obj" else self(t, env)
        if out is not t:
            return self.at(out, {}, ks)
        for k in ks:
            out = mk("idx", out, k)
        return out

    def copied(self, t):
        """The sequence that a list is a copy of."""
        i = t.args[0].init
        return i[0].args[0] if len(i) == 1 and i[0].op == "star" and not any(e.kind == "mut" and e.base is t for e in self.r.effects) else None

    def env(self, e):
        """Loops over lists that were made by other loops: the element is that of the same iteration."""
        out = {}
        for L in e.loops:
            t = L.it
            for _ in range(20):
                if t is None:
                    break
                if t.op == "app" and t.args[0].op == "ext" and t.args[0].args[0] in STRIP + ("builtins.enumerate",) and t.args[1]:
                    t = t.args[1][0]
                elif t.op == "obj" and t.args[0].kind == "list" and self.copied(t) is not None:
                    t = self.copied(t)
                elif t.op == "tup" and len(t.args[0]) == 1 and t.args[0][0].op == "star":
                    t = t.args[0][0].args[0]
                else:
                    break
            while t is not None and t.op == "obj" and t.args[0].kind == "list":
                s = self.it.seq(t)
                if not s or len(s) != 1 or s[0][0] != "each" or len(s[0][1]) != 1:
                    break
                L2 = s[0][1][0]
                if L2 not in out and L2 not in e.loops:
                    out[L2] = mk("idxvar", L)
                t = L2.it
        return out

    def free(self, gate, env=None):
        """The conditions of a gate that are not settled."""
        out = []
        for l, p in gate:
            if l.op in ADMIN or l.op == "broke" and not p:
                continue
            c = self.cond(l, env or {})
            c = c if p else mk_not(c)
            if c is not TRUE:
                out += lits(c)
        return out

    def cond(self, c, env=None):
        return eval_under(self(c, env or {}), self.facts)

    def __call__(self, t, env=None):
        env = env or {}
        key = (t, tuple(sorted(((L.id, k.uid) for L, k in env.items()))))
        r = self.memo.get(key)
        if r is None:
            self.memo[key] = t
            r = self.memo[key] = self.go(t, env)
        return r

    def go(self, t, env):
        if isinstance(t, tuple):
            return tuple(self.go(x, env) if isinstance(x, (T, tuple)) else x for x in t)
        if not isinstance(t, T):
            return t
        o, a = t.op, t.args
        if t in self.alias:
            return self.alias[t]
        if o in ("const", "sym", "cls", "ext", "fn", "atom", "treeatom", "obj", "mu", "out"):
            if o == "obj" and a[0].kind == "dict" and not any(e.kind == "mut" and e.base is t for e in self.r.effects) and len(a[0].init) == 1 and a[0].init[0][0] is None:
                return self(a[0].init[0][1], env)
            return t
        if o == "idxvar":
            return self.pos(a[0], env)
        if o == "elem":
            return self.at(a[0], env, (self.pos(a[1], env),))
        if o == "idx":
            return self.at(a[0], env, (self(a[1], env),))
        if o == "key":
            if isinstance(a[1], T):
                return t
            return mk("key", self(a[0], env), self.pos(a[1], env))
        if o == "val":
            return self.at(a[0], env, (mk("key", self(a[0], env), self.pos(a[1], env)),))
        if o == "phi":
            return mk_phi(self.cond(a[0], env), self(a[1], env), self(a[2], env))
        if o == "isinst":
            x = self(a[0], env)
            if self.expression(x):
                c = a[1]
                if c.op == "cls":
                    return const(c.args[0] in self.expr.args[0].mro())
                if c.op == "ext":
                    return const(c is ext("builtins.object"))
            return self.it.isinst(x, a[1])
        if o == "attr":
            x = self(a[0], env)
            if a[1] == "rep" and x.op == "symw":
                return x.args[1]
            if a[1] == "shape" and x in self.mats:
                return mk("tup", (mk("attr", x, "nrows"), mk("attr", x, "ncols")))
            return mk("attr", x, a[1])
        if o == "symw":
            x = self(a[1], env)
            if x.op == "attr" and x.args[1] == "rep" and self.expression(x.args[0]):
                return x.args[0]
            return mk("symw", a[0], x)
        if o == "contains":
            return mk("contains", self(a[0], env), self(a[1], env))
        if o in ("all", "any") and len(a) == 2:
            x = self(a[0], env)
            n = next((f.args[2] if f.args[1] is len_(x) else f.args[1] for f in self.facts if f.op == "cmp" and f.args[0] == "==" and len_(x) in f.args[1:]), None)
            items = [mk("idx", x, const(q)) for q in range(n.args[0])] if n is not None and n.op == "const" and type(n.args[0]) is int and n.args[0] < 5 else None
            if x.op == "tup" and not any(z.op in ("star", "opt", "each") for z in x.args[0]):
                items = x.args[0]
            if items is not None and contains(a[1], lambda z: z is mk("belem", a[0])):
                return (mk_and if o == "all" else mk_or)([self(subst(a[1], {mk("belem", a[0]): z}, rebuild=rebuild_), env) for z in items])
        if o == "cmp":
            x, y = self(a[1], env), self(a[2], env)
            if a[0] == "==" or a[0] == "is":
                return self.equal(x, y)
            if a[0] in ("<", "<=", ">", ">=") and x.op == y.op == "const":
                i, j = x.args[0], y.args[0]
                return const({"<": i < j, "<=": i <= j, ">": i > j, ">=": i >= j}[a[0]])
            return mk("cmp", a[0], x, y)
        if o == "tup" and len(a[0]) == 2:
            x, y = (self(z, env) for z in a[0])
            if x.op == y.op == "idx" and x.args[0] is y.args[0] and is_const(x.args[1], 0) and is_const(y.args[1], 1):
                k = x.args[0]
                if k.op == "key" and k.args[0].op == "attr" and k.args[0].args[0] in self.mats or {self.it.isinst(k, ext("builtins.tuple")), self.it.equal(len_(k), const(2))} <= self.facts:
                    return k
        if o == "app" and a[0] is ext("builtins.len") and len(a[1]) == 1:
            x = a[1][0]
            if x.op == "app" and x.args[0] is ext("builtins.range") and len(x.args[1]) == 1:
                return self(x.args[1][0], env)      # a number from 0 on
            if x.op == "obj" and x.args[0].kind == "list":
                s = self.it.seq(x)
                if s and len(s) == 1 and not self.free(s[0][2], env) and (s[0][0] == "each" and len(s[0][1]) == 1 or s[0][0] == "star" and s[0][1] is not x and s[0][1].op != "rep"):
                    return self(len_(self.it.domain(s[0][1][0]) if s[0][0] == "each" else s[0][1]), env)
                return t
            if x.op in ("elem", "idx", "attr"):
                return mk(o, a[0], (self(x, env),), *a[2:3])
            return t
        new = tuple(self.go(x, env) if isinstance(x, (T, tuple)) else x for x in a)
        if o == "app" and len(new[1]) == 1 and not (new[2] if len(new) > 2 else ()) and (
                new[0] is self.expr or new[0].op == "app" and new[0].args[0] is ext("builtins.type") and derivative(new[0].args[1][0]) or new[0].op == "typeof" and derivative(new[0].args[0])):
            return mk("symw", self.expr, new[1][0])
        return t if new == a else rebuild_(o, new)

    def equal(self, x, y):
        if x.op == y.op == "tup" and len(x.args[0]) == len(y.args[0]) and not any(z.op in ("star", "opt", "each") for z in x.args[0] + y.args[0]):
            return mk_and([self.equal(p, q) for p, q in zip(x.args[0], y.args[0])])
        return self.it.equal(x, y)

    # -------------------------------------------------------------- lists

    def source(self, t, env=None):
        """The sequence that a list is made from element by element."""
        env = env or {}
        n = 0
        while n < 20:
            n += 1
            if t in self.alias:
                return self.alias[t]
            if t.op == "app" and t.args[0].op == "ext" and t.args[0].args[0] in STRIP + PERMUTE and len(t.args[1]) == 1:
                t = t.args[1][0]
                continue
            if t.op == "tup" and len(t.args[0]) == 1 and t.args[0][0].op == "star":
                t = t.args[0][0].args[0]
                continue
            if t.op == "obj" and t.args[0].kind == "list" and self.copied(t) is not None:
                t = self.copied(t)
                continue
            if t.op == "obj" and t.args[0].kind == "list":
                s = self.it.seq(t)
                if s is not None and len(s) == 1 and not self.free(s[0][2], env):
                    if s[0][0] == "star" and s[0][1] is not t:
                        t = s[0][1]
                        continue
                    if s[0][0] == "each" and len(s[0][1]) == 1:
                        t = self.it.domain(s[0][1][0])
                        continue
                return t
            if t.op in ("elem", "idx", "phi"):
                x = self(t, env)
                if x is not t:
                    t = x
                    continue
            return self(t, env)
        return t


def is_position(it, n):
    """What is known of a recorded position: a number from 0 on."""
    return {mk_not(mk("cmp", "<", n, const(0))), mk_not(it.equal(n, const(None))), it.isinst(n, ext("builtins.int")), mk("cmp", "<", const(-1), n)}


def known(t, leaves=()):
    """A term about the inputs, positions of loops included."""
    own = {z for z in subterms(t) if z.op in ("idxvar", "belem") or z.op == "key" and not isinstance(z.args[1], T)}
    return closed(t, set(leaves) | own) and not contains(t, lambda z: z.op in ("unk", "mu", "out", "popped", "all", "any"))


def derivative(x):
    """(expression, symbol) of a call of Expr.diff."""
    if x.op == "app" and x.args[0].op == "fn" and x.args[0].args[0].qual == DIFF and len(x.args[1]) >= 2:
        return x.args[1][0], x.args[1][1]
    return None


class Mat:
    """The fields of the matrix that an operation returns."""

    def __init__(self, ctx, name, args, view, text=CLIENT, opaque=(DIFF,), results=None):
        self.ctx, self.name = ctx, name
        self.r = r = scenario(ctx, text, name, args, opaque=opaque, results=results)
        self.at = ""
        self.good = False
        self.V = view(r)
        if not r.returns:
            ctx.bad("matrix", name, "", "never returns a matrix")
            return
        self.vals = []
        for o in r.returns:
            for g, v in phi_leaves(o.value):
                if v.op == "tup" and len(v.args[0]) == 6:
                    self.vals.append((o, v))
                else:
                    ctx.und("matrix", name, o.where(), show_(v)[:200])
                    return
        fs = {v for _, v in self.vals}
        if len(fs) != 1:
            ctx.und("matrix", name, self.vals[0][0].where(), f"{len(fs)} different results")
            return
        v = self.vals[0][1]
        for n, x in zip(FIELDS, v.args[0]):
            setattr(self, n, x)
        self.V0, self.V = self.V, self.V.normally()
        self.where = f"{r.returns[0].where()}"
        self.good = True
        self.graph()

    def note(self, verdict, what, text, where=None):
        getattr(self.ctx, verdict)("matrix", f"{self.name}: {what}", where or self.where, text)

    def judge(self, what, got, want, leaves=(), where=None):
        """want: the acceptable terms."""
        if any(got is w for w in want):
            self.note("ok", what, show_(got)[:200], where)
            return True
        if got.op == "phi":
            # whether a matrix has entries says nothing about its shape
            empty = lambda l: l[0].op == "truth" and l[0].args[0].op == "attr" and l[0].args[0].args[0].op == "sym" and l[0].args[0].args[1] in ("elements", "entrymap")
            odd = [(g, v) for g, v in phi_leaves(got) if v not in want and g and all(empty(l) for l in g) and known(v, set(leaves) | set(want))
                   and not any(contains(v, lambda z: z is l[0].args[0]) for l in g) and not contains(v, lambda z: z.op == "obj")]
            if odd:
                self.note("bad", what, f"{show_(odd[0][1])[:200]} instead of {show_(want[0])[:200]} when {show(conj(odd[0][0]))}", where)
                return False
            if all(v in want for g, v in phi_leaves(got)):
                self.note("ok", what, show_(got)[:200], where)
                return True
        if known(got, set(leaves) | set(want)) and not contains(got, lambda z: z.op == "phi"):
            self.note("bad", what, f"{show_(got)[:200]} instead of {show_(want[0])[:200]}", where)
        else:
            self.note("und", what, show_(got)[:200], where)
        return False

    def shape_is(self, nrows, ncols):
        V = self.V
        a = self.judge("nrows", V(self.nrows), nrows)
        b = self.judge("ncols", V(self.ncols), ncols)
        self.judge("shape", V(self.shape), [mk("tup", (x, y)) for x in nrows for y in ncols])
        return a and b

    def graph(self):
        """elements_graph is the List of the elements."""
        V = self.V
        g = V(self.elements_graph)
        H = self.ctx.cache.setdefault("ListHead", list_head(self.ctx))
        t = g.args[1] if g.op == "symw" else g
        if t.op == "tree" and t.args[0].op == "tup" and t.args[0].args[0] and t.args[0].args[0][0] is not H \
                and t.args[0].args[0][0].op == "treeatom":
            self.note("bad", "elements_graph", f"head {show_(t.args[0].args[0][0])}")
            return
        if t.op != "tree" or t.args[0].op != "tup" or len(t.args[0].args[0]) != 2 or t.args[0].args[0][0] is not H or t.args[0].args[0][1].op != "star":
            self.note("und", "elements_graph", show_(g)[:200])
            return
        kids = t.args[0].args[0][1].args[0]
        a, b = V.source(kids), V.source(self.elements)
        k = mk("sym", "k", T_type("int"))
        x, y = V.at(kids, {}, (k,)), V.at(self.elements, {}, (k,))
        if a is b and (x is y or x is mk("attr", y, "rep") or y.op == "symw" and x is y.args[1]):
            self.note("ok", "elements_graph", f"List of the elements {show_(y)[:100]}")
        elif a is not b and all(z.op == "attr" and z.args[0] in V.mats for z in (a, b)):
            self.note("bad", "elements_graph", f"made from {show_(a)[:100]}, the elements are from {show_(b)[:100]}")
        else:
            self.note("und", "elements_graph", f"{show_(a)[:100]} {show_(x)[:100]} for {show_(b)[:100]} {show_(y)[:100]}")


def list_head(ctx):
    it = ctx.prog.interp()
    from ..engine import State
    v = ns(ctx.prog, "List")
    return v.args[1] if v.op == "symw" else it.read_attr(v, "rep", State({}, ()))


def zero_term(ctx):
    return ns(ctx.prog, "zero", "protosym.simplecas.expr")


def base_list(V, t):
    """The list object at the end of copies of whole lists."""
    n = 0
    while n < 20:
        n += 1
        if t.op == "app" and t.args[0].op == "ext" and t.args[0].args[0] in STRIP and len(t.args[1]) == 1:
            t = t.args[1][0]
        elif t.op == "tup" and len(t.args[0]) == 1 and t.args[0][0].op == "star":
            t = t.args[0][0].args[0]
        elif t.op == "obj" and t.args[0].kind == "list" and V.copied(t) is not None:
            b = V.copied(t)
            if b.op == "attr":
                return b
            t = b
        else:
            return t
    return t


def base_dict(V, t):
    n = 0
    while t.op == "obj" and t.args[0].kind == "dict" and n < 20:
        n += 1
        if [e for e in V.r.effects if e.base is t and e.kind == "mut"]:
            return t
        s = t.args[0].init
        if len(s) != 1 or s[0][0] is not None:
            return t
        t = s[0][1]
    return t


def placed(m, e, EL):
    """The append to which the position recorded by e belongs: (append effect, True / False / None when it is not understood)."""
    V = m.V
    apps = [q for q in V.r.effects if q.kind == "mut" and q.base is EL]
    same = [q for q in apps if q.name == "append" and q.loops == e.loops and V.free(q.gate, V.env(q)) == V.free(e.gate, V.env(e))]
    if len(same) != 1:
        if len(apps) == 1 and apps[0].name == "append" and apps[0].loops == e.loops and len(e.loops) == 1 and not EL.args[0].init and not V.free(e.gate, V.env(e)):
            q = apps[0]
            own = lambda t: known(V(t), (V.E, *getattr(m, "leaves", ())))
            if lin_of(e.args[1])[0] == {mk("idxvar", e.loops[0]): 1} and all(own(l) or l.op == "contains" and l.args[0] is EL and own(l.args[1]) for l, _ in V.free(q.gate, V.env(q))):
                return q, False     # the number of the iteration, but not every iteration appends
        return None, None
    q = same[0]
    others = [x for x in apps if x is not q and (x.name != "__setitem__" or x.loops[:1] != q.loops[:1])]
    if others:
        return q, None
    lf, c = lin_of(e.args[1])
    if V.free(q.gate, V.env(q)) and lf.get(mk("idxvar", q.loops[-1]) if q.loops else None) and all(z.op in ("mu", "idxvar") or known(V(z), (V.E,)) for z in lf):
        return q, False     # moves on for entries that are not stored
    if len(lf) != 1:
        return q, (False if not lf or V.free(q.gate, V.env(q)) and known(V(e.args[1]), (V.E,)) else None)
    (n, k), = lf.items()
    if n.op == "mu" and k == 1 and not EL.args[0].init:
        return q, counter(V, n, c, q)
    if n.op == "app" and n.args[0] is ext("builtins.len") and n.args[1][0] is EL and k == 1:
        ver = next((x[1] for x in n.args[2:] if isinstance(x, tuple) and x and x[0] == "v"), None)
        if ver is None:
            return q, None
        return q, c == (0 if ver <= q.pos else -1)
    if n.op == "idxvar" and k == 1:
        # the number of the iteration: right if one element is appended in every iteration of one loop to an empty list
        if len(q.loops) == 1 and n.args[0] is q.loops[0] and not V.free(q.gate, V.env(q)) and not EL.args[0].init:
            return q, c == 0
        if EL.args[0].init or V.free(q.gate, V.env(q)) or len(q.loops) > 1:
            return q, False
    if n.op == "app" and n.args[0] is ext("builtins.len") and k == 1 and n.args[1][0].op in ("sym", "attr", "idx", "elem"):
        return q, False
    return q, None


def counter(V, n, c, q):
    """Whether a variable is the number of elements: one more after every append, from 0."""
    loops = list(q.loops)
    if not loops or n.args[0] is not loops[-1]:
        return None
    name = n.args[1]
    gate = mk_and([l if p else mk_not(l) for l, p in V.free(q.gate, V.env(q))])

    def step(b, m):
        if b is m:
            return 0
        lf, k = lin_of(b)
        if lf == {m: 1}:
            return k
        if b.op == "bin" and b.args[0] == "+" and m in b.args[1:]:
            o = b.args[2] if b.args[1] is m else b.args[1]
            return o.args[0] if o.op == "const" and type(o.args[0]) is int else None
        return None
    for i, L in enumerate(reversed(loops)):
        m = mk("mu", L, name)
        b, init = L.back.get(name), L.init.get(name)
        if b is None or init is None or L.breaks:
            return None
        if i:
            if b is not mk("out", loops[len(loops) - i], name):
                return None
        else:
            ls = [(V.cond(mk_and([l if p else mk_not(l) for l, p in g])), step(x, m)) for g, x in phi_leaves(b)]
            ls = [x for x in ls if x[0] is not FALSE]
            if any(x[1] is None for x in ls):
                return None
            moved = [x for x in ls if x[1]]
            if len(moved) != 1 or moved[0][0] is not gate:
                return False if not moved or len(ls) == 1 else None
            if moved[0][1] != 1:
                return False
        if len(loops) - 1 > i:
            if init is not mk("mu", loops[-2 - i], name):
                return False if init.op == "const" else None
        elif not is_const(init, 0):
            return False if init.op == "const" else None
    return c == 0


def rows_cols(V, L):
    """'rows' / 'cols' / None: what a loop goes over, completely."""
    d = V.it.domain(L)
    if getattr(L, "breaks", None):
        return None
    if d.op == "app" and d.args[0] is ext("builtins.range") and len(d.args[1]) == 1:
        n = V(d.args[1][0])
        if n is len_(V.E):
            return "rows"
        if n.op == "app" and n.args[0] is ext("builtins.len") and n.args[1][0].op == "idx" and n.args[1][0].args[0] is V.E:
            return "cols"
        return None
    b = V.source(d)
    if b is V.E:
        return "rows"
    if b.op == "idx" and b.args[0] is V.E:
        return "cols"
    return None


def built(ctx):
    """Matrix(entries)."""
    E = mk("sym", "entries", T_type("list"))
    m = Mat(ctx, "new", [E], lambda r: View(ctx, r, entries=E))
    zero = zero_term(ctx)
    if not m.good:
        return
    V = m.V
    m.shape_is([len_(E)], [len_(mk("idx", E, const(0))), len_(mk("idx", E, const(-1)))])
    EM, EL = base_dict(V, m.entrymap), base_list(V, m.elements)
    if EM.op != "obj" or EL.op != "obj":
        m.note("und", "entries", f"{show_(EM)[:100]} {show_(EL)[:100]}")
        return
    ws = [e for e in V.r.effects if e.kind == "mut" and e.base is EM]
    if shared(m, EM, ws):
        return
    if len(ws) != 1 or ws[0].name != "__setitem__" or EM.args[0].init:
        m.note("und", "entries", f"{len(ws)} writes to the map of entries")
        return
    w, = ws
    env = V.env(w)
    key = V(w.args[0], env)
    if key.op == "tup" and len(key.args[0]) == 2 and len(w.loops) == 2 and all(z.op == "idxvar" for z in key.args[0]):
        kinds = [rows_cols(V, z.args[0]) for z in key.args[0]]
        if kinds == ["rows", "cols"]:
            m.note("ok", "place of an entry", f"(row, column) = {show_(key)}", w.where())
        elif kinds == ["cols", "rows"]:
            m.note("bad", "place of an entry", "the entry of row i and column j is recorded at (j, i)", w.where())
        else:
            for z, kd, what in zip(key.args[0], kinds, ("rows", "columns")):
                d = V.it.domain(z.args[0])
                if kd is None and (d.op == "slice" or d.op == "app" and d.args[0] is ext("builtins.range")) and closed(d, (E,)) and not contains(d, lambda z: z.op == "obj"):
                    m.note("bad", "place of an entry", f"only {what} in {show_(d)[:100]} are used", w.where())
                    return
            m.note("und", "place of an entry", f"loops over {kinds}", w.where())
            return
    else:
        cl = closed(key, (E,)) and not contains(key, lambda z: z.op in ("obj", "mu", "out"))
        m.note("bad" if cl and len(w.loops) == 2 and all(rows_cols(V, L) for L in w.loops) else "und", "place of an entry", f"recorded as {show_(key)[:100]}", w.where())
        return
    i, j = key.args[0]
    x = mk("idx", mk("idx", E, i), j)
    g = V.free(w.gate, env)
    nz = mk_not(V.equal(zero, x))
    lt = lambda a, b: mk("cmp", "<", a, b)
    always = {mk_not(lt(i, const(0))), mk_not(lt(j, const(0))), lt(i, len_(E)), lt(j, len_(mk("idx", E, const(0)))), lt(j, len_(mk("idx", E, i))), mk_not(V.it.equal(x, const(None))),
              mk_not(mk("contains", EM, mk("tup", (i, j))))}
    left = [t for t in (l if p else mk_not(l) for l, p in g) if t not in always and eval_under(t, V.facts) is not TRUE]
    if not left or left == [nz]:
        m.note("ok", "entries that are stored", f"those with {show_(conj(g))}" if g else "all", w.where())
    elif all(t is nz or t is mk_not(mk("contains", EL, x)) or known(t, (E, x)) for t in left):
        # an entry that is left out although it is not zero
        m.note("bad", "entries that are stored", f"an entry is only stored when {show_(mk_and(left))[:200]}", w.where())
    else:
        m.note("und", "entries that are stored", show_(mk_and(left))[:200], w.where())
    q, right = placed(m, w, EL)
    if right:
        m.note("ok", "position of an entry", show_(w.args[1]), w.where())
    elif right is False:
        m.note("bad", "position of an entry", f"position {show_(w.args[1])} is recorded, the entry is stored somewhere else", w.where())
    else:
        m.note("und", "position of an entry", show_(w.args[1]), w.where())
    if q is not None:
        m.judge("value of an entry", V(q.args[0], V.env(q)), [x], (E,), q.where())
    errors(m, E)


def shared(m, EM, ws, verdict="bad"):
    """Equal entries are given one position although a sum changes the element at the position of one place."""
    V = m.V

    def by_value(t):
        if t.op == "seqop" and t.args[0] == "index" and t.args[1].op == "obj":
            return t.args[2][0] if isinstance(t.args[2], tuple) else t.args[2]
        k = D = None
        if t.op == "idx":
            D, k = t.args[:2]
        elif t.op == "app" and t.args[0].op == "attr" and t.args[0].args[1] in ("get", "setdefault") and t.args[1]:
            D, k = t.args[0].args[0], t.args[1][0]
        if D is None or D.op != "obj" or D.args[0].kind != "dict" or D is EM or D.args[0].init:
            return None
        return k
    for w in ws:
        if w.name != "__setitem__":
            continue
        p = V(w.args[1], V.env(w))
        for t in subterms(p):
            k = by_value(t)
            if k is None:
                continue
            x = V(k, V.env(w))
            if x.op == "idx" and x.args[0].op in ("idx", "app") and x is not p and overwritten(m.ctx):
                m.note(verdict, "position of an entry", f"places with the same entry {show_(x)[:60]} share one position, whose element a sum replaces for one of them", w.where())
                return True
    return False


def overwritten(ctx):
    """Does addition replace the element at the position of a place of the first matrix?"""
    if "overwritten" not in ctx.cache:
        M, N = matrices(ctx, "M", "N")
        r = scenario(ctx, CLIENT, "add", [M, N], opaque=(DIFF,))
        V = View(ctx, r, mats=(M, N))
        places = mk("attr", M, "entrymap")

        def position(p):
            q = V(p)
            return contains(q, lambda z: z.op == "idx" and (z.args[0] is places or z.args[0].op == "obj" and z.args[0].args[0].kind == "dict"))
        ctx.cache["overwritten"] = any(e.kind == "mut" and e.name == "__setitem__" and e.base.op == "obj" and e.base.args[0].kind == "list" and position(e.args[0])
                                       and V(e.args[1], V.env(e)).op != "idx" for e in r.effects)
    return ctx.cache["overwritten"]


def errors(m, E):
    """Rows that are not lists or have different lengths."""
    V, r = m.V0, m.r
    n0 = len_(mk("idx", E, const(0)))
    row = mk("belem", E)
    lists = mk("all", E, r.it.isinst(row, ext("builtins.list")))
    equal = mk("all", E, r.it.equal(n0, len_(row)))
    is_list = r.it.isinst(E, ext("builtins.list"))

    def about_lists(t):
        return t.op == "isinst" and t.args[1] is ext("builtins.list") and t.args[0] is not E

    def about_length(t):
        return t.op == "app" and t.args[0] is ext("builtins.len") and t.args[1][0] is not E and not is_first(t.args[1][0])

    def is_first(t):
        return t.op == "idx" and t.args[0] is E and t.args[1].op == "const"

    def differs(t, L):
        """The condition of a single row."""
        x = mk("idx", E, mk("idxvar", L))
        return t in (mk_not(V.equal(n0, len_(x))), mk_not(V.equal(len_(mk("idx", E, const(-1))), len_(x))))

    for what, facts, about in (("rows that are not lists", {is_list, mk_not(lists)}, about_lists), ("rows of different length", {is_list, lists, mk_not(equal)}, about_length)):
        W = V.under(facts)
        ret = mk_or([mk_and([W.cond(l if p else mk_not(l)) for l, p in o.gate if l.op not in ADMIN]) for o in r.returns])
        ret = eval_under(ret, W.facts)
        rz = [o for o in r.raises if mk_and([W.cond(l if p else mk_not(l)) for l, p in o.gate if l.op not in ADMIN]) is TRUE]
        one = None
        for o in r.raises:
            ls = [(l, p) for l, p in V.free(o.gate) if contains(l, about)]
            if len(o.loops) == 1 and len(ls) == 1:
                l, p = ls[0]
                t = V(l) if p else mk_not(V(l))
                x = mk("idx", E, mk("idxvar", o.loops[0]))
                if about is about_lists and t is mk_not(r.it.isinst(x, ext("builtins.list"))) or about is about_length and differs(t, o.loops[0]):
                    one = o
        uses = [o for o in r.raises for l, p in o.gate if contains(l, about) and o is not one]
        free_ = ret is TRUE or closed(ret, (E,)) and not contains(ret, about) and not contains(ret, lambda z: z.op in ("unk", "mu", "out"))
        if ret is FALSE and rz and all("TypeError" in exc_names(raised_class(m.ctx.prog, o.value)) for o in rz):
            m.note("ok", what, show_(rz[0].value), rz[0].where())
        elif one is not None and "TypeError" in exc_names(raised_class(m.ctx.prog, one.value)):
            m.note("ok", what, show_(one.value), one.where())
        elif rz or one is not None:
            o = one or rz[0]
            names = exc_names(raised_class(m.ctx.prog, o.value))
            m.note("ok" if names & {"TypeError", "ValueError"} else "und", what, f"raises {show_(o.value)}", o.where())
        elif free_ and not uses:
            m.note("bad", what, "not rejected")
        elif about is about_length and any(one_sided(l, E) for o in r.raises for l, p in V.free(o.gate)):
            l = next(l for o in r.raises for l, p in V.free(o.gate) if one_sided(l, E))
            m.note("bad", what, f"only rejected when {show_(l)[:200]}")
        else:
            m.note("und", what, show_(ret)[:200])


def one_sided(t, E):
    """An order between the lengths of rows."""
    def length(q):
        return q.op == "app" and q.args[0] is ext("builtins.len") and (q.args[1][0].op == "belem" or q.args[1][0].op in ("idx", "elem") and q.args[1][0].args[0] is E)
    return contains(t, lambda z: z.op in ("all", "any") and z.args[1].op in ("cmp", "not") and contains(z.args[1], lambda c: c.op == "cmp" and c.args[0] in ("<", "<=", ">", ">=")
                                                                                                       and all(length(q) for q in c.args[1:]))
                    and not contains(z.args[1], lambda c: c.op in ("and", "or")))


# ------------------------------------------------------------------ sums

def matrices(ctx, *names):
    c = ctx.prog.cls_term(MATRIX)
    return [mk("sym", n, T_type("inst", c)) for n in names]


def is_place(it, k, *mats):
    """A place of a matrix is a pair of integers inside of its shape (and the shapes are equal where two matrices are added)."""
    out = {it.isinst(k, ext("builtins.tuple")), it.equal(mk("app", LEN, (k,), ()), const(2))}
    for i, n in ((0, "nrows"), (1, "ncols")):
        x = mk("idx", k, const(i))
        out |= {it.isinst(x, ext("builtins.int")), mk_not(mk("cmp", "<", x, const(0)))} | {mk("cmp", "<", x, mk("attr", m, n)) for m in mats}
        out |= {mk("cmp", "<", x, mk("idx", mk("attr", m, "shape"), const(i))) for m in mats}
    return out


def added(ctx, name="add"):
    M, N = matrices(ctx, "M", "N")
    f = mk("sym", "f", T_type("inst", ctx.prog.cls_term(EXPR)))
    m = Mat(ctx, name, [M, N] + ([f] if name == "binop" else []), lambda r: View(ctx, r, mats=(M, N)))
    if not m.good:
        return
    V, r = m.V, m.r
    at = lambda x, n: mk("attr", x, n)
    m.shape_is([at(M, "nrows"), at(N, "nrows")], [at(M, "ncols"), at(N, "ncols")])
    mismatch(m, M, N)
    EM, EL = base_dict(V, m.entrymap), base_list(V, m.elements)
    for t, n in ((EM, "entrymap"), (EL, "elements")):
        if t.op == "attr" and t.args[0] in (M, N) and t.args[1] == n:
            if any(e.kind == "mut" and e.base is t for e in r.effects):
                m.note("bad", "entries", f"changes {show_(t)}")
                return
    if EM.op != "obj" or EL.op != "obj":
        m.note("und", "entries", f"{show_(EM)[:100]} {show_(EL)[:100]}")
        return
    src = EM.args[0].init
    b = src[0][1] if len(src) == 1 and src[0][0] is None else None
    li = [x for x in EL.args[0].init]
    l = li[0].args[0] if len(li) == 1 and li[0].op == "star" else None
    if b is None or l is None or b.op != "attr" or l.op != "attr":
        m.note("und", "entries", f"{show_(EM)[:100]} {show_(EL)[:100]}")
        return
    X = b.args[0]
    if b.args[1] != "entrymap" or l.args[1] != "elements" or l.args[0] is not X or X not in (M, N):
        m.note("bad" if l.args[0] in (M, N) and X in (M, N) else "und", "entries", f"starts with {show_(b)} and {show_(l)}")
        return
    Y = N if X is M else M
    V.alias = {EM: b, EL: l}
    V.memo.clear()
    loops = {e.loops for e in r.effects if e.kind == "mut" and e.base in (EM, EL)}
    if not loops:
        m.note("bad", "entries", f"the entries of {show_(Y)} are not used")
        return
    if len(loops) != 1 or len(next(iter(loops))) != 1:
        m.note("und", "entries", f"{len(loops)} loops")
        return
    L, = next(iter(loops))
    d = V.it.domain(L)
    while d.op == "app" and d.args[0].op == "ext" and d.args[0].args[0] in STRIP + PERMUTE and len(d.args[1]) == 1:
        d = d.args[1][0]
    d = d.args[1] if d.op == "dictview" and d.args[0] in ("items", "keys") else d
    d = V(d)
    if d is not at(Y, "entrymap"):
        if d.op == "slice" and closed(d):
            m.note("bad", "entries", f"only the entries {show_(d)[:100]} are used")
        elif d is b:
            m.note("bad", "entries", f"goes over the entries of {show_(X)} again")
        else:
            m.note("und", "entries", f"loop over {show_(d)[:100]}")
        return
    if getattr(L, "breaks", None):
        gs = [V.free(g) for g, _ in L.breaks]
        m.note("bad" if all(known(conj(g), (M, N)) for g in gs if g) else "und", "entries", "the loop over the entries can end early")
        return
    keys = {x for e in r.effects if e.loops == (L,) for a in list(e.args) + [g[0] for g in e.gate] if isinstance(a, T) for x in subterms(V(a))
            if x.op == "key" and x.args[0] is d}
    if len(keys) != 1:
        m.note("und", "entries", f"keys {[show_(k) for k in keys]}")
        return
    k, = keys
    E = lambda Z: mk("idx", at(Z, "elements"), mk("idx", at(Z, "entrymap"), k))
    both = mk("contains", b, k)
    fun = tree_of(ctx, f, E(M), E(N)) if name == "binop" else tree_of(ctx, ns(ctx.prog, "Add"), E(M), E(N))
    zero = zero_term(ctx)
    one_side = [E(Y)] + ([tree_of(ctx, ns(ctx.prog, "Add"), *((E(Y), zero) if Y is M else (zero, E(Y))))] if name == "add" else [])
    for fact, what in ((both, "an entry of both"), (mk_not(both), f"an entry of {show_(Y)} only")):
        W = V.under({fact} | is_position(V.it, mk("idx", b, k)) | is_position(V.it, mk("idx", d, k)) | is_place(V.it, k, M, N) | {mk("contains", d, k)})
        es = [(e, W.free(e.gate)) for e in r.effects if e.kind == "mut" and e.base in (EM, EL) and not any(
            eval_under(W.cond(g[0]) if g[1] else mk_not(W.cond(g[0])), W.facts) is FALSE for g in e.gate if g[0].op not in ADMIN)]
        label = what
        open_ = [g for e, g in es if g]
        if open_:
            g = conj(open_[0])
            m.note("bad" if known(g, (M, N, k)) else "und", label, f"only when {show_(g)[:200]}",
                   [e for e, g in es if g][0].where())
            continue
        es = [e for e, _ in es]
        sets = [e for e in es if e.base is EL and e.name == "__setitem__"]
        apps = [e for e in es if e.base is EL and e.name == "append"]
        maps = [e for e in es if e.base is EM and e.name == "__setitem__"]
        if len(sets) + len(apps) + len(maps) != len(es):
            m.note("und", label, "; ".join(e.name for e in es))
            continue
        want = [fun] if fact is both else one_side
        if fact is both and len(sets) == 1 and not apps:
            s = sets[0]
            p = W(s.args[0])
            if not maps or all(W(e.args[0]) is k and W(e.args[1]) is mk("idx", b, k) for e in maps):
                m.judge(label + ", position", p, [mk("idx", b, k)], (M, N, k), s.where())
            else:
                m.note("und", label, "the place is changed as well", maps[0].where())
            m.judge(label, W(s.args[1]), want, (M, N, k, f), s.where())
        elif len(maps) == 1 and len(apps) == 1 and not sets:
            e, = maps
            if W(e.args[0]) is not k:
                m.note("bad" if closed(W(e.args[0]), (k,)) else "und", label + ", place", f"recorded at {show_(W(e.args[0]))[:100]}", e.where())
                continue
            W.alias = V.alias
            n, c = lin_of(e.args[1])
            q, right = placed_now(W, e, apps[0], EL)
            m.note({True: "ok", False: "bad", None: "und"}[right], label + ", position", f"{show_(e.args[1])[:100]}", e.where())
            m.judge(label, W(apps[0].args[0]), want, (M, N, k, f), apps[0].where())
        elif not es:
            m.note("bad", label, "is left out")
        elif fact is not both and len(maps) == 1 and not apps and not sets or fact is not both and apps and not maps and len(apps) == 1:
            m.note("bad", label, "the entry is stored without its place" if apps else "the place is recorded without the entry", es[0].where())
        elif fact is both and apps and not maps and not sets:
            m.note("bad", label, "the result is not stored at the place of the entry", es[0].where())
        else:
            m.note("und", label, "; ".join(f"{e.name} {show_(e.base)[:40]}" for e in es), es[0].where())


def placed_now(W, e, q, EL):
    """Whether the position recorded by e is where q appends."""
    lf, c = lin_of(e.args[1])
    if len(lf) == 1:
        (n, k), = lf.items()
        if n.op == "app" and n.args[0] is ext("builtins.len") and k == 1:
            if n.args[1][0] is EL:
                ver = next((x[1] for x in n.args[2:] if isinstance(x, tuple) and x and x[0] == "v"), None)
                return q, None if ver is None else c == (0 if ver <= q.pos else -1)
            x = n.args[1][0]
            if x.op == "attr" and x.args[0] in W.mats:
                return q, False     # does not grow with the list
            if x.op == "obj" and x.args[0].kind == "dict":
                return q, None      # as many places as elements
        if n.op == "idxvar" and EL.args[0].init:
            return q, False
    x = W(e.args[1])
    if x.op == "idx" and x.args[0].op == "attr" and x.args[0].args[0] in W.mats and x.args[0].args[1] == "entrymap":
        return q, False         # the position in another matrix
    return q, None


def tree_of(ctx, f, *args):
    c = ctx.prog.cls_term(EXPR)
    h = f.args[1] if f.op == "symw" else mk("attr", f, "rep")
    return mk("symw", c, tree(h, *(a.args[1] if a.op == "symw" else mk("attr", a, "rep") for a in args)))


def mismatch(m, M, N):
    """Different shapes raise an error."""
    V = m.V0
    at = lambda x, n: mk("attr", x, n)
    eqs = [V.it.equal(at(M, n), at(N, n)) for n in ("nrows", "ncols")]
    for n, fact in (("numbers of rows", (mk_not(eqs[0]), eqs[1])), ("numbers of columns", (eqs[0], mk_not(eqs[1]))), ("numbers of rows and columns", tuple(mk_not(x) for x in eqs))):
        W = V.under(fact)
        ret = mk_or([mk_and([W.cond(l if p else mk_not(l)) for l, p in o.gate if l.op not in ADMIN]) for o in m.r.returns])
        ret = eval_under(ret, W.facts)
        rz = [o for o in m.r.raises if mk_and([W.cond(l if p else mk_not(l)) for l, p in o.gate if l.op not in ADMIN]) is TRUE]
        if ret is FALSE and rz:
            m.note("ok", f"different {n}", show_(rz[0].value), rz[0].where())
        elif ret is FALSE:
            m.note("und", f"different {n}", "no result")
        elif closed(ret) and not contains(ret, lambda z: z.op in ("obj", "unk", "inloop")) or ret is TRUE:
            m.note("bad", f"different {n}", "not rejected")
        elif contains(ret, lambda z: z.op == "cmp" and any(contains(z, lambda y: y in (at(x, q) for q in ("nrows", "ncols"))) for x in (M, N))):
            m.note("und", f"different {n}", show_(ret)[:200])
        else:
            m.note("bad" if not m.r.it.unmodelled else "und", f"different {n}", "not rejected")


def differentiated(ctx):
    M, = matrices(ctx, "M")
    s = mk("sym", "s", T_type("inst", ctx.prog.cls_term(EXPR)))
    m = Mat(ctx, "diff", [M, s], lambda r: View(ctx, r, mats=(M,)))
    if not m.good:
        return
    V = m.V
    at = lambda x, n: mk("attr", x, n)
    m.shape_is([at(M, "nrows")], [at(M, "ncols")])
    whole = places(m, base_dict(V, m.entrymap), at(M, "entrymap"))
    src = V.source(m.elements)
    k = mk("sym", "k", T_type("int"))
    x = V.at(m.elements, {}, (k,))
    if src.op == "slice" and is_const(src.args[1], 1) and is_const(src.args[2], None) and is_const(src.args[3], None) and src.args[0].op == "attr" and src.args[0].args[1] == "children" \
            and src.args[0].args[0].op == "attr" and src.args[0].args[0].args[1] == "rep" and x is mk("symw", V.expr, mk("idx", src, k)):
        D = src.args[0].args[0].args[0]     # the operands
        src = mk("attr", D, "args")
        x = mk("idx", src, k)
    e = mk("idx", at(M, "elements"), k)
    if src.op == "attr" and src.args[1] == "args" and x is mk("idx", src, k):
        d = derivative(src.args[0])
        if d is None:
            m.note("und", "elements", show_(src)[:200])
            return
        times(m, src.args[0])
        (m.note("ok", "elements", show_(src)) if d == (at(M, "elements_graph"), s) else m.note("bad" if closed(mk("tup", d)) else "und", "elements", f"operands of {show_(src)[:200]}"))
    elif src is at(M, "elements") and derivative(x) is not None:
        d = derivative(x)
        times(m, x)
        (m.note("ok", "elements", show_(x)) if d == (e, s) else m.note("bad" if closed(mk("tup", d)) else "und", "elements", show_(x)[:200]))
    elif src.op == "slice" and V(src.args[0]).op == "attr" and (derivative(V(src.args[0]).args[0]) is not None or V(src.args[0]) is at(M, "elements") and derivative(x) is not None) \
            and not (is_const(src.args[1], None) and is_const(src.args[2], None)):
        m.note("bad", "elements", f"only {show_(src)[:200]}")
    elif whole and left_out(m, src):
        m.note("bad", "elements", f"an element is left out unless {left_out(m, src)[:200]}, its place is not")
    elif src.op == "attr" and src.args[0] is M or x is e:
        m.note("bad", "elements", f"the elements are {show_(x)[:200]}")
    else:
        m.note("und", "elements", f"{show_(x)[:150]} for {show_(src)[:150]}")


def left_out(m, t):
    """The condition under which an element of the matrix becomes an element of the list t."""
    V = m.V
    s = V.it.seq(t) if t.op == "obj" and t.args[0].kind == "list" else None
    if s is None or len(s) != 1 or s[0][0] not in ("each", "star") or s[0][0] == "each" and len(s[0][1]) != 1:
        return None
    g = V.free(s[0][2])
    c = conj(g)
    src = V.source(V.it.domain(s[0][1][0])) if s[0][0] == "each" else None
    ok = {z for z in subterms(c) if derivative(z) is not None}
    ok |= {z for z in subterms(src) if derivative(z) is not None} if src is not None else set()
    if g and src is not None and known(src, {*ok, *V.mats}) and known(c, {*ok, *V.mats}):
        return show_(c)
    return None


def places(m, t, want):
    """The map of the result is that of the matrix."""
    V = m.V
    if t.op == "obj" and t.args[0].kind == "dict" and not t.args[0].init:
        ws = [e for e in V.r.effects if e.kind == "mut" and e.base is t]
        if len(ws) == 1 and ws[0].name == "__setitem__" and len(ws[0].loops) == 1 and not ws[0].loops[0].breaks:
            w, = ws
            key, n = V(w.args[0], V.env(w)), V(w.args[1], V.env(w))
            g = V.free(w.gate, V.env(w))
            k = key if key.op == "key" and key.args[0] is want else None
            if k is None:
                m.note("bad" if known(key, V.mats) else "und", "entrymap", f"recorded at {show_(key)[:200]}", w.where())
            elif g:
                m.note("bad" if known(conj(g), V.mats) else "und", "entrymap", f"a place is only kept when {show_(conj(g))[:200]}", w.where())
            elif n is mk("idx", want, k):
                m.note("ok", "entrymap", show_(n), w.where())
                return True
            else:
                m.note("bad" if known(n, V.mats) else "und", "entrymap", f"position {show_(n)[:200]} instead of {show_(mk('idx', want, k))}", w.where())
            return False
    return m.judge("entrymap", t, [want], V.mats)


def times(m, t):
    """The number of times that is passed on."""
    rest = list(t.args[1][2:]) + [v for _, v in (t.args[2] if len(t.args) > 2 and isinstance(t.args[2], tuple) else ()) if isinstance(v, T)]
    if rest and not all(is_const(x, 1) for x in rest):
        m.note("bad" if all(x.op == "const" for x in rest) else "und", "order", f"differentiates {', '.join(map(show_, rest))} times")


# ------------------------------------------------------------------ reading

def reading(ctx):
    M, = matrices(ctx, "M")
    i, j = (mk("sym", n, T_type("int")) for n in "ij")
    r = scenario(ctx, CLIENT, "get", [M, i, j])
    at = lambda n: mk("attr", M, n)
    zero = zero_term(ctx)
    ij = mk("tup", (i, j))
    n = mk("idx", at("entrymap"), ij)
    x = mk("idx", at("elements"), n)
    has = mk("contains", at("entrymap"), ij)
    lt = lambda a, b: mk("cmp", "<", a, b)
    inside = {mk_not(lt(i, const(0))), lt(i, at("nrows")), mk_not(lt(j, const(0))), lt(j, at("ncols"))}
    ints = {r.it.isinst(z, ext("builtins.int")) for z in (i, j)}
    where = where_of(r)
    for facts, what, want in (({has}, "a stored entry", x), ({mk_not(has)}, "an entry that is not stored", zero)):
        V = View(ctx, r, mats=(M,), facts=facts | inside | ints | is_position(r.it, n))
        verdict = ok = None
        left = []
        for o in r.returns + r.raises:
            c = mk_and([V.cond(l if p else mk_not(l)) for l, p in o.gate if l.op not in ADMIN])
            if c is FALSE:
                continue
            for g, v in phi_leaves(V(o.value)):
                cc = eval_under(mk_and([c, *(V.cond(l if p else mk_not(l)) for l, p in g)]), V.facts)
                if cc is FALSE:
                    continue
                left.append((o, cc, v if o in r.returns else None))
        bad = [(o, c, v) for o, c, v in left if v is not want]
        if left and not bad:
            ctx.ok("index", what, where, show_(want))
            continue
        o, c, v = bad[0] if bad else (None, None, None)
        # a wrong value under a condition that can hold: on the position (any number from 0 on) or none at all
        sure = bad and (c is TRUE or free_of_position(c, n, at, i, j))
        if o is None:
            ctx.und("index", what, where, "no result")
        elif sure and (v is None or known(v, (M, i, j))):
            ctx.bad("index", what, o.where(), (f"gives {show_(v)[:200]}" if v is not None else f"raises {show_(o.value)[:100]}") + (f" when {show_(c)[:100]}" if c is not TRUE else ""))
        else:
            ctx.und("index", what, o.where(), f"{show_(v)[:100] if v is not None else show_(o.value)[:100]} when {show_(c)[:100]}")
    for lit, what in ((lt(i, const(0)), "a negative row"), (mk_not(lt(i, at("nrows"))), "a row beyond the last"),
                      (lt(j, const(0)), "a negative column"), (mk_not(lt(j, at("ncols"))), "a column beyond the last")):
        neg = {mk_not(z) for z in (lit,)}
        base = {z for z in inside if z not in neg} | {lit}
        if lit is lt(i, const(0)):
            base |= {lt(i, at("nrows"))}
        elif lit is lt(j, const(0)):
            base |= {lt(j, at("ncols"))}
        elif lit is mk_not(lt(i, at("nrows"))):
            base |= {mk_not(lt(i, const(0)))}
        else:
            base |= {mk_not(lt(j, const(0)))}
        fails(ctx, r, base | ints | {mk_not(has)}, M, what, "IndexError", (M, i, j))
    ij = mk("sym", "ij", None)
    r = scenario(ctx, CLIENT, "item", [M, ij])
    V = View(ctx, r)
    I = [mk("idx", ij, const(q)) for q in (0, 1)]
    tup, two = r.it.isinst(ij, ext("builtins.tuple")), r.it.equal(len_(ij), const(2))
    ints = [r.it.isinst(z, ext("builtins.int")) for z in I]
    for facts, what in (({mk_not(tup)}, "an index that is not a tuple"), ({tup, mk_not(two)}, "a tuple that is not a pair"),
                        ({tup, two, mk_not(ints[0]), ints[1]}, "a row that is no integer"), ({tup, two, ints[0], mk_not(ints[1])}, "a column that is no integer")):
        fails(ctx, r, facts, M, what, "TypeError", (M, ij))


def free_of_position(c, n, at, i, j):
    """The condition is only about the stored position (or is another test that some position passes)."""
    ok = True
    for l, p in lits(c):
        t = l
        if t.op == "truth" and t.args[0] is n or t.op == "contains" and t.args[0] is at("entrymap") and t.args[1] is not mk("tup", (i, j)) and known(t.args[1], (i, j)) or t.op == "cmp" and n in t.args[1:] and any(z.op == "const" for z in t.args[1:]):
            continue
        if t.op == "cmp" and {*t.args[1:]} & {i, j} and all(z in (i, j, at("nrows"), at("ncols")) or z.op == "const" for z in t.args[1:]):
            continue
        ok = False
    return ok


def fails(ctx, r, facts, M, what, error, leaves):
    V = View(ctx, r, mats=(M,), facts=facts)
    ret = [o for o in r.returns if mk_and([V.cond(l if p else mk_not(l)) for l, p in o.gate if l.op not in ADMIN]) is not FALSE]
    rz = [(o, mk_and([V.cond(l if p else mk_not(l)) for l, p in o.gate if l.op not in ADMIN])) for o in r.raises]
    rz = [(o, c) for o, c in rz if c is not FALSE]
    where = where_of(r)
    if ret:
        c = mk_and([V.cond(l if p else mk_not(l)) for l, p in ret[0].gate if l.op not in ADMIN])
        ok = known(c, leaves)
        missing = contains(V(ret[0].value), lambda z: z.op == "missing")
        (ctx.bad if ok and not missing and not r.it.unmodelled else ctx.und)("index", what, ret[0].where(), f"gives {show_(V(ret[0].value))[:200]}" + (f" when {show_(c)[:100]}" if c is not TRUE else ""))
    elif all(error in exc_names(raised_class(ctx.prog, o.value)) for o, _ in rz) and rz:
        ctx.ok("index", what, rz[0][0].where(), show_(rz[0][0].value))
    elif rz:
        o = next(o for o, _ in rz if error not in exc_names(raised_class(ctx.prog, o.value)))
        names = exc_names(raised_class(ctx.prog, o.value))
        (ctx.ok if names & {"IndexError", "TypeError", "ValueError", "LookupError"} else ctx.und)("index", what, o.where(), show_(o.value))
    else:
        ctx.und("index", what, where, "neither result nor error")


# ------------------------------------------------------------------ listing

def listing(ctx):
    M, = matrices(ctx, "M")
    r = scenario(ctx, CLIENT, "tolist", [M])
    for o in r.returns:
        listed(ctx, r, M, o.value, "tolist", o.where())
    if not r.returns:
        ctx.bad("list", "tolist", where_of(r), "never returns")
    for name in ("text", "plain_text"):
        r = scenario(ctx, CLIENT, name, [M])
        if len(r.returns) != 1:
            ctx.und("list", name, where_of(r), f"{len(r.returns)} results")
            continue
        o = r.returns[0]
        v = o.value
        if name == "plain_text" and (v.op == "app" or v.op == "unk") and "__str__" not in {k for c in ctx.prog.cls_term(MATRIX).args[0].mro() for k in getattr(c, "ns", {})}:
            ctx.ok("list", "str()", o.where(), "the same as repr()")
            continue
        parts = list(v.args[0]) if v.op == "fmt" else []
        holes = [p for p in parts if p[0] != "lit"]
        if len(holes) == 1 and isinstance(holes[0][1], T):
            lit = "".join(p[1] for p in parts if p[0] == "lit")
            listed(ctx, r, M, holes[0][1], {"text": "repr()", "plain_text": "str()"}[name], o.where())
            if not (lit.startswith("Matrix(") and lit.endswith(")")):
                ctx.und("list", name, o.where(), f"text {lit}")
        else:
            ctx.und("list", name, o.where(), show_(v)[:200])


def listed(ctx, r, M, v, what, where):
    """v is the list of the rows of M."""
    V = View(ctx, r, mats=(M,))
    it = r.it
    zero = zero_term(ctx)
    at = lambda n: mk("attr", M, n)
    if v.op == "unk" or v.op != "obj" or v.args[0].kind != "list":
        x = V(v)
        if x.op == "attr" and x.args[0] is M:
            ctx.bad("list", what, where, f"is {show_(x)}")
        else:
            ctx.und("list", what, where, show_(v)[:200])
        return
    s = it.seq(v)
    muts = [e for e in r.effects if e.kind == "mut" and e.base is v and e.name != "append"]
    if s is None or len(s) != 1 or muts:
        ctx.und("list", what, where, show_(v)[:200])
        return
    x = s[0]
    if x[0] == "star" and x[1].op == "rep":
        rows, n = x[1].args
        if rows.op == "tup" or rows.op == "obj":
            writes = [e for e in r.effects if e.kind == "mut" and e.name == "__setitem__"]
            if writes:
                ctx.bad("list", f"{what}: rows", where, "all rows are the same list")
                return
        ctx.und("list", what, where, show_(x[1])[:200])
        return
    if x[0] != "each" or len(x[1]) != 1 or V.free(x[2]):
        ctx.und("list", what, where, show_(v)[:200])
        return
    L, = x[1]
    if not full(ctx, V, L, at("nrows"), what, "rows", where):
        return
    row = x[3]
    if row.op != "obj" or row.args[0].kind != "list":
        ctx.und("list", what, where, show_(row)[:200])
        return
    s2 = it.seq(row)
    i = mk("idxvar", L)
    if s2 is not None and len(s2) == 1 and s2[0][0] == "each" and len(s2[0][1]) == 1 and not V.free(s2[0][2]):
        L2 = s2[0][1][0]
        if not full(ctx, V, L2, at("ncols"), what, "columns", where):
            return
        j = mk("idxvar", L2)
        k = mk("tup", (i, j))
        has = mk("contains", at("entrymap"), k)
        n = mk("idx", at("entrymap"), k)
        lt = lambda a, b: mk("cmp", "<", a, b)
        inside = {mk_not(lt(z, const(0))) for z in (i, j)} | {lt(i, at("nrows")), lt(j, at("ncols"))}
        touched = [e for e in r.effects if e.kind == "mut" and e.name in ("__setitem__",)]
        if touched:
            placed_later(ctx, V, M, touched, v, what, s2[0][3], zero, where)
            return
        for fact, name, want in ((has, "a stored entry", mk("idx", at("elements"), n)), (mk_not(has), "an entry that is not stored", zero)):
            W = View(ctx, r, mats=(M,), facts={fact} | inside | is_position(it, n) | {it.isinst(z, ext("builtins.int")) for z in (i, j)})
            wrong = []
            for g, y in phi_leaves(W(s2[0][3])):
                c = eval_under(mk_and([W.cond(l if p else mk_not(l)) for l, p in g]), W.facts)
                if c is not FALSE and y is not want:
                    wrong.append((c, y))
            if not wrong:
                ctx.ok("list", f"{what}: {name}", where, show_(want))
            elif (wrong[0][0] is TRUE or free_of_position(wrong[0][0], n, at, i, j)) and known(wrong[0][1], (M,)):
                ctx.bad("list", f"{what}: {name}", where, f"is {show_(wrong[0][1])[:200]}" + (f" when {show_(wrong[0][0])[:100]}" if wrong[0][0] is not TRUE else ""))
            else:
                ctx.und("list", f"{what}: {name}", where, show_(wrong[0][1])[:200])
        return
    if s2 is not None and len(s2) == 1 and s2[0][0] == "star" and s2[0][1].op == "rep" and not V.free(s2[0][2]):
        cell, n = s2[0][1].args
        cs = it.seq(cell) if cell.op in ("obj", "tup") else None
        if not cs or len(cs) != 1 or cs[0][0] != "item":
            ctx.und("list", what, where, show_(cell)[:200])
            return
        width(ctx, V, n, at("ncols"), what, "columns", where)
        writes = [e for e in r.effects if e.kind == "mut" and e.name == "__setitem__"]
        placed_later(ctx, V, M, writes, v, what, cs[0][1], zero, where)
        return
    ctx.und("list", what, where, show_(row)[:200])


def full(ctx, V, L, n, what, name, where):
    d = V.it.domain(L)
    if getattr(L, "breaks", None):
        ctx.und("list", f"{what}: {name}", where, "the loop can end early")
        return False
    if d.op == "app" and d.args[0] is ext("builtins.range") and len(d.args[1]) == 1:
        return width(ctx, V, d.args[1][0], n, what, name, where)
    if d.op == "app" and d.args[0] is ext("builtins.range") and known(d):
        a = [V(x) for x in d.args[1]]
        if a[0] is const(0) and a[1] is n and len(a) == 2:
            ctx.ok("list", f"{what}: {name}", where, show_(d))
            return True
        ctx.und("list", f"{what}: {name}", where, show_(d))
        return False
    ctx.und("list", f"{what}: {name}", where, show_(d)[:100])
    return False


def width(ctx, V, got, n, what, name, where):
    got = V(got)
    if got is n:
        ctx.ok("list", f"{what}: {name}", where, show_(got))
        return True
    ok = known(got)
    (ctx.bad if ok else ctx.und)("list", f"{what}: {name}", where, f"{show_(got)[:100]} {name}")
    return False


def placed_later(ctx, V, M, writes, v, what, cell, zero, where):
    """Rows filled with one value, then entries are written into them."""
    at = lambda n: mk("attr", M, n)
    cell = V(cell)
    if cell is zero:
        ctx.ok("list", f"{what}: an entry that is not stored", where, show_(cell))
    else:
        (ctx.bad if closed(cell) else ctx.und)("list", f"{what}: an entry that is not stored", where, f"is {show_(cell)[:100]}")
    label = f"{what}: a stored entry"
    if not writes:
        ctx.bad("list", label, where, "is not used")
        return
    if len(writes) != 1 or len(writes[0].loops) != 1:
        ctx.und("list", label, where, f"{len(writes)} writes")
        return
    e, = writes
    L, = e.loops
    d = V.it.domain(L)
    while d.op == "app" and d.args[0].op == "ext" and d.args[0].args[0] in STRIP + PERMUTE and len(d.args[1]) == 1:
        d = d.args[1][0]
    d = d.args[1] if d.op == "dictview" and d.args[0] in ("items", "keys") else d
    if d.op == "zipdom":
        parts = [V.source(z) for z in (d.args[0] if isinstance(d.args[0], tuple) else d.args)]
        parts = [z.args[1] if z.op == "dictview" else z for z in parts]
        if at("entrymap") in parts and all(z in (at("entrymap"), at("elements")) for z in parts):
            d = at("entrymap")      # as many places as elements
    if V(d) is not at("entrymap") or getattr(L, "breaks", None):
        (ctx.bad if d.op == "slice" and closed(d) else ctx.und)("list", label, e.where(), f"written for {show_(d)[:100]}")
        return
    g = V.free(e.gate)
    ks = {z for y in list(e.args) + [e.base] for z in subterms(V(y) if y.op != "obj" else y) if z.op == "key"}
    b = e.base
    if b.op == "elem" or b.op == "idx":
        row_i = V(b.args[1]) if b.op == "idx" else V.pos(b.args[1], {})
        root = b.args[0]
    else:
        ctx.und("list", label, e.where(), show_(b)[:200])
        return
    ks |= {z for z in subterms(row_i) if z.op == "key"}
    if root is not v or len(ks) != 1:
        ctx.und("list", label, e.where(), f"{show_(root)[:100]} {len(ks)} keys")
        return
    k, = ks
    if g:
        c = conj(g)
        (ctx.bad if known(c, (M, k)) else ctx.und)("list", label, e.where(), f"only written when {show_(c)[:200]}")
        return
    i, j = (mk("idx", k, const(q)) for q in (0, 1))
    got = mk("tup", (row_i, V(e.args[0]), V(e.args[1])))
    want = mk("tup", (i, j, mk("idx", at("elements"), mk("idx", at("entrymap"), k))))
    if got is want:
        ctx.ok("list", label, e.where(), f"[{show_(row_i)}][{show_(got.args[0][1])}] = {show_(got.args[0][2])}")
    elif known(got, (M, k)):
        ctx.bad("list", label, e.where(), f"[{show_(row_i)}][{show_(got.args[0][1])}] = {show_(got.args[0][2])}")
    else:
        ctx.und("list", label, e.where(), show_(got)[:200])


def matrices_agree(ctx):
    from . import sympyr
    built(ctx)
    sympyr.from_matrix(ctx, sums=True)
    added(ctx)
    differentiated(ctx)
    reading(ctx)
    listing(ctx)
    # the derivative of a list is the list of the derivatives
    diffr.builtin(ctx, heads=("List",))
    graph.forward(ctx)
    # where generated code puts the entries
    llvmr.generated(ctx, kinds=("matrix",))
    llvmr.generated(ctx, kinds=("matrix",), via="lambdify")
    llvmr.array_calls(ctx)
