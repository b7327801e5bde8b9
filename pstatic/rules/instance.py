"""Finite instances of summaries: the value of a loop-free summary term when the sequence it ranges over has a given small length.

A summary produced by Canon describes all iterations of a loop at once (each/all/any over a domain).  For a domain of k symbolic
elements, and facts that decide the conditions, `Inst` rewrites the summary to a term without loops.  Nothing of the repository is
evaluated: only summary terms are rewritten.
"""
from __future__ import annotations

from .lib import *  # noqa
from .lib import Canon


class Stuck(Exception):
    pass


def need(c, t):
    if not c:
        raise Stuck(t)


class Inst:
    def __init__(self, it, facts, doms, elems=None, perms=None):
        """doms: {domain term: tuple of elements}; elems: {sequence term: {element: value}} for look-ups by element."""
        self.it, self.facts, self.doms, self.elems = it, set(facts), doms, elems or {}
        self.perms = perms or {}  # {sequence: the permutation assumed to sort it}
        self.memo = {}

    # -- sequences
    def seq(self, t, d, env):
        """The elements of a sequence term."""
        if t in self.doms:
            return list(self.doms[t])
        if t.op == "phi":
            return self.seq(t.args[1] if self.cond(t.args[0], d, env) else t.args[2], d, env)
        if t.op == "setof":
            out = []
            for x in (self.items(t.args[0], d, env) if isinstance(t.args[0], tuple) else self.seq(t.args[0], d, env)):
                if not any(self.same(x, y) for y in out):
                    out.append(x)
            return out
        if t.op == "tup":
            items = t.args[0]
            return self.items(items if isinstance(items, tuple) else (items,), d, env)
        if t.op in ("seqof", "star"):
            return self.seq(t.args[0], d, env)
        if t.op == "slice":
            s = self.seq(t.args[0], d, env)
            ix = [None if x is NONE else self.const(x, d, env) for x in t.args[1:]]
            return s[slice(*ix)]
        if t.op == "app" and t.args[0].op == "ext" and t.args[0].args[0] in ("builtins.list", "builtins.tuple", "builtins.iter") and len(t.args[1]) == 1:
            return self.seq(t.args[1][0], d, env)
        if t.op == "app" and t.args[0] is ext("builtins.reversed") and len(t.args[1]) == 1:
            return self.seq(t.args[1][0], d, env)[::-1]
        if t.op == "app" and t.args[0] is ext("builtins.sorted") and len(t.args[1]) == 1 and not t.args[2]:
            s = self.seq(t.args[1][0], d, env)
            if len(s) < 2:
                return s
            key = mk("tup", tuple(s))
            need(key in self.perms, mk("order", key, len(s)))
            return [s[j] for j in self.perms[key]]
        if t.op == "app" and t.args[0] is ext("builtins.dict.fromkeys"):
            out = []
            for x in self.seq(t.args[1][0], d, env):
                if not any(self.same(x, y) for y in out):
                    out.append(x)
            return out
        if t.op == "app" and t.args[0] is ext("builtins.range"):
            return [const(i) for i in range(*[self.const(x, d, env) for x in t.args[1]])]
        if t.op == "bin" and t.args[0] == "+":
            return self.seq(t.args[1], d, env) + self.seq(t.args[2], d, env)
        if t.op == "bel" and t.args[1] in env:
            v = env[t.args[1]][1]
            if v is not t:
                return self.seq(v, d, env)
        if t.op == "idx":
            v = self(t, d, env)
            if v is not t:
                return self.seq(v, d, env)
        raise Stuck(t)

    def same(self, x, y):
        v = eval_under(self.it.equal(x, y), self.facts)
        need(v is TRUE or v is FALSE, v)
        return v is TRUE

    def items(self, items, d, env):
        out = []
        for x in items:
            if x.op == "star":
                out.extend(self.seq(x.args[0], d, env))
            elif x.op == "opt":
                if self.cond(x.args[0], d, env):
                    out.extend(self.items((x.args[1],), d, env))
            elif x.op == "each":
                out.extend(self.each(x.args[0], x.args[1], x.args[2], d, env))
            else:
                out.append(self(x, d, env))
        return out

    def each(self, doms, g, v, d, env):
        n = len(doms)
        out = []

        def loop(i, env):
            if i == n:
                if g is TRUE or self.cond(g, d + n, env):
                    out.extend(self.items((v,), d + n, env))
                return
            for j, x in enumerate(self.seq(doms[i], d + i, env)):
                loop(i + 1, {**env, d + i: (j, x)})
        loop(0, env)
        return out

    def const(self, t, d, env):
        v = self(t, d, env)
        need(v.op == "const" and type(v.args[0]) is int, v)
        return v.args[0]

    # -- conditions
    def cond(self, c, d=1, env=None):
        v = self.truth(c, d, env or {})
        need(v is TRUE or v is FALSE, v)
        return v is TRUE

    def truth(self, c, d, env):
        o, a = c.op, c.args
        if o in ("and", "or"):
            stuck = None
            for x in a[0]:
                try:
                    v = self.truth(x, d, env)
                except Stuck as e:
                    stuck = e
                    continue
                if v is (FALSE if o == "and" else TRUE):
                    return v
                if v is not (TRUE if o == "and" else FALSE):
                    stuck = Stuck(v)
            if stuck is not None:
                raise stuck
            return TRUE if o == "and" else FALSE
        if o == "not":
            return mk_not(self.truth(a[0], d, env))
        if o in ("all", "any"):
            out, stuck = [], None
            for j, x in enumerate(self.seq(a[0], d, env)):
                try:
                    out.append(self.truth(a[1], d, {**env, ("belem", a[0]): (j, x)}))
                except Stuck as e:
                    stuck = e
            if (FALSE if o == "all" else TRUE) in out:
                return FALSE if o == "all" else TRUE
            if stuck:
                raise stuck
            return mk_and(out) if o == "all" else mk_or(out)
        if o == "truth":
            try:
                x = a[0]
                while x.op == "setof" and isinstance(x.args[0], T) or x.op == "app" and x.args[0] is ext("builtins.dict.fromkeys"):
                    x = x.args[0] if x.op == "setof" else x.args[1][0]
                return const(bool(self.seq(mk("tup", x.args[0]) if x.op == "setof" else x, d, env)))
            except Stuck:
                pass
            return eval_under(self.it.truth(self(a[0], d, env)), self.facts)
        if o == "cmp" and a[0] == "==" and a[1].op == a[2].op == "setof":
            x, y = (self.items(z.args[0], d, env) if isinstance(z.args[0], tuple) else self.seq(z.args[0], d, env) for z in a[1:])
            return const(all(any(self.same(p, q) for q in y) for p in x) and all(any(self.same(p, q) for q in x) for p in y))
        if o == "cmp":
            x, y = self(a[1], d, env), self(a[2], d, env)
            if x.op == y.op == "const" and type(x.args[0]) is type(y.args[0]) is int and a[0] in ("<", "<=", ">", ">="):
                i, j = x.args[0], y.args[0]
                return const({"<": i < j, "<=": i <= j, ">": i > j, ">=": i >= j}[a[0]])
            if a[0] == "==":
                return eval_under(self.it.equal(x, y), self.facts)
            return eval_under(mk("cmp", a[0], x, y), self.facts)
        if o == "contains":
            s = self.seq(a[0], d, env)
            x = self(a[1], d, env)
            return eval_under(mk_or([self.it.equal(x, y) for y in s]), self.facts)
        if o == "isinst":
            return eval_under(self.it.isinst(self(a[0], d, env), a[1]), self.facts)
        if o == "const":
            return const(bool(a[0]))
        return eval_under(c, self.facts)

    # -- values
    def __call__(self, t, d=1, env=None):
        env = env or {}
        key = (t, d, tuple(sorted((str(k), j, x.uid) for k, (j, x) in env.items())))
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self.go(t, d, env)
        return r

    def go(self, t, d, env):
        o, a = t.op, t.args
        if o in ("const", "sym", "fn", "cls", "ext", "missing", "atom", "treeatom", "noreturn"):
            return t if o != "missing" else mk(o, a[0], self(a[1], d, env), *a[2:])
        if t in self.doms:
            return mk("tup", tuple(self.doms[t]))
        if o == "phi":
            return self(a[1] if self.cond(a[0], d, env) else a[2], d, env)
        if o == "bel":
            return env[a[1]][1] if a[1] in env else t
        if o == "belem" and ("belem", a[0]) in env:
            return env["belem", a[0]][1]
        if o == "bix" and a[0] in env:
            return const(env[a[0]][0])
        if o == "lin":
            return const(sum(self.const(x, d, env) * n for x, n in a[0]) + a[1])
        if o in ("tup", "each", "star", "opt", "seqof"):
            return mk("tup", tuple(self.items(a[0] if o == "tup" else (t,), d, env)))
        if o == "setof":
            return t
        if o == "seqop" and a[0] == "index" and len(a[2]) == 1:
            x = self(a[2][0], d, env)
            for j, y in enumerate(self.seq(a[1], d, env)):
                if self.same(x, y):
                    return const(j)
            return mk("missing", t, x)
        if o == "seqop" and a[0] == "count" and len(a[2]) == 1:
            x = self(a[2][0], d, env)
            return const(sum(self.same(x, y) for y in self.seq(a[1], d, env)))
        if o == "tree":
            return mk("tree", mk("tup", tuple(self.seq(a[0], d, env))))
        if o == "slice":
            return mk("tup", tuple(self.seq(t, d, env)))
        if o == "idx":
            k = self(a[1], d, env)
            for s in self.elems:
                if a[0] is s and k in self.elems[s]:
                    return self.elems[s][k]
            if k.op == "const" and type(k.args[0]) is int:
                try:
                    s = self.seq(a[0], d, env)
                except Stuck:
                    s = None
                if s is not None:
                    need(-len(s) <= k.args[0] < len(s), t)
                    return s[k.args[0]]
            b = a[0] if a[0].op == "obj" else self(a[0], d, env)
            return mk("idx", b, k)
        if o == "app":
            if a[0] is LEN and len(a[1]) == 1:
                x = a[1][0]
                return const(len(self.seq(a[1][0], d, env)))
            args = tuple(self.items(a[1], d, env))
            return mk("app", self(a[0], d, env), args, a[2] if len(a) > 2 else ())
        if o == "bin":
            x, y = self(a[1], d, env), self(a[2], d, env)
            if x.op == y.op == "const" and type(x.args[0]) is type(y.args[0]) is int and a[0] in "+-*":
                i, j = x.args[0], y.args[0]
                return const({"+": i + j, "-": i - j, "*": i * j}[a[0]])
            if x.op == y.op == "tup" and a[0] == "+":
                return mk("tup", x.args[0] + y.args[0])
            return mk("bin", a[0], x, y)
        if o in ("and", "or", "not", "cmp", "all", "any", "contains", "isinst", "truth"):
            return self.truth(t, d, env)
        if o == "attr":
            return mk("attr", self(a[0], d, env), a[1])
        if o == "obj":
            return t
        raise Stuck(t)


LEN = ext("builtins.len")
