"""Gated value-flow analysis of a Python package (no execution of the analysed code).

`Program` parses and resolves the package; `Interp` abstracts a function, over all inputs, to
 * outcome terms (returns / raises, each with its gate = the control conditions it depends on), and
 * an effect log (writes to attributes, containers, globals; opaque calls; lock regions), gated as well.
Loops are abstracted by one generic iteration, both sides of branches are kept and joined by gated phis,
callees are inlined (recursion is cut and recorded).
"""
from __future__ import annotations

import ast
import os
import re
from .terms import *  # noqa

ABSENT_MODULES = {"rust_protosym"}     # optional accelerator: analysed configuration is the pure-Python one


class AnalysisError(Exception):
    """The analysis itself cannot be carried out (vanished anchor, unparsable source)."""


class Limit(Exception):
    """Budget exceeded: the obligation is undecided."""


# ------------------------------------------------------------------ program entities

class Fn:
    registry = None              # node -> most recent Fn (all functions, methods, closures and lambdas met)

    def __init__(self, node, module, name, qual, cls, frame, deco=()):
        self.node, self.module, self.name, self.qual, self.cls, self.frame = node, module, name, qual, cls, frame
        if Fn.registry is not None:
            Fn.registry[node] = self
        self.kind = "plain"          # plain / static / class / property
        self.decorators = list(deco)  # decorator terms that are not understood
        self.defaults = {}

    @property
    def short(self):
        return self.qual.replace("protosym.", "", 1)

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"


class Cls:
    def __init__(self, node, module, name, qual, bases):
        self.node, self.module, self.name, self.qual, self.bases = node, module, name, qual, bases
        self.ns = {}
        self.ann = {}
        self.dataclass = False
        self.frozen = False
        self.fields = []

    @property
    def short(self):
        return self.name

    def mro(self):
        out, todo = [], [self]
        # simple linearisation (C3 is not needed for the hierarchies met here)
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            todo.extend(b.args[0] for b in c.bases if b.op == "cls")
        return out

    def extbases(self):
        return [b.args[0] for c in self.mro() for b in c.bases if b.op == "ext"]

    def lookup(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return None, None


class Module:
    def __init__(self, name, path, rel, tree, src):
        self.name, self.path, self.rel, self.tree, self.src = name, path, rel, tree, src
        self.ns = {}
        self.typens = {}
        self.state = 0


class Obj:
    """An abstract heap object (allocation)."""
    n = 0

    def __init__(self, kind, cls, node, module, loops, gate, init=()):
        Obj.n += 1
        self.id = Obj.n
        self.kind, self.cls, self.node, self.module, self.loops, self.gate = kind, cls, node, module, loops, gate
        self.init = tuple(init)      # list/set: items, dict: (key, value) pairs; 'star' items spread
        self.era = None              # 'module' when allocated by a module initialiser
        self.term = mk("obj", self)
        self.copyof = None

    def show(self, d):
        if self.kind == "inst":
            return f"<{show(self.cls, d)}#{self.id}>"
        if self.kind == "dict":
            return "{" + ", ".join(f"{show(k, d)}: {show(v, d)}" for k, v in self.init) + "}" + f"#{self.id}"
        b = "[]" if self.kind == "list" else "{}"
        return b[0] + ", ".join(show(x, d) for x in self.init) + b[1] + f"#{self.id}"


class Loop:
    n = 0

    def __init__(self, kind, node, it, gate, parents, fn):
        Loop.n += 1
        self.id = Loop.n
        self.kind, self.node, self.it, self.gate, self.parents, self.fn = kind, node, it, gate, parents, fn
        self.cond = None
        self.init, self.back = {}, {}
        self.breaks = []             # (gate, {var: value})
        self.returns = False

    def __repr__(self):
        return f"L{self.id}"


class Eff:
    __slots__ = ("kind", "base", "name", "args", "gate", "loops", "node", "stack", "pos", "module")

    def __init__(self, kind, base, name, args, gate, loops, node, stack, pos, module):
        self.kind, self.base, self.name, self.args = kind, base, name, args
        self.gate, self.loops, self.node, self.stack, self.pos, self.module = gate, loops, node, stack, pos, module

    def __repr__(self):
        g = " & ".join(("" if p else "!") + show(c, 4) for c, p in self.gate)
        return f"{self.kind} {show(self.base, 5) if self.base else ''}.{self.name}({', '.join(show(a, 6) for a in self.args)}) [{g}] loops={[l.id for l in self.loops]} {self.where()}"

    def where(self):
        return f"{self.module.rel if self.module else '?'}:{getattr(self.node, 'lineno', 0)}"


class Outcome:
    __slots__ = ("kind", "value", "gate", "loops", "node", "module", "stack", "state", "pos")

    def __init__(self, kind, value, gate, loops, node, module, stack, state=None, pos=None):
        self.pos = pos          # effects before it
        self.kind, self.value, self.gate, self.loops = kind, value, gate, loops
        self.node, self.module, self.stack, self.state = node, module, stack, state

    def where(self):
        return f"{self.module.rel if self.module else '?'}:{getattr(self.node, 'lineno', 0)}"

    def __repr__(self):
        g = " & ".join(("" if p else "!") + show(c, 5) for c, p in self.gate)
        return f"{self.kind} {show(self.value, 8)} [{g}] {self.where()}"


class State:
    __slots__ = ("frames", "gate")

    def __init__(self, frames, gate):
        self.frames, self.gate = frames, gate

    def fork(self):
        return State({k: dict(v) for k, v in self.frames.items()}, self.gate)


# ------------------------------------------------------------------ boolean terms

COND_OPS = {"cmp", "and", "or", "not", "truth", "isinst", "contains", "all", "any", "raises", "inloop", "broke", "held", "lret", "iterates"}


_NOT, _ORS, _ANDS = {}, {}, {}


def mk_not(c):
    r = _NOT.get(c)
    if r is None:
        r = _NOT[c] = _mk_not(c)
        _NOT.setdefault(r, c)
    return r


def _mk_not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "and":
        return mk_or([mk_not(x) for x in c.args[0]])
    if c.op == "or":
        return mk_and([mk_not(x) for x in c.args[0]])
    if c.op == "all":
        return mk("any", c.args[0], mk_not(c.args[1]))
    if c.op == "any":
        return mk("all", c.args[0], mk_not(c.args[1]))
    return mk("not", c)


def _nary(op, xs, unit, zero):
    out = []
    for x in xs:
        for y in (x.args[0] if x.op == op else (x,)):
            if y is zero:
                return zero
            if y is unit or y in out:
                continue
            if mk_not(y) in out:
                return zero
            out.append(y)
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    k = op, frozenset(out)
    r = _SETS.get(k)
    if r is None:
        r = _SETS[k] = mk(op, tuple(out))       # in the order met first
    return r


_SETS: dict = {}


def mk_and(xs):
    xs = tuple(xs)
    r = _ANDS.get(xs)
    if r is None:
        r = _nary("and", xs, TRUE, FALSE)
        if r.op == "and" and any(x.op == "or" for x in r.args[0]) and not all(x.op == "or" for x in r.args[0]):
            # a and (not a or b) == a and b
            facts = {x for x in r.args[0] if x.op != "or"}
            ys = [eval_under(x, facts) if x.op == "or" else x for x in r.args[0]]
            if any(x is not y for x, y in zip(ys, r.args[0])):
                r = mk_and(ys)
        _ANDS[xs] = r
    return r


def mk_or(xs):
    xs = tuple(xs)
    r = _ORS.get(xs)
    if r is None:
        r = _ORS[xs] = _mk_or(xs)
    return r


def _mk_or(xs):
    r = _nary("or", list(xs), FALSE, TRUE)
    if r.op == "or":
        # absorption:  a or (not a and b) == a or b ;  a or (a and b) == a
        xs = list(r.args[0])
        neg = {mk_not(x) for x in xs}
        out = []
        changed = False
        for x in xs:
            if x.op == "and":
                if any(y in xs for y in x.args[0]):
                    changed = True
                    continue
                ys = [y for y in x.args[0] if y not in neg or mk_not(y) is x]
                if len(ys) != len(x.args[0]):
                    changed = True
                    x = mk_and(ys)
            out.append(x)
        # (a and X) or (not a and X) == X
        for i, p in enumerate(out):
            for q in out[i + 1:]:
                if p.op == "and" and q.op == "and":
                    ps, qs = set(p.args[0]), set(q.args[0])
                    dp, dq = ps - qs, qs - ps
                    if len(dp) == 1 and len(dq) == 1 and mk_not(next(iter(dp))) is next(iter(dq)):
                        rest = [o for o in out if o is not p and o is not q]
                        return mk_or(rest + [mk_and([y for y in p.args[0] if y in qs])])
        if changed:
            return mk_or(out)
    return r


def lits(c, pol=True):
    """Conjunction of literals equivalent to (c is pol)."""
    if not pol:
        c = mk_not(c)
    if c is TRUE:
        return ()
    if c.op == "and":
        return tuple(l for x in c.args[0] for l in lits(x))
    if c.op == "not":
        return ((c.args[0], False),)
    return ((c, True),)


def conj(gate):
    return mk_and([c if p else mk_not(c) for c, p in gate])


LOCKS = {"RLock", "Lock", "Semaphore", "BoundedSemaphore", "Condition"}


def is_lock(b):
    return b.op == "app" and b.args[0].op == "ext" and b.args[0].args[0].split(".")[-1] in LOCKS


def noheld(gate):
    return tuple(l for l in gate if l[0].op != "held")


def lit_term(l):
    return l[0] if l[1] else mk_not(l[0])


def eval_under(c, facts):
    """Simplify boolean term under a set of true literals (terms)."""
    if c in facts:
        return TRUE
    n = mk_not(c)
    if n in facts:
        return FALSE
    if c.op == "and":
        return mk_and([eval_under(x, facts) for x in c.args[0]])
    if c.op == "or":
        return mk_or([eval_under(x, facts) for x in c.args[0]])
    if c.op == "not":
        return mk_not(eval_under(c.args[0], facts))
    return c


def mk_phi(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return mk_phi(c.args[0], b, a)
    if a.op == "phi" and a.args[0] is c:
        a = a.args[1]
    if b.op == "phi" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return mk_not(c)
    return mk("phi", c, a, b)


def phi_leaves(t, gate=()):
    """[(gate, leaf)] of nested phis."""
    if t.op == "phi":
        return phi_leaves(t.args[1], gate + lits(t.args[0])) + phi_leaves(t.args[2], gate + lits(t.args[0], False))
    return [(gate, t)]


# ------------------------------------------------------------------ fmt / sequences

def mk_fmt(parts):
    out = []
    for p in parts:
        if p[0] == "lit":
            if not p[1]:
                continue
            if out and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + p[1])
                continue
            out.append(p)
        else:
            conv, v = p
            if conv in ("s", "") and v.op == "const" and isinstance(v.args[0], (str, int)) and not isinstance(v.args[0], bool):
                out2 = ("lit", str(v.args[0]))
                if out and out[-1][0] == "lit":
                    out[-1] = ("lit", out[-1][1] + out2[1])
                elif out2[1]:
                    out.append(out2)
            elif conv in ("s", "") and v.op == "fmt":
                for q in v.args[0]:
                    if q[0] == "lit" and out and out[-1][0] == "lit":
                        out[-1] = ("lit", out[-1][1] + q[1])
                    else:
                        out.append(q)
            else:
                out.append(("s" if conv == "" else conv, v))
    if all(p[0] == "lit" for p in out):
        return const("".join(p[1] for p in out))
    return mk("fmt", tuple(out))


def is_str(t):
    return (t.op == "const" and isinstance(t.args[0], str)) or t.op in ("fmt", "join")


PURE_EXT = {
    "len", "isinstance", "issubclass", "type", "str", "repr", "sorted", "reversed", "enumerate", "zip", "range", "sum",
    "min", "max", "any", "all", "abs", "hash", "id", "bool", "int", "float", "hex", "callable", "tuple", "list", "set",
    "dict", "frozenset", "map", "filter", "round", "divmod", "pow", "ord", "chr", "format", "bytes", "complex", "slice",
}
MUTATORS = {
    "append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add",
    "discard", "difference_update", "intersection_update", "symmetric_difference_update", "__setitem__", "__delitem__",
    "appendleft", "popleft", "extendleft", "rotate", "__ior__", "__iadd__",
}
ARITY1 = frozenset({"append", "extend", "remove", "add", "discard", "appendleft", "extendleft"})      # exactly one argument
STR_METHODS = {"join", "format", "strip", "replace", "startswith", "endswith", "lower", "upper", "isidentifier", "split", "encode", "lstrip", "rstrip", "title", "capitalize", "isalpha", "isdigit", "isalnum", "find", "count", "index", "zfill", "translate", "casefold"}
FRESH_EXT = {"builtins.list", "builtins.set", "builtins.dict", "builtins.sorted"}


def T_type(t, *a):
    return mk("ty", t, *a)


class Interp:
    def __init__(self, prog, opaque=(), intrinsic_nodes=True, max_effects=60000):
        self.prog = prog
        self.opaque = set(opaque)
        self.intrinsic = intrinsic_nodes
        self.log = []
        self.loops = ()
        self.fstack = ()
        self.sizes = {}
        self.raise_sinks = []
        self.loopctx = []
        self.fid = 0
        self.era = None
        self.max_effects = max_effects
        self.unmodelled = []          # (what, where) constructs not modelled
        self.recursion = []           # (stack of quals) cut recursive calls
        self.lookups = []
        self.hits = 0
        self.calls = []               # (caller qual, callee qual, node, loops, gate)
        self.ntmp = 0
        self.cur_module = None
        self.steps = 0

    # ---------------------------------------------------------------- infrastructure

    def unk(self, why, node=None):
        self.unmodelled.append((why, f"{self.cur_module.rel if self.cur_module else '?'}:{getattr(node, 'lineno', 0)}"))
        self.ntmp += 1
        return mk("unk", why, self.ntmp)

    def eff(self, kind, base, name, args, st, node):
        if len(self.log) > self.max_effects:
            raise Limit("effect budget exceeded")
        gate = st.gate
        if any(isinstance(x, T) and x.op == "noreturn" for x in args):
            # the value says it already
            gate = tuple(l for l in gate if not (l[0].op == "lret" and l[0].args[0].kind == "never"))
        e = Eff(kind, base, name, tuple(args), gate, self.loops, node, self.fstack, len(self.log), self.cur_module)
        self.log.append(e)
        return e

    def new_obj(self, kind, st, node, cls=None, init=()):
        o = Obj(kind, cls, node, self.cur_module, self.loops, st.gate, init)
        o.era = self.era
        o.logpos = len(self.log)
        return o.term

    def drop_noraise(self, gate):
        """The gate without the conditions that hold in every execution that has not raised."""
        if not gate:
            return gate
        sink = self.raise_sinks[0] if self.raise_sinks else []
        if self.nr_len != len(sink):
            self.nr_len = len(sink)
            d = self.nr = {}
            for o in sink:
                g = o.gate
                for i in range(len(g) - 1, -1, -1):
                    if g[i][0].op == "inloop":
                        break
                    t = mk_not(conj(g[i:]))
                    for l in lits(t):
                        d.setdefault(lit_term(l), []).append(frozenset(lit_term(x) for x in g[:i]))
        if not self.nr:
            return gate
        have = {lit_term(l) for l in gate}
        return tuple(l for l in gate if not any(p <= have for p in self.nr.get(lit_term(l), ())))

    nr_len = -1
    nr: dict = {}
    lookups: list = []
    nheld = 0

    # visibility of an effect from the current state: 'no' / 'def' / 'maybe'
    def vis(self, e, st):
        cur = {lit_term(l) for l in st.gate}
        definite = True
        for l in e.gate:
            t = lit_term(l)
            if t in cur or t.op == "held":
                continue
            if mk_not(t) in cur:
                return "no"
            definite = False
        if definite and any(l not in self.loops for l in e.loops):
            definite = False
        return "def" if definite else "maybe"

    volatile = frozenset()       # state of the package that changes between calls: objects, (object, attribute), ('global', module, name)

    def constant(self, o):
        """Whether the content of an object is what the analysed code (and the import of the package) made of it."""
        return o.era != "module" or self.era == "module" or self.const_globals and o.term not in self.volatile

    def content_effects(self, base):
        return [e for e in self.log if e.base is base and e.kind in ("mut", "havoc") and e.name != "@attr"]

    def version(self, base):
        for e in reversed(self.log):
            if e.base is base and e.kind in ("mut", "havoc"):
                return e.pos + 1
        return 0

    def known_seq(self, t, st, depth=0):
        """Exact list of items of a sequence value, or None."""
        if depth > 8 or t in self.volatile:
            return None
        if t.op == "tup":
            out = []
            for x in t.args[0]:
                if x.op == "star":
                    k = self.known_seq(x.args[0], st, depth + 1)
                    if k is None:
                        return None
                    out.extend(k)
                else:
                    out.append(x)
            return out
        if t.op == "const" and isinstance(t.args[0], (str, tuple)):
            return [const(c) for c in t.args[0]]
        if t.op == "obj":
            o = t.args[0]
            if o.kind == "list":
                out = []
                for x in o.init:
                    if x.op == "star":
                        k = self.known_seq(x.args[0], st, depth + 1)
                        if k is None:
                            return None
                        out.extend(k)
                    else:
                        out.append(x)
                for e in self.content_effects(t):
                    v = self.vis(e, st)
                    if v == "no":
                        continue
                    if v == "maybe" or e.kind == "havoc":
                        return None
                    if e.loops != o.loops and any(l not in self.loops for l in e.loops):
                        return None
                    if e.name == "append":
                        out.append(e.args[0])
                    elif e.name in ("extend", "__iadd__"):
                        k = self.known_seq(e.args[0], st, depth + 1)
                        if k is None:
                            return None
                        out.extend(k)
                    elif e.name == "pop" and not e.args and out:
                        out.pop()
                    elif e.name == "reverse":
                        out.reverse()
                    elif e.name == "__setitem__" and e.args[0].op == "const" and type(e.args[0].args[0]) is int and -len(out) <= e.args[0].args[0] < len(out):
                        out[e.args[0].args[0]] = e.args[1]
                    elif e.name == "insert" and len(e.args) == 2 and e.args[0].op == "const" and type(e.args[0].args[0]) is int:
                        out.insert(e.args[0].args[0], e.args[1])
                    else:
                        return None
                return out
            if o.kind == "dict":
                d = self.known_dict(t, st)
                return None if d is None else [k for k, _ in d]
            return None
        if t.op == "app" and t.args[0].op == "ext":
            f, a = t.args[0].args[0], t.args[1]
            if f in ("builtins.tuple", "builtins.list", "builtins.iter") and len(a) == 1:
                return self.known_seq(a[0], st, depth + 1)
            if f == "builtins.reversed":
                k = self.known_seq(a[0], st, depth + 1)
                return None if k is None else k[::-1]
            if f == "builtins.enumerate":
                k = self.known_seq(a[0], st, depth + 1)
                s = a[1] if len(a) > 1 else dict(t.args[2]).get("start", const(0))
                if k is None or s.op != "const":
                    return None
                return [mk("tup", (const(s.args[0] + i), x)) for i, x in enumerate(k)]
            if f == "builtins.zip":
                ks = [self.known_seq(x, st, depth + 1) for x in a]
                if any(k is None for k in ks):
                    return None
                return [mk("tup", tuple(xs)) for xs in zip(*ks)]
            if f == "builtins.range" and all(x.op == "const" and isinstance(x.args[0], int) for x in a):
                r = range(*[x.args[0] for x in a])
                return [const(i) for i in r] if len(r) <= 64 else None
        if t.op == "dictview":
            d = self.known_dict(t.args[1], st)
            if d is None:
                return None
            return [{"keys": k, "values": v, "items": mk("tup", (k, v))}[t.args[0]] for k, v in d]
        return None

    def plus_one(self, n):
        if n.op == "phi":
            return mk_phi(n.args[0], self.plus_one(n.args[1]), self.plus_one(n.args[2]))
        return const(n.args[0] + 1)

    def guarded_items(self, t):
        """[(condition, item)] for a list or set to which only single items were added, some of them conditionally (None: not so)."""
        if not self.deep or t.op != "obj" or t.args[0].kind not in ("list", "set") or not self.constant(t.args[0]):
            return None
        s = self.seq(t)
        if s is None or len(s) > 16 or any(x[0] != "item" for x in s):
            return None
        return [(conj(x[2]), x[1]) for x in s]

    def known_dict(self, t, st):
        if t.op != "obj" or t in self.volatile or t.args[0].kind != "dict":
            return None
        o = t.args[0]
        items = []

        def put(k, v):
            for i, (k2, _) in enumerate(items):
                q = self.equal(k, k2)
                if q is TRUE:
                    items[i] = (k2, v)
                    return True
                if q is not FALSE:
                    return False
            items.append((k, v))
            return True

        for k, v in o.init:
            if k is None:
                d = self.known_dict(v, st)
                if d is None:
                    return None
                for kk, vv in d:
                    if not put(kk, vv):
                        return None
            elif not put(k, v):
                return None
        for e in self.content_effects(t):
            vv = self.vis(e, st)
            if vv == "no":
                continue
            if vv == "maybe" or e.kind == "havoc" or any(l not in o.loops for l in e.loops):
                return None
            if e.name == "__setitem__":
                if not put(*e.args):
                    return None
            elif e.name == "update" and len(e.args) == 1:
                d = self.known_dict(e.args[0], st)
                if d is None:
                    s = self.known_seq(e.args[0], st)
                    if s is None or any(x.op != "tup" or len(x.args[0]) != 2 for x in s):
                        return None
                    d = [x.args[0] for x in s]
                for kk, v2 in d:
                    if not put(kk, v2):
                        return None
            else:
                return None
        return items

    # ---------------------------------------------------------------- equality / truth

    def closed(self, t):
        return t.op in ("const", "cls", "fn", "ext", "mod", "obj", "atom", "treeatom", "tree", "symw", "tup") and all(
            self.closed(x) if isinstance(x, T) else (all(self.closed(y) for y in x) if isinstance(x, tuple) and all(isinstance(y, T) for y in x) else True)
            for x in t.args)

    eqmemo = None       # comparisons of shared choices made within one comparison

    def equal(self, a, b):
        if a.op != "phi" and b.op != "phi":
            return self._equal(a, b)
        if self.eqmemo is not None:
            if (a, b) not in self.eqmemo:
                self.eqmemo[a, b] = self._equal(a, b)
            return self.eqmemo[a, b]
        self.eqmemo = {}
        try:
            return self._equal(a, b)
        finally:
            self.eqmemo = None

    def _equal(self, a, b):
        if a is b and a.op not in ("unk",):
            return TRUE
        pair = {a.op, b.op}
        if a.op == "const" and b.op == "const":
            try:
                return const(bool(a.args[0] == b.args[0]))
            except Exception:
                return FALSE
        if a.op == "tup" and b.op == "tup":
            xs, ys = a.args[0], b.args[0]
            if not any(x.op == "star" for x in xs + ys):
                if len(xs) != len(ys):
                    return FALSE
                return mk_and([self.equal(x, y) for x, y in zip(xs, ys)])
            if self.closed(a) and self.closed(b):
                return FALSE
        for x, y in ((a, b), (b, a)):       # a private marker object is no value of the caller
            if x.op == "obj" and x.args[0].kind == "inst" and x.args[0].cls is ext("builtins.object") and x.args[0].era == "module" and y.op not in ("phi", "obj", "mu", "out"):
                return FALSE
        nodeops = {"atom", "treeatom", "tree", "symw"}
        if a.op in nodeops and b.op in nodeops:
            if a.op != b.op:
                return FALSE
            if a.op == "tree":
                return self.equal(a.args[0], b.args[0])
            return mk_and([self.equal(x, y) for x, y in zip(a.args, b.args)])
        concrete = nodeops | {"obj", "fn", "cls", "mod", "bound", "const", "tup", "ext"}
        if a.op in concrete and b.op in concrete and a.op != b.op:
            if pair & {"obj"} and pair & {"tup", "const", "symw"}:
                o = a if a.op == "obj" else b
                if o.args[0].kind == "inst":
                    return FALSE
                if NONE in (a, b):
                    return FALSE
            else:
                if not (pair == {"const", "ext"}):
                    return FALSE
        if a.op in ("cls", "fn") and a.op == b.op:
            return FALSE
        if a.op == "obj" and b.op == "obj" and a.args[0].kind == "inst" and b.args[0].kind == "inst":
            c = a.args[0].cls
            if c is not None and c.op == "cls" and c.args[0].lookup("__eq__")[0] is None and not c.args[0].dataclass:
                return FALSE
        for x, y in ((a, b), (b, a)):
            if y is NONE and x.op == "ext" and x.args[0].split(".")[0] in ("builtins", "math", "operator", "functools", "sympy", "numpy", "ctypes", "struct"):
                return FALSE
            if y is NONE and x.op in ("fmt", "join", "bin", "bound", "cmp", "not", "and", "or", "elemtree"):
                return FALSE
            if y is NONE and x.op == "sym" and isinstance(x.args[1], T) and x.args[1].args[0] == "dict":
                return FALSE
            if x.op == "phi":
                l, r = self.equal(x.args[1], y), self.equal(x.args[2], y)
                if l.op == "const" or r.op == "const":
                    return mk_or([mk_and([x.args[0], l]), mk_and([mk_not(x.args[0]), r])])
            # len(X) == 0
            if x.op == "app" and x.args[0] is ext("builtins.len") and is_const(y, 0):
                return mk_not(self.truth(x.args[1][0]))
            # X == [] / ()
            if ((y.op == "tup" and not y.args[0]) or (y.op == "obj" and y.args[0].kind in ("list", "set", "dict") and not y.args[0].init
                 and not self.content_effects(y))) and x.op not in ("const",):
                return mk_not(self.truth(x))
            # set(X) == {z}
            if x.op == "obj" and x.args[0].kind == "set" and y.op == "obj" and y.args[0].kind == "set" \
                    and len(y.args[0].init) == 1 and y.args[0].init[0].op != "star" and not self.content_effects(y):
                src = self.seq(x)
                if src is not None and len(src) == 1 and src[0][0] in ("star", "each"):
                    z = y.args[0].init[0]
                    if src[0][0] == "star":
                        X = src[0][1]
                        L = mk("anyidx", X)
                        return mk_and([self.truth(X), self.mk_all(X, self.equal(mk("elemof", X), z))])
                    _, loops, gate, v = src[0]
                    if len(loops) == 1 and not gate:
                        dom = self.domain(loops[0])
                        return mk_and([self.truth(dom), self.mk_allL(loops[0], self.equal(v, z))])
        if a.op == "const" or (b.op != "const" and a.uid > b.uid):
            a, b = b, a
        return mk("cmp", "==", a, b)

    def mk_all(self, X, c):
        if c.op == "const":
            return c
        return mk("all", X, c)

    def mk_allL(self, L, c):
        """forall iterations of loop L: c (c mentions L); canonical bound variable."""
        dom = self.domain(L)
        m = {mk("idxvar", L): mk("bidx", dom)}
        for s in subterms(c):
            if s.op in ("elem", "key", "val") and s.args[1] is L:
                m[s] = mk("b" + s.op, s.args[0])
        return self.mk_all(dom, self.subst(c, m))

    def truth(self, t):
        o = t.op
        if o == "const":
            try:
                return const(bool(t.args[0])) if t.args[0] is not NotImplemented else TRUE
            except Exception:
                return TRUE
        if o in COND_OPS:
            return t
        if o == "tup":
            xs = t.args[0]
            if any(x.op != "star" for x in xs):
                return TRUE
            if not xs:
                return FALSE
            return mk_or([self.truth(x.args[0]) for x in xs])
        if o in ("fn", "cls", "mod", "bound", "atom", "treeatom", "tree", "symw", "ext"):
            return TRUE
        if o == "obj":
            r = t.args[0]
            if r.kind == "inst":
                c = r.cls
                if c is not None and c.op == "cls" and c.args[0].lookup("__bool__")[0] is None and c.args[0].lookup("__len__")[0] is None:
                    return TRUE
            else:
                src = self.seq(t)
                if src is not None:
                    if any(s[0] == "item" and not s[2] for s in src):
                        return TRUE
                    if not src:
                        return FALSE
                    if len(src) == 1 and src[0][0] == "star" and not src[0][2]:
                        return self.truth(src[0][1])
                    if len(src) == 1 and src[0][0] == "each" and not src[0][2] and len(src[0][1]) == 1:
                        return self.truth(self.domain(src[0][1][0]))
        if o == "phi":
            a, b = self.truth(t.args[1]), self.truth(t.args[2])
            return mk_or([mk_and([t.args[0], a]), mk_and([mk_not(t.args[0]), b])])
        if o == "app" and t.args[0].op == "ext":
            f = t.args[0].args[0]
            if f in ("builtins.bool", "builtins.len", "builtins.list", "builtins.tuple", "builtins.set", "builtins.sorted",
                     "builtins.reversed", "builtins.frozenset") and len(t.args[1]) == 1:
                return self.truth(t.args[1][0])
        if o == "slice" and t.args[1] is NONE and t.args[2] is NONE:
            return self.truth(t.args[0])
        if o == "fmt" and any(p[0] == "lit" for p in t.args[0]):
            return TRUE
        g = self.guarded_items(t) if o == "obj" and t.args[0].kind != "inst" else None
        if g is not None:
            return mk_or([c for c, _ in g])
        ver = self.version(t) if o in ("sym", "attr", "obj", "mu", "idx") else 0
        return mk("truth", t, ver) if ver else mk("truth", t)

    # ---------------------------------------------------------------- sequences

    def domain(self, L):
        """What the loop ranges over, up to length-preserving wrappers."""
        return self.dom_of(L.it) if L.it is not None else mk("while", L)

    def dom_of(self, it):
        while True:
            if it.op == "app" and it.args[0].op == "ext":
                f, a = it.args[0].args[0], it.args[1]
                if f in ("builtins.enumerate", "builtins.list", "builtins.tuple", "builtins.iter") and a:
                    it = a[0]
                    continue
                if f == "builtins.range" and len(a) == 1 and a[0].op == "app" and a[0].args[0] is ext("builtins.len"):
                    it = a[0].args[1][0]
                    continue
                if f == "builtins.range" and len(a) == 2:
                    n = self.arith("-", a[1], a[0])
                    d, c = self.lin_of(n)
                    if len(d) == 1 and list(d.values()) == [1] and c <= 0:
                        (x,) = d
                        if x.op == "app" and x.args[0] is ext("builtins.len") and len(x.args) == 3:
                            it = self.mk_slice(x.args[1][0], const(-c), NONE, NONE)
                            continue
                if f == "builtins.zip" and len(a) >= 1:
                    ds = []
                    a = [x for x in a if not (x.op == "app" and x.args[0].op == "ext" and x.args[0].args[0] == "itertools.count")] or a
                    for x in a:
                        d = self.dom_of(x)
                        if d not in ds:
                            ds.append(d)
                    # zip with an unbounded or equally long companion
                    if len(ds) == 1:
                        it = ds[0]
                        continue
                    return mk("zipdom", tuple(ds))
            if it.op == "dictview":
                it = it.args[1]
                continue
            if it.op == "obj" and it.args[0].kind == "list":
                s = self.seq(it)
                if s is not None and len(s) == 1:
                    if s[0][0] == "each" and not s[0][2] and len(s[0][1]) == 1:
                        it = s[0][1][0].it if s[0][1][0].it is not None else it
                        if it is None:
                            return it
                        continue
                    if s[0][0] == "star" and not s[0][2]:
                        it = s[0][1]
                        continue
            if it.op == "tup" and len(it.args[0]) == 1 and it.args[0][0].op == "star":
                it = it.args[0][0].args[0]
                continue
            return it

    def inner_seq(self, t, depth, kind="list"):
        """Segments of a sequence spread into a container: a set has no order of its own, so it is kept whole outside of sets."""
        if kind != "set" and t.op == "obj" and t.args[0].kind == "set":
            return None
        return self.seq(t, depth + 1)

    def seq(self, t, depth=0):
        """Segments of a list-like value:
        ('item', v, gate) | ('star', iterable, gate) | ('each', loops, gate, v); None when not understood."""
        if depth > 12 or t in self.volatile:
            return None
        if t.op == "tup":
            out = []
            for x in t.args[0]:
                if x.op == "star":
                    s = self.inner_seq(x.args[0], depth)
                    out.extend(s if s is not None else [("star", x.args[0], ())])
                else:
                    out.append(("item", x, ()))
            return out
        if t.op == "obj":
            o = t.args[0]
            if o.kind not in ("list", "set"):
                return None
            out = []
            for x in o.init:
                if x.op == "star":
                    s = self.inner_seq(x.args[0], depth, o.kind)
                    out.extend(s if s is not None else [("star", x.args[0], ())])
                else:
                    out.append(("item", x, ()))
            base = {lit_term(l) for l in o.gate}
            for e in self.content_effects(t):
                g = tuple(l for l in self.drop_noraise(e.gate) if lit_term(l) not in base and l[0].op not in ("inloop",))
                loops = tuple(l for l in e.loops if l not in o.loops)
                if e.kind == "havoc":
                    if e.args[0].op == "inloop" and e.args[0].args[0] in self.loops:
                        return None      # changed by earlier iterations of a loop we are in
                    continue
                if e.name in ("append", "add") and len(e.args) == 1:
                    if loops:
                        out.append(("each", loops, g, e.args[0]))
                    else:
                        out.append(("item", e.args[0], g))
                elif e.name in ("extend", "update", "__iadd__", "__ior__") and len(e.args) == 1:
                    s = self.inner_seq(e.args[0], depth, o.kind)
                    if loops:
                        if s is None or any(x[0] == "star" for x in s):
                            return None
                        for x in s:
                            ls = loops + tuple(l for l in x[1] if l not in loops) if x[0] == "each" else loops
                            out.append(("each", ls, g + tuple(l for l in x[2] if l not in g), x[3]) if x[0] == "each" else ("each", ls, g + tuple(l for l in x[2] if l not in g), x[1]))
                    elif s is None:
                        out.append(("star", e.args[0], g))
                    else:
                        for x in s:
                            if x[0] == "each":
                                out.append(("each", x[1], g + x[2], x[3]))
                            else:
                                out.append((x[0], x[1], g + x[2]))
                else:
                    return None
            i = 0
            while i + 1 < len(out):         # one of two is added in every iteration
                x, y = out[i], out[i + 1]
                if x[0] == y[0] == "each" and x[1] == y[1] and len(x[2]) == len(y[2]) and x[2]:
                    d = [(p, q) for p, q in zip(x[2], y[2]) if p != q]
                    if len(d) == 1 and d[0][0][0] is d[0][1][0] and d[0][0][1] != d[0][1][1]:
                        (c, pol), _ = d[0]
                        v, w = (x[3], y[3]) if pol else (y[3], x[3])
                        out[i:i + 2] = [("each", x[1], tuple(p for p, q in zip(x[2], y[2]) if p == q), mk_phi(c, v, w))]
                        i = max(i - 1, 0)
                        continue
                i += 1
            return out
        if t.op == "app" and t.args[0].op == "ext" and t.args[0].args[0] in ("builtins.list", "builtins.tuple") and len(t.args[1]) == 1:
            s = self.inner_seq(t.args[1][0], depth)
            return s if s is not None else [("star", t.args[1][0], ())]
        if t.op == "bin" and t.args[0] == "+":
            a, b = self.seq(t.args[1], depth + 1), self.seq(t.args[2], depth + 1)
            if a is None:
                a = [("star", t.args[1], ())]
            if b is None:
                b = [("star", t.args[2], ())]
            return a + b
        if t.op == "out":
            L, var = t.args
            init, back = L.init.get(var), L.back.get(var)
            mu = mk("mu", L, var)
            if init is not None and back is not None and not L.breaks:
                a = self.seq(init, depth + 1)
                b = self.seq(back, depth + 1)
                if a is not None and b and b[0] == ("star", mu, ()):
                    out = list(a)
                    for x in b[1:]:
                        if x[0] == "item":
                            out.append(("each", (L,), x[2], x[1]))
                        elif x[0] == "each":
                            out.append(("each", (L,) + x[1], x[2], x[3]))
                        else:
                            return None
                    return out
            return None
        return None

    elem_shape = None  # the caller's description of the elements of some sequences

    def mk_elem(self, it, L):
        """Generic element of iterable it in loop L."""
        idx = mk("idxvar", L)
        if self.elem_shape is not None:
            x = self.elem_shape(it)
            if x is not None:
                return x
        if it.op == "app" and it.args[0].op == "ext":
            f, a, kw = it.args[0].args[0], it.args[1], dict(it.args[2])
            if f == "builtins.enumerate":
                s = a[1] if len(a) > 1 else kw.get("start", const(0))
                return mk("tup", (self.arith("+", idx, s), self.mk_elem(a[0], L)))
            if f == "builtins.zip":
                return mk("tup", tuple(self.mk_elem(x, L) for x in a))
            if f == "builtins.range":
                if len(a) == 1:
                    return idx
                if len(a) == 2:
                    return self.arith("+", idx, a[0])
                return self.arith("+", self.arith("*", idx, a[2]), a[0])
            if f in ("builtins.list", "builtins.tuple", "builtins.iter") and len(a) == 1:
                return self.mk_elem(a[0], L)
            if f == "itertools.count":
                return self.arith("+", idx, a[0]) if a else idx
        if it.op == "dictview":
            k, v = mk("key", it.args[1], L), mk("val", it.args[1], L)
            return {"keys": k, "values": v, "items": mk("tup", (k, v))}[it.args[0]]
        if it.op == "obj" and it.args[0].kind == "dict":
            return mk("key", it, L)
        return self.index(it, idx, L)

    def index(self, base, k, L=None):
        """base[k] (k an index term)."""
        if base.op == "tup" or (base.op == "obj" and base.args[0].kind == "list"):
            s = self.seq(base)
            if s is not None:
                if k.op == "const" and isinstance(k.args[0], int):
                    n = k.args[0]
                    if 0 <= n < len(s) and all(x[0] == "item" and not x[2] for x in s[: n + 1]):
                        return s[n][1]
                    if n < 0 and -n <= len(s) and all(x[0] == "item" and not x[2] for x in s[n:]):
                        return s[n][1]
                if len(s) == 1 and s[0][0] == "each" and not s[0][2] and len(s[0][1]) == 1 and s[0][1][0].it is not None \
                        and s[0][1][0] is not L and not (L is None and s[0][1][0] in self.loops):
                    L2 = s[0][1][0]
                    if (k.op in ("idxvar",) or (k.op == "const" and isinstance(k.args[0], int) and k.args[0] >= 0) or L is not None) \
                            and not contains(s[0][3], lambda x: x.op == "obj" and L2 in x.args[0].loops):
                        return self.at_iter(s[0][3], L2, k)
                if len(s) == 1 and s[0][0] == "star" and not s[0][2] and s[0][1] is not base:
                    return self.index(s[0][1], k, L)
                if base.op == "tup" and len(s) > 1 and all(not x[2] for x in s if x[0] != "each") and k.op == "const" and isinstance(k.args[0], int):
                    pass
        if base.op == "app" and base.args[0].op == "ext" and base.args[0].args[0] in ("builtins.list", "builtins.tuple") and len(base.args[1]) == 1:
            return self.index(base.args[1][0], k, L)
        if base.op == "slice" and base.args[3] is NONE and base.args[2] is NONE and base.args[1].op == "const" \
                and isinstance(base.args[1].args[0], int) and base.args[1].args[0] >= 0 and k.op == "const" and isinstance(k.args[0], int) and k.args[0] >= 0:
            return self.index(base.args[0], const(k.args[0] + base.args[1].args[0]), L)
        if k.op == "lin" and len(k.args[0]) == 1 and k.args[0][0][0].op == "idxvar" and k.args[0][0][1] == 1 and k.args[1] > 0:
            return mk("elem", self.mk_slice(base, const(k.args[1]), NONE, NONE), k.args[0][0][0].args[0])
        if L is not None and k is mk("idxvar", L):
            return mk("elem", base, L)
        if k.op == "idxvar":
            return mk("elem", base, k.args[0])
        v = self.version(base) if base.op in ("obj", "sym", "attr", "mu", "out", "val", "idx") else 0
        return mk("idx", base, k, v) if v else mk("idx", base, k)

    def at_iter(self, v, L2, k):
        m = {mk("idxvar", L2): k}
        for s in list(subterms(v)):
            if s.op == "elem" and s.args[1] is L2:
                m[s] = mk("elem", s.args[0], k.args[0]) if k.op == "idxvar" else mk("idx", s.args[0], k)
            elif s.op in ("key", "val") and s.args[1] is L2:
                m[s] = mk(s.op, s.args[0], k.args[0]) if k.op == "idxvar" else mk("idx" + s.op, s.args[0], k)
        return self.subst(v, m)

    def subst(self, t, m):
        return subst(t, m)

    def arith(self, op, a, b):
        if a.op == "const" and b.op == "const":
            try:
                x, y = a.args[0], b.args[0]
                r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "**": lambda: x ** y if abs(y) < 100 else None,
                     "%": lambda: x % y, "//": lambda: x // y, "/": lambda: x / y, "|": lambda: x | y, "&": lambda: x & y}[op]()
                if r is not None and (not isinstance(r, (str, tuple)) or len(r) < 10000):
                    return const(r)
            except Exception:
                pass
        if op == "+" and (is_str(a) or is_str(b)):
            return mk_fmt([("s", a) if not is_const(a) else ("lit", a.args[0]), ("s", b) if not is_const(b) else ("lit", b.args[0])]) \
                if all(not is_const(x) or isinstance(x.args[0], str) for x in (a, b)) else mk("bin", op, a, b)
        if op in ("+", "-", "*") :
            if op in ("+", "-") and is_const(b, 0):
                return a
            if op == "+" and is_const(a, 0):
                return b
            if op == "*" and is_const(b, 1):
                return a
            if op == "*" and is_const(a, 1):
                return b
            # linear normal form over opaque integer atoms when obviously numeric
            if self.intlike(a) and self.intlike(b):
                return self.linear(op, a, b)
        if op == "+" and a.op == "tup" and b.op == "tup":
            return mk("tup", a.args[0] + b.args[0])
        return mk("bin", op, a, b)

    def intlike(self, t):
        return (t.op == "const" and isinstance(t.args[0], int) and not isinstance(t.args[0], bool)) or t.op in ("idxvar", "lin") or (
            t.op == "app" and t.args[0] is ext("builtins.len")) or (t.op == "bin" and t.args[0] == "*" and self.intlike(t.args[1]) and self.intlike(t.args[2])) or (
            self.typeof(t) is T_type("int"))

    def lin_of(self, t):
        if t.op == "const":
            return {}, t.args[0]
        if t.op == "lin":
            return dict(t.args[0]), t.args[1]
        return {t: 1}, 0

    def linear(self, op, a, b):
        (da, ca), (db, cb) = self.lin_of(a), self.lin_of(b)
        if op == "*":
            if not da or not db:
                if not da:
                    da, ca, db, cb = db, cb, da, ca
                d = {k: v * cb for k, v in da.items()}
                c = ca * cb
            else:
                x, y = (a, b) if a.uid <= b.uid else (b, a)
                return mk("bin", "*", x, y)
        else:
            s = 1 if op == "+" else -1
            d = dict(da)
            for k, v in db.items():
                d[k] = d.get(k, 0) + s * v
            c = ca + s * cb
        d = {k: v for k, v in d.items() if v}
        if not d:
            return const(c)
        if c == 0 and len(d) == 1 and list(d.values()) == [1]:
            return next(iter(d))
        return mk("lin", tuple(sorted(d.items(), key=lambda kv: kv[0].uid)), c)

    # ---------------------------------------------------------------- types (only used to resolve methods and operators)

    def typeof(self, t, depth=0):
        if depth > 12:
            return None
        o, a = t.op, t.args
        if o == "sym":
            return a[1]
        if o == "const":
            return T_type(type(a[0]).__name__)
        if o == "obj":
            r = a[0]
            if r.kind == "inst":
                return T_type("inst", r.cls) if r.cls is not None and r.cls.op == "cls" else None
            return T_type(r.kind)
        if o == "symw":
            return T_type("inst", a[0]) if a[0].op == "cls" else None
        if o in ("tree", "treeatom"):
            return T_type("inst", self.prog.cls_term("protosym.core.tree.Tree"))
        if o == "atom":
            return T_type("inst", self.prog.cls_term("protosym.core.atom.Atom"))
        if o == "tup":
            if any(x.op == "star" for x in a[0]):
                return T_type("tuple")
            return T_type("tupleof", tuple(self.typeof(x, depth + 1) for x in a[0]))
        if o in ("fmt", "join"):
            return T_type("str")
        if o in ("idxvar", "lin"):
            return T_type("int")
        if o in ("phi",):
            x, y = self.typeof(a[1], depth + 1), self.typeof(a[2], depth + 1)
            return x if x is y else None
        if o == "attr":
            b = self.typeof(a[0], depth + 1)
            if b is not None and b.args[0] == "inst":
                for c in b.args[1].args[0].mro():
                    if a[1] in c.ann:
                        return self.prog.annotation(c.ann[a[1]], c.module)
                    f = c.ns.get(a[1])
                    if f is not None and f.op == "fn" and f.args[0].kind == "property":
                        return self.prog.annotation(f.args[0].node.returns, f.args[0].module)
                    if a[1] in getattr(c, "inferred", {}):
                        return c.inferred[a[1]]
            return None
        if o in ("idx", "elem", "popped"):
            if a[0].op == "obj" and a[0].args[0].kind == "list":
                return self.elemtype(a[0], depth + 1)
            b = self.typeof(a[0], depth + 1)
            if b is None:
                return None
            if o == "popped":
                return b.args[1] if b.args[0] in ("listof", "tuplevar") else None
            if b.args[0] in ("listof", "setof"):
                return b.args[1]
            if b.args[0] == "tupleof":
                if o == "idx" and a[1].op == "const" and isinstance(a[1].args[0], int) and 0 <= a[1].args[0] < len(b.args[1]):
                    return b.args[1][a[1].args[0]]
                if len(set(b.args[1])) == 1:
                    return b.args[1][0]
            if b.args[0] == "tuplevar":
                return b.args[1]
            if b.args[0] == "dictof":
                return b.args[2] if o == "idx" else b.args[1]
            return None
        if o in ("key", "val"):
            b = self.typeof(a[0], depth + 1)
            if b is not None and b.args[0] == "dictof":
                return b.args[1 if o == "key" else 2]
            return None
        if o == "slice":
            return self.typeof(a[0], depth + 1)
        if o == "app":
            f = a[0]
            if f.op == "bound":
                f = f.args[1]
            if f.op == "fn":
                fn = f.args[0]
                if isinstance(fn.node, ast.Lambda) or fn.node.returns is None:
                    return None
                return self.prog.annotation(fn.node.returns, fn.module, fn)
            if f.op == "cls":
                return T_type("inst", f)
            if f is ext("builtins.len"):
                return T_type("int")
            if f is ext("builtins.str") or f is ext("builtins.repr"):
                return T_type("str")
            if f in (ext("builtins.list"), ext("builtins.tuple"), ext("builtins.sorted"), ext("builtins.reversed")) and len(a[1]) == 1:
                return self.typeof(a[1][0], depth + 1)
            if f.op == "attr" and f.args[1] in ("copy", "get") and a[1] is not None:
                b = self.typeof(f.args[0], depth + 1)
                if b is not None and f.args[1] == "copy":
                    return b
                if b is not None and b.args[0] == "dictof":
                    return b.args[2]
        if o == "bin" and a[0] in "+-":
            x, y = self.typeof(a[1], depth + 1), self.typeof(a[2], depth + 1)
            return x if x is y else None
        return None

    ty_active: set = set()

    def elemtype(self, base, depth=0):
        """Common type of everything ever put into a list object; None when unknown."""
        if base in self.ty_active or depth > 12:
            return None
        self.ty_active.add(base)
        try:
            tys = []
            for x in base.args[0].init:
                if x.op == "star":
                    b = x.args[0]
                    if b.op == "obj" and b.args[0].kind == "list":
                        tys.append(self.elemtype(b, depth + 1))
                    else:
                        t = self.typeof(b, depth + 1)
                        tys.append(t.args[1] if t is not None and t.args[0] in ("listof", "tuplevar", "setof", "seqof") else None)
                else:
                    tys.append(self.typeof(x, depth + 1))
            for e in self.content_effects(base):
                if e.name in ("append", "add") and len(e.args) == 1:
                    v = e.args[0]
                    if any(s in self.ty_active for s in subterms(v) if s.op == "obj"):
                        # built from elements of this very list: contributes only what is known of it
                        t = self.typeof(v, depth + 1)
                        if t is not None:
                            tys.append(t)
                    else:
                        tys.append(self.typeof(v, depth + 1))
                elif e.name in ("extend", "__setitem__", "insert", "__iadd__"):
                    return None
            tys = list(dict.fromkeys(tys))
            # a tuple with unknown components is compatible with a better known one
            best = None
            for t in tys:
                if t is None:
                    return None
                if best is None or best is t:
                    best = t
                elif t.args[0] == best.args[0] == "tupleof" and len(t.args[1]) == len(best.args[1]):
                    m = []
                    for x, y in zip(t.args[1], best.args[1]):
                        if x is not None and y is not None and x is not y:
                            return None
                        m.append(x or y)
                    best = T_type("tupleof", tuple(m))
                else:
                    return None
            return best
        finally:
            self.ty_active.discard(base)

    # ---------------------------------------------------------------- statements

    def exec_block(self, body, st, fid):
        for s in body:
            if st is None:
                return None
            n = len(st.gate)
            st = self.exec_stmt(s, st, fid)
            if st is not None and any(c.op == "lret" and c.args[0].kind == "never" for c, p in st.gate[n:]):
                return None  # a called function cannot return
        return st

    def exec_stmt(self, s, st, fid):
        self.steps += 1
        if self.steps > 400000:
            raise Limit("step budget exceeded")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unk("statement " + type(s).__name__, s)
            return st
        return m(s, st, fid)

    def s_Pass(self, s, st, fid):
        return st

    def s_Expr(self, s, st, fid):
        self.ev(s.value, st, fid)
        return st

    def s_Return(self, s, st, fid):
        n = len(st.gate)
        v = self.ev(s.value, st, fid) if s.value is not None else NONE
        if any(c.op == "lret" and c.args[0].kind == "never" for c, p in st.gate[n:]):
            return None  # a called function cannot return
        fr = self.frame_info[fid]
        for L in self.loops:
            L_in = L not in fr["loops"]
            if L_in:
                L.returns = True
        fr["returns"].append(Outcome("return", v, noheld(st.gate), self.loops, s, self.cur_module, self.fstack, st))
        return None

    def s_Raise(self, s, st, fid):
        v = self.ev(s.exc, st, fid) if s.exc is not None else mk("reraise")
        self.raise_sinks[-1].append(Outcome("raise", v, noheld(st.gate), self.loops, s, self.cur_module, self.fstack, st, len(self.log)))
        return None

    def s_Assert(self, s, st, fid):
        c = self.cond(s.test, st, fid)
        bad = self.assume(st.fork(), c, False)
        if bad is not None:
            self.raise_sinks[-1].append(Outcome("raise", mk("app", ext("builtins.AssertionError"), (), ()), bad.gate, self.loops, s, self.cur_module, self.fstack, bad))
        return self.assume(st, c, True)

    def assume(self, st, c, pol):
        facts = {lit_term(l) for l in st.gate}
        c = eval_under(c, facts)
        t = c if pol else mk_not(c)
        if t is FALSE:
            return None
        st.gate = st.gate + tuple(l for l in lits(t) if l not in st.gate)
        return st

    def merge(self, a, b, c, base):
        """Join of two states that split at `base` gate on condition c (a: c true)."""
        if a is None:
            return b
        if b is None:
            return a
        frames = {}
        for f in set(a.frames) | set(b.frames):
            fa, fb = a.frames.get(f), b.frames.get(f)
            if fa is None or fb is None:
                frames[f] = dict(fa if fb is None else fb)
                continue
            if fa == fb:
                frames[f] = dict(fa)
                continue
            d = {}
            for v in list(fa) + [x for x in fb if x not in fa]:
                x, y = fa.get(v), fb.get(v)
                if x is y:
                    d[v] = x
                elif x is None or y is None:
                    d[v] = mk_phi(c, x or mk("undef", v), y or mk("undef", v))
                else:
                    d[v] = mk_phi(c, x, y)
            frames[f] = d
        ga = [l for l in a.gate if l not in base]
        gb = [l for l in b.gate if l not in base]
        common = [l for l in ga if l in gb]
        ra = conj([l for l in ga if l not in common])
        rb = conj([l for l in gb if l not in common])
        rest = mk_or([ra, rb])
        return State(frames, tuple(base) + tuple(common) + lits(rest))

    def s_If(self, s, st, fid):
        c = self.cond(s.test, st, fid)
        facts = {lit_term(l) for l in st.gate}
        c = eval_under(c, facts)
        if c is TRUE:
            return self.exec_block(s.body, st, fid)
        if c is FALSE:
            return self.exec_block(s.orelse, st, fid)
        base = st.gate
        a, b = st.fork(), st.fork()
        a = self.assume(a, c, True)
        b = self.assume(b, c, False)
        if a is not None:
            a = self.exec_block(s.body, a, fid)
        if b is not None:
            b = self.exec_block(s.orelse, b, fid)
        return self.merge(a, b, c, base)

    def assign(self, target, v, st, fid, node):
        if isinstance(target, ast.Name):
            self.setname(target.id, v, st, fid, node)
        elif isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            stars = [i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)]
            ks = self.known_seq(v, st)
            for i, e in enumerate(target.elts):
                if isinstance(e, ast.Starred):
                    if ks is not None:
                        end = len(ks) - (n - 1 - i)
                        self.assign(e.value, self.new_obj("list", st, node, init=ks[i:end]), st, fid, node)
                    else:
                        hi = NONE if i == n - 1 else const(-(n - 1 - i))
                        if hi is NONE and v.op == "tup" and not any(x.op == "star" for x in v.args[0][:i]) and len(v.args[0]) >= i:
                            rest = self.new_obj("list", st, node, init=v.args[0][i:])
                        else:
                            rest = self.mk_slice(v, const(i), hi, NONE)
                        self.assign(e.value, rest, st, fid, node)
                elif stars and i > stars[0]:
                    x = ks[i - n] if ks is not None and len(ks) >= n - 1 else self.index(v, const(i - n))
                    self.assign(e, x, st, fid, node)
                else:
                    if ks is not None and i < len(ks):
                        x = ks[i]
                    elif v.op == "phi":
                        x = self.phimap(v, lambda q: self.getitem(q, const(i), st, fid, node))
                    else:
                        x = self.getitem(v, const(i), st, fid, node)
                    self.assign(e, x, st, fid, node)
        elif isinstance(target, ast.Attribute):
            b = self.ev(target.value, st, fid)
            self.setattr(b, target.attr, v, st, node)
        elif isinstance(target, ast.Subscript):
            b = self.ev(target.value, st, fid)
            k = self.ev_index(target.slice, st, fid)
            self.setitem(b, k, v, st, fid, node)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v, st, fid, node)
        else:
            self.unk("assignment target", node)

    def phimap(self, v, f):
        if v.op == "phi":
            return mk_phi(v.args[0], self.phimap(v.args[1], f), self.phimap(v.args[2], f))
        return f(v)

    def setname(self, name, v, st, fid, node):
        info = self.frame_info.get(fid)
        if info is not None and name in info["globals"]:
            self.eff("setglobal", mk("mod", self.cur_module.name), name, (v,), st, node)
            return
        if info is not None and name in info["nonlocals"]:
            f = info["parent"]
            while f is not None and f in self.frame_info:
                if name in st.frames.get(f, {}):
                    self.eff("setnonlocal", mk("const", self.frame_info[f]["qual"]), name, (v,), st, node)
                    st.frames[f][name] = v
                    return
                f = self.frame_info[f]["parent"]
            return
        st.frames[fid][name] = v

    def setattr(self, b, name, v, st, node):
        if b.op == "phi":
            base = st.gate
            for g, leaf in phi_leaves(b):
                s2 = State(st.frames, base + g)
                self.setattr(leaf, name, v, s2, node)
            return
        self.eff("setattr", b, name, (v,), st, node)
        if b.op == "mod" and b.args[0] in self.prog.modules and self.era == "module":
            self.prog.modules[b.args[0]].ns[name] = v
        if b.op == "cls" and self.era == "module":
            b.args[0].ns[name] = v

    def setitem(self, b, k, v, st, fid, node):
        m = self.find_method(b, "__setitem__", st)
        if m is not None:
            self.call_term(m, [k, v], {}, st, fid, node)
            return
        self.eff("mut", b, "__setitem__", (k, v), st, node)

    def s_Assign(self, s, st, fid):
        v = self.ev(s.value, st, fid)
        for t in s.targets:
            self.assign(t, v, st, fid, s)
        return st

    def s_AnnAssign(self, s, st, fid):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fid), st, fid, s)
        return st

    def s_AugAssign(self, s, st, fid):
        op = OPS[type(s.op)]
        load = ast.copy_location(_as_load(s.target), s.target)
        cur = self.ev(load, st, fid)
        v = self.ev(s.value, st, fid)
        ty = self.typeof(cur)
        tyn = ty.args[0] if ty is not None else None
        leaves = phi_leaves(cur)
        if op == "+" and all(x.op == "obj" and x.args[0].kind == "list" for _, x in leaves) or (tyn in ("list", "listof") and op == "+"):
            self.phi_gated(cur, st, lambda x, s2: (self.extend(x, v, s2, s), x)[1])
            if not isinstance(s.target, ast.Name):
                self.assign(s.target, cur, st, fid, s)
            return st
        if tyn in ("set", "setof", "dict", "dictof") and op in "|&-^":
            self.eff("mut", cur, {"|": "update", "&": "intersection_update", "-": "difference_update", "^": "symmetric_difference_update"}[op], (v,), st, s)
            return st
        def listlike(gate, x):
            ty = self.typeof(x)
            return x.op == "obj" and x.args[0].kind == "list" or ty is not None and ty.args[0] in ("list", "listof") \
                or x.op != "const" and any(lit_term(l) is mk("isinst", x, ext("builtins.list")) for l in gate)
        gates = {x: g for g, x in leaves}
        if op == "+" and any(listlike(g, x) for g, x in leaves):
            new = self.phi_gated(cur, st, lambda x, s2: (self.extend(x, v, s2, s), x)[1] if listlike(gates.get(x, ()) + tuple(s2.gate), x)
                                 else self.binop(op, x, v, s2, fid, s))
        else:
            new = self.binop(op, cur, v, st, fid, s)
        self.assign(s.target, new, st, fid, s)
        return st

    def extend(self, b, v, st, node):
        """b += v: with a display of a few items like appending each."""
        ks = self.known_seq(v, st) if v.op == "tup" or v.op == "obj" and v.args[0].kind == "list" and v is not b else None
        if ks is None or not 1 <= len(ks) <= 4:
            return self.eff("mut", b, "extend", (v,), st, node)
        for x in ks:
            e = self.eff("mut", b, "append", (x,), st, node)
        return e

    def s_Delete(self, s, st, fid):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frames[fid].pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st, fid)
                self.eff("delattr", b, t.attr, (), st, s)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, fid)
                self.eff("mut", b, "__delitem__", (self.ev_index(t.slice, st, fid),), st, s)
        return st

    def s_Global(self, s, st, fid):
        if fid in self.frame_info:
            self.frame_info[fid]["globals"].update(s.names)
        return st

    def s_Nonlocal(self, s, st, fid):
        self.frame_info[fid]["nonlocals"].update(s.names)
        return st

    def s_Import(self, s, st, fid):
        for al in s.names:
            top = al.name.split(".")[0]
            if top in ABSENT_MODULES:
                self.raise_sinks[-1].append(Outcome("raise", mk("app", ext("builtins.ImportError"), (const(al.name),), ()), st.gate, self.loops, s, self.cur_module, self.fstack, st.fork()))
                return None
            self.eff("import", None, al.name, (), st, s)
            if al.asname:
                v = self.prog.module_term(al.name)
                self.setname(al.asname, v, st, fid, s)
            else:
                self.prog.module_term(al.name)
                self.setname(top, self.prog.module_term(top), st, fid, s)
        return st

    def s_ImportFrom(self, s, st, fid):
        mod = s.module or ""
        if s.level:
            pkg = self.cur_module.name.split(".")
            if not self.cur_module.path.endswith("__init__.py"):
                pkg = pkg[:-1]
            pkg = pkg[: len(pkg) - (s.level - 1)]
            mod = ".".join(pkg + ([mod] if mod else []))
        if mod == "__future__":
            return st
        if mod.split(".")[0] in ABSENT_MODULES:
            self.raise_sinks[-1].append(Outcome("raise", mk("app", ext("builtins.ImportError"), (const(mod),), ()), st.gate, self.loops, s, self.cur_module, self.fstack, st.fork()))
            return None
        self.eff("import", None, mod, tuple(const(a.name) for a in s.names), st, s)
        for al in s.names:
            if al.name == "*":
                m = self.prog.load(mod)
                if m is not None:
                    for k, v in list(m.ns.items()):
                        if not k.startswith("_"):
                            self.setname(k, v, st, fid, s)
                continue
            self.setname(al.asname or al.name, self.prog.import_from(mod, al.name), st, fid, s)
        return st

    def s_FunctionDef(self, s, st, fid):
        info = self.frame_info.get(fid)
        cls = self.cur_class if (info is not None and info.get("classbody")) else None
        qual = (info["qual"] + "." if info else "") + s.name
        fn = Fn(s, self.cur_module, s.name, qual, cls, None if info is None or info.get("module") or info.get("classbody") else fid)
        if info is not None and not info.get("module") and not info.get("classbody"):
            info["captured"] = True
        elif info is not None and info.get("classbody") and info["parent"] is not None and not self.frame_info[info["parent"]].get("module"):
            fn.frame = info["parent"]
            self.frame_info[info["parent"]]["captured"] = True
        a = s.args
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            fn.defaults[p.arg] = self.ev(d, st, fid)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                fn.defaults[p.arg] = self.ev(d, st, fid)
        v = mk("fn", fn)
        for d in reversed(s.decorator_list):
            dt = self.ev(d, st, fid)
            v = self.decorate(dt, v, fn, st, fid, s)
        self.setname(s.name, v, st, fid, s)
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def decorate(self, dt, v, fn, st, fid, node):
        if dt.op == "ext":
            n = dt.args[0]
            if n == "builtins.staticmethod":
                fn.kind = "static"
                return v
            if n == "builtins.classmethod":
                fn.kind = "class"
                return v
            if n in ("builtins.property",):
                fn.kind = "property"
                return v
            if n in ("typing.overload", "typing.final", "functools.wraps", "abc.abstractmethod", "typing.no_type_check"):
                return v
            if "lru_cache" in n or n.endswith(".cache") or n.endswith("cached_property"):
                fn.decorators.append(dt)
                if n.endswith("cached_property"):
                    fn.kind = "property"
                return v
            fn.decorators.append(dt)
            return v
        if dt.op == "app" and dt.args[0].op == "ext":
            n = dt.args[0].args[0]
            if n == "functools.wraps":
                return v
            fn.decorators.append(dt)
            return v
        if dt.op == "attr" and dt.args[1] in ("setter", "getter", "deleter"):
            fn.kind = "setter"
            return dt.args[0]
        if dt.op in ("fn", "bound", "cls"):
            r = self.call_term(dt, [v], {}, st, fid, node)
            if r.op == "fn":
                r.args[0].wraps = v
                if r.args[0].qual and fn.cls is not None:
                    r.args[0].cls = r.args[0].cls or fn.cls
            return r
        fn.decorators.append(dt)
        return v

    def s_ClassDef(self, s, st, fid):
        info = self.frame_info.get(fid)
        qual = (info["qual"] + "." if info else "") + s.name
        bases = []
        for b in s.bases:
            t = self.ev(b, st, fid)
            bases.append(t)
        c = Cls(s, self.cur_module, s.name, qual, bases)
        ct = mk("cls", c)
        old = self.cur_class
        self.cur_class = c
        nf = self.new_frame(qual, parent=fid, classbody=True)
        st.frames[nf] = {}
        st2 = self.exec_block(s.body, st, nf)
        c.ns = dict((st2 or st).frames.pop(nf))
        for x in s.body:
            if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                c.ann[x.target.id] = x.annotation
                c.fields.append((x.target.id, x.value))
        self.cur_class = old
        for d in s.decorator_list:
            dt = self.ev(d, st, fid)
            n = dt.args[0].args[0] if dt.op == "app" and dt.args[0].op == "ext" else (dt.args[0] if dt.op == "ext" else "")
            if isinstance(n, str) and n.endswith("dataclass"):
                c.dataclass = True
                if dt.op == "app":
                    c.frozen = any(k == "frozen" and v is TRUE for k, v in dt.args[2])
        self.setname(s.name, ct, st, fid, s)
        self.prog.classes[qual] = c
        return st

    def s_With(self, s, st, fid):
        held = []
        for it in s.items:
            v = self.ev(it.context_expr, st, fid)
            self.eff("enter", v, "with", (), st, s)
            self.nheld += 1
            l = (mk("held", v, self.nheld), True)
            held.append(l)
            st.gate = st.gate + (l,)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v if v.op != "app" else mk("entered", v), st, fid, s)
        st = self.exec_block(s.body, st, fid)
        if st is not None:
            st.gate = tuple(l for l in st.gate if l not in held)
        return st

    def s_Try(self, s, st, fid):
        base = st.gate
        self.raise_sinks.append([])
        pre = st.fork()
        logstart = len(self.log)
        nhits = self.hits
        nlook, nret = len(self.lookups), len(self.frame_info[fid]["returns"]) if fid in self.frame_info and "returns" in self.frame_info[fid] else 0
        st = self.exec_block(s.body, st, fid)
        raised = self.raise_sinks.pop()
        may_raise = any(isinstance(n, (ast.Call, ast.Subscript, ast.Attribute, ast.BinOp, ast.Import, ast.ImportFrom)) for b in s.body for n in ast.walk(b))
        opaque = any(e.kind in ("call", "import") for e in self.log[logstart:])
        looked = self.lookups[nlook:]
        rets = self.frame_info[fid]["returns"][nret:] if fid in self.frame_info and "returns" in self.frame_info[fid] else []
        keyerr = None
        if self.deep and not opaque and len(looked) == 1 and not any(isinstance(n, (ast.Call, ast.BinOp)) for b in s.body for n in ast.walk(b)):
            # the only thing that can fail is the look-up of a key
            lb, lk, lg = looked[0]
            keyerr = mk_and([conj([l for l in lg if l not in base]), mk_not(self.contains_(lk, lb, pre))])
        if self.deep and not opaque and not looked and self.hits > nhits and not any(isinstance(n, (ast.Call, ast.BinOp)) for b in s.body for n in ast.walk(b)) \
                and self.hits - nhits == sum(isinstance(n, ast.Subscript) for b in s.body for n in ast.walk(b)):
            keyerr = FALSE      # every look-up finds its key
        if st is not None and s.orelse:
            if keyerr is not None and any(h.type is not None and isinstance(h.type, ast.Name) and h.type.id in ("KeyError", "LookupError") for h in s.handlers):
                st = self.assume(st, keyerr, False)
            st = self.exec_block(s.orelse, st, fid) if st is not None else None
        end = st
        unmatched = list(raised)
        for h in s.handlers:
            if h.type is None:
                types = [ext("builtins.BaseException")]
            else:
                tt = self.ev(h.type, pre, fid)
                types = list(tt.args[0]) if tt.op == "tup" else [tt]
            here = [r for r in unmatched if any(self.exc_matches(r.value, t) is not False for t in types)]
            unmatched = [r for r in unmatched if not any(self.exc_matches(r.value, t) is True for t in types)]
            conds = [conj([l for l in r.gate if l not in base and l[0].op != "inloop"]) for r in here]
            # exceptions of callees that are not inlined, or implicit ones (KeyError of a subscript ...)
            implicit = any(self.implicit_exc(t) for t in types)
            if (opaque or implicit) and may_raise and not (here and all(self.exc_matches(r.value, t) is True for r in here for t in types) and not implicit):
                if keyerr is not None and len(types) == 1 and types[0] in (ext("builtins.KeyError"), ext("builtins.LookupError")) and not here:
                    conds.append(keyerr)
                    for o in rets:
                        o.gate = o.gate + tuple(lits(mk_not(keyerr), True))
                else:
                    rc = mk("raises", s.lineno, tuple(types), tuple(dict.fromkeys(e.base for e in self.log[logstart:] if e.kind == "call")))
                    conds.append(rc)
                    if opaque and not all(t.op == "ext" and t.args[0].split(".")[-1] in ("ImportError", "ModuleNotFoundError") for t in types):
                        for o in rets:
                            o.gate = o.gate + ((rc, False),)
            if not conds:
                continue
            c = mk_or(conds)
            hs = self.assume(pre.fork(), c, True) if c is not TRUE else pre.fork()
            if hs is None:
                continue
            if len(here) == 1 and here[0].state is not None and not (opaque or implicit):
                hs.frames = {k: dict(v) for k, v in here[0].state.frames.items() if k in pre.frames}
            if h.name:
                hs.frames[fid][h.name] = mk("exc", s.lineno, tuple(types))
            hs = self.exec_block(h.body, hs, fid)
            if end is not None:
                if c.op != "const":
                    facts = {lit_term(l) for l in end.gate}
                    if eval_under(c, facts) is not FALSE:
                        end = self.assume(end, c, False) or end
                end = self.merge(hs, end, c, base) if hs is not None else end
            else:
                end = hs
        self.raise_sinks[-1].extend(unmatched)
        if s.finalbody and end is not None:
            end = self.exec_block(s.finalbody, end, fid)
        return end

    s_TryStar = s_Try

    def implicit_exc(self, t):
        return t.op == "ext" and t.args[0].split(".")[-1] in ("KeyError", "IndexError", "TypeError", "AttributeError", "ValueError", "Exception", "BaseException", "OverflowError", "LookupError", "StopIteration", "ZeroDivisionError", "ArithmeticError", "RecursionError")

    def exc_matches(self, v, t):
        """Does raised value v match handler type t: True / False / None (unknown)."""
        if v.op == "app":
            c = v.args[0]
        elif v.op == "obj" and v.args[0].kind == "inst":
            c = v.args[0].cls
        else:
            c = v
        if t.op == "ext" and t.args[0] in ("builtins.BaseException", "builtins.Exception"):
            return True
        if c is t:
            return True
        if c.op == "cls":
            if t.op == "cls":
                return t.args[0] in c.args[0].mro()
            if t.op == "ext":
                names = c.args[0].extbases()
                return any(n == t.args[0] or _builtin_sub(n, t.args[0]) for n in names)
        if c.op == "ext" and t.op == "ext":
            return _builtin_sub(c.args[0], t.args[0])
        if c.op == "ext" and t.op == "cls":
            return False
        return None

    # loops ------------------------------------------------------------------------------------

    def s_For(self, s, st, fid):
        it = self.uncopied(self.settle(self.ev(s.iter, st, fid)), s.iter)
        known = self.known_seq(it, st)
        if known is not None and len(known) <= 128:
            return self.unrolled_for(s, known, st, fid)
        return self.abstract_loop("for", s, it, st, fid)

    s_AsyncFor = s_For

    def unrolled_for(self, s, items, st, fid):
        ctx = {"breaks": [], "continues": [], "kind": "unrolled"}
        broken = []
        base = st.gate
        for x in items:
            if st is None:
                break
            self.assign(s.target, x, st, fid, s)
            ctx = {"breaks": [], "continues": []}
            self.loopctx.append(ctx)
            st = self.exec_block(s.body, st, fid)
            self.loopctx.pop()
            for c in ctx["continues"]:
                st = self.merge(c, st, conj([l for l in c.gate if l not in base]), base)
            broken.extend(ctx["breaks"])
        if s.orelse and st is not None:
            st = self.exec_block(s.orelse, st, fid)
        for b in broken:
            st = self.merge(b, st, conj([l for l in b.gate if l not in base]), base)
        return st

    def s_While(self, s, st, fid):
        t = s.test
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, ast.Call) and isinstance(t.operand.func, ast.Attribute) \
                and t.operand.func.attr == "acquire" and all(isinstance(n, (ast.Pass, ast.Continue)) for n in s.body) and not s.orelse:
            b = self.ev(t.operand.func.value, st, fid)
            if is_lock(b):      # waits until the lock is held
                self.nheld += 1
                self.eff("enter", b, "with", (), st, s)
                st.gate = st.gate + ((mk("held", b, self.nheld), True),)
                return st
        return self.abstract_loop("while", s, None, st, fid)

    def abstract_loop(self, kind, s, it, st, fid):
        names = _assigned(s)
        fr = st.frames[fid]
        def container(n):
            kinds = {x.args[0].kind if x.op == "obj" else None for _, x in phi_leaves(fr[n])} if n in fr else set()
            k = kinds.pop() if len(kinds) == 1 else None
            return k in ("list", "set", "dict") and _augmented_only(s, n, k)
        names = [n for n in names if not container(n)]
        # dry run to find the objects mutated by the body
        save = (len(self.log), len(self.unmodelled), len(self.recursion), len(self.calls))
        mutated = self.loop_body(kind, s, it, st.fork(), fid, names, None)[1]
        counters = self.counters(self.dry_loop, names)
        del self.log[save[0]:]
        del self.unmodelled[save[1]:]
        del self.recursion[save[2]:]
        del self.calls[save[3]:]
        return self.loop_body(kind, s, it, st, fid, names, mutated, counters)[0]

    def counters(self, L, names):
        """Variables that grow by a constant in every iteration: {name: step}."""
        out = {}
        for n in names:
            i, b = L.init.get(n), L.back.get(n)
            if i is None or b is None or not self.intlike(i):
                continue
            m = mk("mu", L, n)
            if b.op == "bin" and b.args[0] in "+-" and b.args[1] is m and b.args[2].op == "const" and type(b.args[2].args[0]) is int:
                out[n] = b.args[2].args[0] * (1 if b.args[0] == "+" else -1)
            elif b.op == "bin" and b.args[0] == "+" and b.args[2] is m and b.args[1].op == "const" and type(b.args[1].args[0]) is int:
                out[n] = b.args[1].args[0]
            elif b.op == "lin" and b.args[0] == ((m, 1),):
                out[n] = b.args[1]
        return out

    def loop_body(self, kind, s, it, st, fid, names, mutated, counters=None):
        L = Loop(kind, s, it, st.gate, self.loops, self.fstack[-1] if self.fstack else None)
        dry = mutated is None
        base = st.gate
        entry = st
        fr = st.frames[fid]
        if it is not None and it.op == "obj":
            pass
        for n in names:
            if n in fr:
                L.init[n] = fr[n]
                fr[n] = mk("mu", L, n)
                if counters and n in counters:
                    fr[n] = self.arith("+", L.init[n], self.arith("*", mk("idxvar", L), const(counters[n])))
        if not dry:
            for b, attr in mutated:
                self.eff("havoc", b, attr or "content", (mk("inloop", L),), st, s)
        start = len(self.log)
        sinks = self.raise_sinks[-1]
        nrets = [len(i["returns"]) for i in self.frame_info.values()] if dry else None
        nsink = len(sinks)
        self.loops = self.loops + (L,)
        body = st.fork()
        body.gate = base + ((mk("inloop", L), True),)
        elsecond = None
        if kind == "for":
            self.assign(s.target, self.mk_elem(it, L), body, fid, s)
        else:
            c = self.cond(s.test, body, fid)
            L.cond = c
            if c is FALSE:
                body = None
            else:
                body = self.assume(body, c, True)
        ctx = {"breaks": [], "continues": []}
        self.loopctx.append(ctx)
        end = self.exec_block(s.body, body, fid) if body is not None else None
        self.loopctx.pop()
        bbase = base + ((mk("inloop", L), True),)
        for c in ctx["continues"]:
            end = self.merge(c, end, conj([l for l in c.gate if l not in bbase]), bbase)
        self.loops = self.loops[:-1]
        if end is not None:
            for n in names:
                if n in end.frames[fid]:
                    L.back[n] = end.frames[fid][n]
        for b in ctx["breaks"]:
            L.breaks.append((b.gate, {n: b.frames[fid].get(n) for n in names}))
        if dry:
            mut = []
            for e in self.log[start:]:
                if e.kind in ("mut", "setattr", "havoc") and e.base is not None:
                    if e.base.op == "obj" and e.base.args[0].loops and L in e.base.args[0].loops:
                        continue
                    if contains(e.base, lambda x: (x.op in ("elem", "key", "val") and x.args[1] is L) or (x.op == "idxvar" and x.args[0] is L) or (x.op in ("mu", "inloop") and x.args[0] is L) or x.op == "obj" and L in x.args[0].loops):
                        continue
                    k = (e.base, e.name if e.kind == "setattr" else (e.name if e.kind == "havoc" and e.name != "content" else None))
                    if k not in mut:
                        mut.append(k)
            del sinks[nsink:]
            self.dry_loop = L
            for i, n in zip(list(self.frame_info.values()), nrets):
                del i["returns"][n:]
            return None, mut
        after = entry
        for n in names:
            if L.back.get(n) is mk("mu", L, n) and not any(bv.get(n) is not mk("mu", L, n) for _, bv in L.breaks):
                after.frames[fid][n] = L.init[n]
            elif counters and n in counters and n in L.init and kind == "for" and not L.breaks and not L.returns and self.domain(L).op != "zipdom":
                after.frames[fid][n] = self.arith("+", L.init[n], self.arith("*", mk("app", ext("builtins.len"), (self.domain(L),), ()), const(counters[n])))
            else:
                after.frames[fid][n] = mk("out", L, n)
        # while-loop normal exit: condition false (only meaningful for its unversioned form)
        after.gate = base
        if L.returns:
            after.gate = after.gate + ((mk("lret", L), False),)
        infinite = kind == "while" and L.cond is TRUE
        if s.orelse:
            if L.breaks:
                b = after.fork()
                els = after.fork()
                els.gate = els.gate + ((mk("broke", L), False),)
                els = self.exec_block(s.orelse, els, fid)
                b.gate = b.gate + ((mk("broke", L), True),)
                after = self.merge(b, els, mk("broke", L), base)
            else:
                after = self.exec_block(s.orelse, after, fid)
        elif infinite and not L.breaks:
            return None, None
        return after, None

    def s_Break(self, s, st, fid):
        self.loopctx[-1]["breaks"].append(st)
        return None

    def s_Continue(self, s, st, fid):
        self.loopctx[-1]["continues"].append(st)
        return None

    def s_Match(self, s, st, fid):
        subj = self.ev(s.subject, st, fid)
        base = st.gate
        end = None
        results = []
        cur = st
        for case in s.cases:
            if cur is None:
                break
            c = self.pattern(case.pattern, subj, cur, fid)
            if case.guard is not None:
                c = mk_and([c, self.cond(case.guard, cur, fid)])
            a = self.assume(cur.fork(), c, True)
            if a is not None:
                self.capture(case.pattern, subj, a, fid)
                a2 = self.exec_block(case.body, a, fid)
                results.append((c, a2))
            cur = self.assume(cur, c, False)
        end = cur
        for c, a in reversed(results):
            end = self.merge(a, end, c, base)
        return end

    def matched(self, p, subj):
        """The parts of a sequence pattern and the parts of the subject they match."""
        n = len(p.patterns)
        k = next((i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)), n)
        for i, q in enumerate(p.patterns):
            if i < k:
                yield q, self.index(subj, const(i))
            elif i == k:
                yield q, self.mk_slice(subj, const(k) if k else NONE, const(k + 1 - n) if k + 1 < n else NONE, NONE)
            else:
                yield q, self.index(subj, const(i - n))

    def capture(self, p, subj, st, fid):
        """The names a pattern binds."""
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                self.capture(p.pattern, subj, st, fid)
            if p.name:
                st.frames[fid][p.name] = subj
        elif isinstance(p, ast.MatchStar) and p.name:
            st.frames[fid][p.name] = subj
        elif isinstance(p, ast.MatchSequence):
            for q, v in self.matched(p, subj):
                self.capture(q, v, st, fid)
        elif isinstance(p, ast.MatchOr):
            for q in p.patterns:
                for x in ast.walk(q):
                    if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                        st.frames[fid][x.name] = self.unk("name " + x.name, x)

    def pattern(self, p, subj, st, fid):
        if isinstance(p, ast.MatchValue):
            return self.equal(subj, self.ev(p.value, st, fid))
        if isinstance(p, ast.MatchSingleton):
            return self.equal(subj, const(p.value))
        if isinstance(p, ast.MatchOr):
            return mk_or([self.pattern(q, subj, st, fid) for q in p.patterns])
        if isinstance(p, ast.MatchAs):
            return TRUE if p.pattern is None else self.pattern(p.pattern, subj, st, fid)
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.isinst(subj, self.ev(p.cls, st, fid))
        if isinstance(p, ast.MatchSequence):
            k = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            n = self.call_ext(ext("builtins.len"), [subj], {}, st, fid, p)
            if k:
                cs = [] if len(p.patterns) == 1 else [mk_not(self.less(n, const(len(p.patterns) - 1)))]
            elif not p.patterns:
                cs = [mk_not(self.truth(subj))]
            else:
                cs = [self.equal(n, const(len(p.patterns)))]
            for q, v in self.matched(p, subj):
                cs.append(self.pattern(q, v, st, fid))
            return mk_and(cs)
        if isinstance(p, ast.MatchStar):
            return TRUE
        self.unk("match pattern", p)
        self.ntmp += 1
        return mk("truth", mk("unk", "pattern", self.ntmp))

    # ---------------------------------------------------------------- conditions

    def cond(self, e, st, fid):
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            out = []
            s2 = st
            for i, v in enumerate(e.values):
                c = self.cond(v, s2, fid)
                out.append(c)
                if i < len(e.values) - 1:
                    s2 = State(s2.frames, s2.gate + tuple(l for l in lits(c, isand) if l not in s2.gate))
            return mk_and(out) if isand else mk_or(out)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return mk_not(self.cond(e.operand, st, fid))
        v = self.ev(e, st, fid)
        t = self.truth(v)
        return eval_under(t, {lit_term(l) for l in st.gate})

    # ---------------------------------------------------------------- expressions

    def ev(self, e, st, fid):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unk("expression " + type(e).__name__, e)
        return m(e, st, fid)

    def e_Constant(self, e, st, fid):
        return const(e.value)

    def e_Name(self, e, st, fid):
        return self.lookup(e.id, st, fid, e)

    def lookup(self, name, st, fid, node=None):
        f = fid
        first = True
        while f is not None:
            info = self.frame_info.get(f)
            fr = st.frames.get(f)
            if fr is not None and name in fr and (first or info is None or not info.get("classbody")):
                if not (info is not None and name in info["globals"]):
                    return fr[name]
            if info is None:
                break
            first = False
            f = info["parent"]
        m = self.cur_module
        if m is not None and name in m.ns:
            if self.volatile and ("global", m.name, name) in self.volatile:
                return mk("sym", f"{m.name}.{name}", None)
            return m.ns[name]
        if name == "__name__" and m is not None:
            return const(m.name)
        if name in BUILTINS:
            return ext("builtins." + name)
        return self.unk("name " + name, node)

    def e_Attribute(self, e, st, fid):
        b = self.ev(e.value, st, fid)
        return self.getattr(b, e.attr, st, fid, e)

    given: dict = {}        # attributes of inputs that the caller of the analysis describes

    def getattr(self, b, name, st, fid, node):
        op = b.op
        if self.given and mk("attr", b, name) in self.given:
            return self.given[mk("attr", b, name)]
        if op == "phi":
            r = self.phi_gated(b, st, lambda q, s2: self.getattr(q, name, s2, fid, node))
            return r
        if op == "mod":
            if b.args[0] in self.prog.modules:
                m = self.prog.load(b.args[0])
                if name in m.ns:
                    return m.ns[name]
                sub = b.args[0] + "." + name
                if sub in self.prog.files:
                    self.prog.load(sub)
                    return mk("mod", sub)
                return mk("attr", b, name)
            return ext(b.args[0] + "." + name)
        if op == "ext":
            return ext(b.args[0] + "." + name)
        if op == "cls":
            c = b.args[0]
            v, owner = c.lookup(name)
            if v is not None:
                if v.op == "fn":
                    if v.args[0].kind == "class":
                        return mk("bound", b, v)
                    return v
                return v
            if name == "__name__":
                return const(c.name)
            if name == "__new__":
                return mk("bound", b, ext("builtins.object.__new__"))
            return mk("attr", b, name)
        if op == "super":
            owner, selfv = b.args
            mro = owner.args[0].mro()
            for c in mro[1:]:
                if name in c.ns:
                    v = c.ns[name]
                    if v.op == "fn" and v.args[0].name == "__new__":
                        return v
                    if v.op == "fn" and v.args[0].kind == "static":
                        return v
                    if v.op == "fn" and v.args[0].kind == "property":
                        return self.call_fn(v.args[0], [selfv], {}, st, fid, node)
                    return mk("bound", selfv, v) if v.op == "fn" else v
            if name == "__new__":
                return ext("builtins.object.__new__")
            if name == "__init__":
                return ext("builtins.object.__init__")
            return ext("builtins.object." + name)
        if op == "symw":
            if name == "rep":
                return b.args[1]
        if op == "tree":
            if name == "children":
                return b.args[0]
        if op == "treeatom":
            if name == "value":
                return b.args[0]
            if name == "children":
                return mk("tup", ())
        if op == "atom":
            if name == "atom_type":
                return b.args[0]
            if name == "value":
                return b.args[1]
        if name == "__class__":
            return self.typecall(b)
        # instance attribute written during the analysis
        if op in ("obj", "sym", "attr", "app", "elem", "idx"):
            v = self.read_attr(b, name, st)
            if v is not None:
                return v
        # class level
        m = self.find_attr(b, name)
        if m is not None:
            v, owner = m
            if v.op == "fn":
                k = v.args[0].kind
                if k == "property":
                    return self.call_term(mk("bound", b, v), [], {}, st, fid, node) if True else None
                if k == "static":
                    return v
                if k == "class":
                    ty = self.typecall(b)
                    return mk("bound", ty, v)
                return mk("bound", b, v)
            if op == "obj" or name not in getattr(owner, "ann", {}):
                return v
        return mk("attr", b, name)

    def phi_gated(self, t, st, f):
        if t.op == "phi":
            facts = {lit_term(l) for l in st.gate}
            c = eval_under(t.args[0], facts)
            if c is TRUE:
                return self.phi_gated(t.args[1], st, f)
            if c is FALSE:
                return self.phi_gated(t.args[2], st, f)
            a = self.phi_gated(t.args[1], State(st.frames, st.gate + lits(c)), f)
            b = self.phi_gated(t.args[2], State(st.frames, st.gate + lits(c, False)), f)
            return mk_phi(c, a, b)
        return f(t, st)

    def read_attr(self, b, name, st):
        """Value of an attribute from the effect log, or None."""
        out = None
        chain = []
        for e in reversed(self.log):
            if e.base is b and e.name == name and e.kind in ("setattr", "havoc", "delattr"):
                if self.volatile and (b, name) in self.volatile and e.pos < self.base:
                    out = mk("attr", b, name)
                    break
                v = self.vis(e, st)
                if v == "no":
                    continue
                if e.kind == "havoc":
                    out = mk("mu", e.args[0].args[0], mk("attr", b, name))
                    break
                if v == "def":
                    out = e.args[0] if e.args else mk("undef", name)
                    break
                if any(l not in self.loops for l in e.loops):
                    out = mk("out", e.loops[-1], mk("attr", b, name))
                    break
                cur = {lit_term(l) for l in st.gate}
                c = conj([l for l in e.gate if lit_term(l) not in cur])
                chain.append((c, e.args[0] if e.args else mk("undef", name)))
        if out is None and not chain:
            return None
        if out is None:
            out = mk("attr", b, name) if b.op != "obj" else mk("undef", name)
        for c, v in reversed(chain):
            out = mk_phi(c, v, out)
        return out

    def find_attr(self, b, name):
        ty = None
        if b.op == "obj" and b.args[0].kind == "inst":
            c = b.args[0].cls
        else:
            ty = self.typeof(b)
            c = ty.args[1] if ty is not None and ty.args[0] == "inst" else None
        if c is None or c.op != "cls":
            return None
        v, owner = c.args[0].lookup(name)
        return None if v is None else (v, owner)

    def find_method(self, b, name, st):
        m = self.find_attr(b, name)
        if m is not None and m[0].op == "fn":
            return mk("bound", b, m[0])
        return None

    def e_Subscript(self, e, st, fid):
        b = self.ev(e.value, st, fid)
        k = self.ev_index(e.slice, st, fid)
        return self.getitem(b, k, st, fid, e)

    def ev_index(self, s, st, fid):
        if isinstance(s, ast.Slice):
            return mk("sl", *[self.ev(x, st, fid) if x is not None else NONE for x in (s.lower, s.upper, s.step)])
        return self.ev(s, st, fid)

    def mk_slice(self, b, lo, hi, step):
        if lo is NONE and hi is NONE and step is NONE:
            return b
        if is_const(lo, 0) :
            lo = NONE
        if step.op == "const" and is_const(step, 1):
            step = NONE
        if lo is NONE and hi is NONE and step is NONE:
            return b
        return mk("slice", b, lo, hi, step)

    def getitem(self, b, k, st, fid, node):
        if b.op == "phi":
            n = len(self.lookups)
            r = self.phi_gated(b, st, lambda q, s2: self.getitem(q, k, s2, fid, node))
            if len(self.lookups) > n:
                self.lookups[n:] = [(b, k, st.gate)]
            return r
        if k.op == "phi" and b.op in ("tup",):
            return self.phi_gated(k, st, lambda q, s2: self.getitem(b, q, s2, fid, node))
        if b.op == "obj" and b.args[0].kind == "list" and is_const(k, -1) and b not in self.volatile:
            es = self.content_effects(b)        # what was appended last, in this iteration
            if es and es[-1].name == "append" and es[-1].kind == "mut" and len(es[-1].args) == 1 and es[-1].loops == self.loops and self.vis(es[-1], st) == "def":
                return es[-1].args[0]
        if b.op == "app" and b.args[0] is ext("builtins.zip") and len(b.args[1]) == 1 and b.args[1][0].op == "star" and not b.args[2]:
            q = b.args[1][0].args[0]            # keys and values of a dictionary that is not empty
            if q.op == "dictview" and q.args[0] == "items" and k.op == "const" and k.args[0] in (0, 1):
                return q.args[1] if k.args[0] == 0 else mk("dictview", "values", q.args[1])
        if b.op in ("cls",):
            m, _ = b.args[0].lookup("__class_getitem__")
            if m is None:
                return b      # generic alias
        if b.op == "ext":
            return mk("idx", b, k)
        m = self.find_method(b, "__getitem__", st)
        if m is not None:
            return self.call_term(m, [k], {}, st, fid, node)
        if k.op == "sl":
            lo, hi, step = k.args
            islist = b.op == "obj" and b.args[0].kind == "list"
            s = self.seq(b) if b.op in ("tup", "obj") else None
            if lo is NONE and hi is NONE and step is NONE:
                if islist or (self.typeof(b) is not None and self.typeof(b).args[0] in ("list", "listof")):
                    o = self.new_obj("list", st, node, init=(mk("star", b),))
                    if not self.content_effects(b) or not islist:
                        return o
                    o.args[0].init = tuple(self.snapshot(b))
                    return o
                return b
            if s is not None and all(x.op == "const" for x in (lo, hi, step)):
                if all(x[0] == "item" and not x[2] for x in s):
                    xs = [x[1] for x in s][slice(lo.args[0], hi.args[0], step.args[0])]
                    return self.new_obj("list", st, node, init=xs) if islist else mk("tup", tuple(xs))
                if hi is NONE and step is NONE and isinstance(lo.args[0], int) and lo.args[0] >= 0 \
                        and len(s) > lo.args[0] - 1 and all(x[0] == "item" and not x[2] for x in s[:lo.args[0]]) and b.op == "tup":
                    rest = s[lo.args[0]:]
                    return self.seq_to_tup(rest, st, node)
            if b.op == "slice" and b.args[3] is NONE and b.args[2] is NONE and step is NONE and hi is NONE and lo.op == "const" and b.args[1].op == "const" \
                    and isinstance(lo.args[0], int) and isinstance(b.args[1].args[0], int) and lo.args[0] >= 0 and b.args[1].args[0] >= 0:
                return mk("slice", b.args[0], const(lo.args[0] + b.args[1].args[0]), NONE, NONE)
            if is_str(b) and b.op == "const" and all(x.op == "const" for x in (lo, hi, step)):
                return const(b.args[0][slice(lo.args[0], hi.args[0], step.args[0])])
            return self.mk_slice(b, lo, hi, step)
        if b.op == "obj" and b.args[0].kind == "dict":
            r = self.dict_get(b, k, st, mk("missing", b, k) if self.deep else None)
            if r is not None:
                if r.op != "const" and contains(r, lambda z: z.op == "missing"):
                    self.lookups.append((b, k, st.gate))
                else:
                    self.hits += 1
                return r
        if self.deep and b.op == "tup" and k.op == "const" and type(k.args[0]) is int and not any(x.op == "star" for x in b.args[0]) \
                and not -len(b.args[0]) <= k.args[0] < len(b.args[0]):
            self.raise_sinks[-1].append(Outcome("raise", ext("builtins.IndexError"), st.gate, self.loops, node, self.cur_module, self.fstack, st.fork()))
            return mk("missing", b, k)
        if k.op not in ("const", "sl"):
            self.lookups.append((b, k, st.gate))
        return self.index(b, k)

    def snapshot(self, t):
        """Items (with stars) of the current content of a list object."""
        s = self.seq(t)
        if s is None:
            return (mk("star", mk("snap", t, self.version(t))),)
        if all(x[0] in ("item", "star") and not x[2] for x in s):
            return tuple(x[1] if x[0] == "item" else mk("star", x[1]) for x in s)
        return (mk("star", mk("snap", t, self.version(t))),)

    def seq_to_tup(self, segs, st, node):
        out = []
        for x in segs:
            if x[0] == "item" and not x[2]:
                out.append(x[1])
            elif x[0] == "star" and not x[2]:
                out.append(mk("star", x[1]))
            else:
                o = self.new_obj("list", st, node)
                # re-create a one-segment list
                o.args[0].init = ()
                if x[0] == "each":
                    e = Eff("mut", o, "append", (x[3],), o.args[0].gate + x[2], o.args[0].loops + tuple(l for l in x[1] if l not in o.args[0].loops), node, self.fstack, len(self.log), self.cur_module)
                    self.log.append(e)
                else:
                    e = Eff("mut", o, "append" if x[0] == "item" else "extend", (x[1],), o.args[0].gate + x[2], o.args[0].loops, node, self.fstack, len(self.log), self.cur_module)
                    self.log.append(e)
                out.append(mk("star", o))
        if len(out) == 1 and out[0].op == "star":
            return mk("app", ext("builtins.tuple"), (out[0].args[0],), ())
        return mk("tup", tuple(out))

    def dict_get(self, b, k, st, default):
        """Value of a dict object at key, from its write log; None when unknown."""
        o = b.args[0]
        if not self.constant(o):
            return None
        if self.deep:
            pv = self.dict_look(b, k, st)
            return None if pv is None else mk_phi(pv[0], pv[1], default)
        for e in reversed(self.content_effects(b)):
            v = self.vis(e, st)
            if v == "no":
                continue
            if e.kind == "havoc" or e.name not in ("__setitem__", "update"):
                return None
            if e.name == "update":
                d = self.known_dict(e.args[0], st) if len(e.args) == 1 else None
                if d is None:
                    return None
                pairs = d
            else:
                pairs = [e.args]
            for kk, vv in reversed(pairs):
                q = self.equal(kk, k)
                if q is FALSE:
                    continue
                if q is TRUE and v == "def":
                    return vv
                return None
        for kk, vv in reversed(o.init):
            if kk is None:
                return None
            q = self.equal(kk, k)
            if q is TRUE:
                return vv
            if q is not FALSE:
                return None
        return default

    def dict_look(self, b, k, st, depth=0):
        """(condition that key k is present, its value then) of a dict object with known history, or None."""
        o = b.args[0]
        if depth > 6:
            return None
        have, val = FALSE, mk("missing", b, k)
        cur = {lit_term(l) for l in st.gate}

        def merge(d, c, have, val):
            """Update with the entries of dict object d under condition c."""
            if d.op != "obj" or d.args[0].kind != "dict":
                return None
            pv = self.dict_look(d, k, st, depth + 1)
            if pv is None:
                return None
            c = mk_and([c, pv[0]])
            return mk_or([c, have]), (pv[1] if have is FALSE else mk_phi(c, pv[1], val))

        for kk, vv in o.init:
            if kk is None:
                m = merge(vv, TRUE, have, val)
                if m is None:
                    return None
                have, val = m
                continue
            q = self.equal(kk, k)
            have, val = mk_or([q, have]), (vv if have is FALSE else mk_phi(q, vv, val))
        for e in self.content_effects(b):
            v = self.vis(e, st)
            if v == "no":
                continue
            if e.kind == "havoc" or any(l not in self.loops and l not in o.loops for l in e.loops):
                return None
            c = TRUE if v == "def" else conj([l for l in e.gate if lit_term(l) not in cur and l[0].op != "held"])
            if e.name == "clear":
                have = mk_and([have, mk_not(c)])
                continue
            if e.name == "update" and len(e.args) == 1:
                m = merge(e.args[0], c, have, val)
                if m is None:
                    return None
                have, val = m
                continue
            if e.name not in ("__setitem__", "setdefault", "pop", "__delitem__") or not e.args:
                return None
            c = mk_and([c, self.equal(e.args[0], k)])
            if e.name in ("pop", "__delitem__"):
                have = mk_and([have, mk_not(c)])
                continue
            if e.name == "setdefault":
                c = mk_and([c, mk_not(have)])
            vv = e.args[1] if len(e.args) > 1 else NONE
            have, val = mk_or([c, have]), (vv if have is FALSE else mk_phi(c, vv, val))
        return have, val

    deep = False

    def e_List(self, e, st, fid):
        return self.new_obj("list", st, e, init=self.items(e.elts, st, fid))

    def e_Set(self, e, st, fid):
        return self.new_obj("set", st, e, init=self.items(e.elts, st, fid))

    def e_Tuple(self, e, st, fid):
        return self.mk_tup(self.items(e.elts, st, fid))

    def mk_tup(self, items):
        out = []
        for x in items:
            if x.op == "star" and x.args[0].op == "tup":
                out.extend(x.args[0].args[0])
            else:
                out.append(x)
        return mk("tup", tuple(out))

    def items(self, elts, st, fid):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fid)
                out.extend(self.spread(v, st))
            else:
                out.append(self.ev(x, st, fid))
        return out

    def spread(self, v, st):
        v = self.settle(v)
        ks = self.known_seq(v, st)
        if ks is not None:
            return ks
        if v.op == "obj" and v.args[0].kind == "list" and self.content_effects(v):
            s = self.seq(v)
            if s is not None and all(x[0] in ("item", "star") and not x[2] for x in s):
                return [x[1] if x[0] == "item" else mk("star", x[1]) for x in s]
        if v.op == "bin" and v.args[0] == "+":
            s = self.seq(v)
            if s is not None and all(x[0] in ("item", "star") and not x[2] for x in s):
                return [x[1] if x[0] == "item" else mk("star", x[1]) for x in s]
        if v.op == "app" and v.args[0].op == "ext" and v.args[0].args[0] in ("builtins.list", "builtins.tuple") and len(v.args[1]) == 1:
            return self.spread(v.args[1][0], st)
        if v.op == "tup":
            return list(v.args[0])
        return [mk("star", v)]

    def e_Dict(self, e, st, fid):
        pairs = []
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, st, fid)
            pairs.append((self.ev(k, st, fid) if k is not None else None, vv))
        return self.new_obj("dict", st, e, init=pairs)

    def e_BinOp(self, e, st, fid):
        a = self.ev(e.left, st, fid)
        b = self.ev(e.right, st, fid)
        return self.binop(OPS[type(e.op)], a, b, st, fid, e)

    def binop(self, op, a, b, st, fid, node):
        d, r = DUNDER.get(op, (None, None))
        if d:
            for i, x in ((0, a), (1, b)):
                if x.op == "phi" and any(self.find_method(l, (d, r)[i], st) is not None for _, l in phi_leaves(x)):
                    return self.phi_gated(x, st, lambda q, s2: self.binop(op, *((q, b) if i == 0 else (a, q)), s2, fid, node))
        if d:
            for x, y, n in ((a, b, d), (b, a, r)):
                m = self.find_method(x, n, st)
                if m is not None:
                    v = self.call_term(m, [y], {}, st, fid, node)
                    if v is not NOTIMPL:
                        return v
        if op == "%" and a.op == "const" and isinstance(a.args[0], str):
            r2 = self.percent(a.args[0], b, st)
            if r2 is not None:
                return r2
        if op == "+":
            la = a.op == "obj" and a.args[0].kind == "list"
            lb = b.op == "obj" and b.args[0].kind == "list"
            if la or lb:
                ia = self.spread(a, st) if la else [mk("star", a)]
                ib = self.spread(b, st) if lb else [mk("star", b)]
                return self.new_obj("list", st, node, init=ia + ib)
            if a.op == "tup" or b.op == "tup":
                return self.mk_tup((list(a.args[0]) if a.op == "tup" else [mk("star", a)]) + (list(b.args[0]) if b.op == "tup" else [mk("star", b)]))
            ta = self.typeof(a)
            if ta is not None and ta.args[0] in ("listof", "list", "tuplevar", "tupleof", "tuple") and ta is self.typeof(b):
                if ta.args[0] in ("listof", "list"):
                    return self.new_obj("list", st, node, init=(mk("star", a), mk("star", b)))
                return mk("tup", (mk("star", a), mk("star", b)))
        if op == "*" and a.op == "obj" and a.args[0].kind == "list":
            s = self.known_seq(a, st)
            if s is not None and b.op == "const" and isinstance(b.args[0], int) and 0 <= b.args[0] * len(s) <= 64:
                return self.new_obj("list", st, node, init=s * b.args[0])
            return self.new_obj("list", st, node, init=(mk("star", mk("rep", a, b)),))
        if op in "|&-^" and a.op == "obj" and a.args[0].kind == "set":
            return self.new_obj("set", st, node, init=(mk("star", mk("bin", op, a, b)),))
        return self.arith(op, a, b)

    def percent(self, f, b, st):
        vals = list(b.args[0]) if b.op == "tup" else [b]
        parts = re.split(r"(%[%srd])", f)
        out = []
        if len(re.findall(r"%", f)) != len(re.findall(r"%[srd]", f)) + 2 * len(re.findall(r"%%", f)) and "%%" not in f:
            return None
        for p in parts:
            if p == "%%":
                out.append(("lit", "%"))
            elif p in ("%s", "%r", "%d"):
                if not vals:
                    return None
                out.append(("r" if p == "%r" else "s", vals.pop(0)))
            else:
                out.append(("lit", p))
        return mk_fmt(out) if not vals else None

    def e_UnaryOp(self, e, st, fid):
        if isinstance(e.op, ast.Not):
            return mk_not(self.cond(e.operand, st, fid))
        v = self.ev(e.operand, st, fid)
        n = {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(e.op)]
        return self.unaryop(n, v, st, fid, e)

    def unaryop(self, n, v, st, fid, e):
        if v.op == "phi" and any(self.find_method(l, n, st) is not None for _, l in phi_leaves(v)):
            return self.phi_gated(v, st, lambda q, s2: self.unaryop(n, q, s2, fid, e))
        m = self.find_method(v, n, st)
        if m is not None:
            return self.call_term(m, [], {}, st, fid, e)
        if v.op == "const" and isinstance(v.args[0], (int, float)):
            return const({"__neg__": lambda x: -x, "__pos__": lambda x: +x, "__invert__": lambda x: ~x}[n](v.args[0]))
        return mk("un", {"__neg__": "-", "__pos__": "+", "__invert__": "~"}[n], v)

    def e_BoolOp(self, e, st, fid):
        isand = isinstance(e.op, ast.And)
        vals = []
        s2 = st
        for i, x in enumerate(e.values):
            v = self.ev(x, s2, fid)
            vals.append(v)
            if i < len(e.values) - 1:
                s2 = State(s2.frames, s2.gate + tuple(l for l in lits(self.truth(v), isand) if l not in s2.gate))
        if all(v.op in COND_OPS or is_const(v, True, False) for v in vals):
            return mk_and(vals) if isand else mk_or(vals)
        r = vals[-1]
        for v in reversed(vals[:-1]):
            r = mk_phi(self.truth(v), r, v) if isand else mk_phi(self.truth(v), v, r)
        return r

    def e_Compare(self, e, st, fid):
        left = self.ev(e.left, st, fid)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, st, fid)
            out.append(self.compare(op, left, right, st, fid, e))
            left = right
        return mk_and(out)

    def compare(self, op, a, b, st, fid, node):
        if isinstance(op, (ast.Eq, ast.Is)):
            return self.equal(a, b)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return mk_not(self.equal(a, b))
        if isinstance(op, (ast.In, ast.NotIn)):
            if b.op == "app" and b.args[0].op == "ext" and b.args[0].args[0].startswith("weakref."):
                self.eff("test", b, "__contains__", (a,), st, node)
            c = self.contains_(a, b, st)
            return c if isinstance(op, ast.In) else mk_not(c)
        if a.op == "const" and b.op == "const":
            try:
                x, y = a.args[0], b.args[0]
                return const({ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]())
            except Exception:
                pass
        if isinstance(op, ast.Gt):
            return self.less(b, a)
        if isinstance(op, ast.GtE):
            return mk_not(self.less(a, b))
        if isinstance(op, ast.LtE):
            return mk_not(self.less(b, a))
        return self.less(a, b)

    def less(self, a, b):
        ln = ext("builtins.len")
        if is_const(a, 0) and b.op == "app" and b.args[0] is ln:
            return self.truth(b.args[1][0])
        if is_const(b, 1) and a.op == "app" and a.args[0] is ln:
            return mk_not(self.truth(a.args[1][0]))
        return mk("cmp", "<", a, b)

    def contains_(self, a, b, st):
        if b.op == "tup" and not any(x.op == "star" for x in b.args[0]) :
            return mk_or([self.equal(a, x) for x in b.args[0]])
        if b.op == "obj" and b.args[0].kind in ("list", "set"):
            ks = self.known_seq(b, st) if b.args[0].kind == "list" else (list(b.args[0].init) if not self.content_effects(b) and not any(x.op == "star" for x in b.args[0].init) else None)
            if ks is not None and len(ks) <= 16:
                return mk_or([self.equal(a, x) for x in ks])
            g = self.guarded_items(b)
            if g is not None:
                return mk_or([mk_and([c, self.equal(a, x)]) for c, x in g])
        if b.op == "obj" and b.args[0].kind == "dict":
            d = self.known_dict(b, st)
            if d is not None and self.constant(b.args[0]):
                qs = [self.equal(a, k) for k, _ in d]
                if all(q.op == "const" for q in qs):
                    return const(any(q is TRUE for q in qs))
            if self.deep and self.constant(b.args[0]):
                pv = self.dict_look(b, a, st)
                if pv is not None:
                    return pv[0]
        if b.op == "dictview" and b.args[0] == "keys":
            b = b.args[1]
        if b.op == "app" and b.args[0].op == "ext" and b.args[0].args[0] in ("builtins.tuple", "builtins.list", "builtins.set", "builtins.frozenset") and len(b.args[1]) == 1:
            b = b.args[1][0]
        v = self.version(b)
        return mk("contains", b, a, v) if v else mk("contains", b, a)

    def e_IfExp(self, e, st, fid):
        c = self.cond(e.test, st, fid)
        if c is TRUE:
            return self.ev(e.body, st, fid)
        if c is FALSE:
            return self.ev(e.orelse, st, fid)
        a = self.ev(e.body, State(st.frames, st.gate + lits(c)), fid)
        b = self.ev(e.orelse, State(st.frames, st.gate + lits(c, False)), fid)
        return mk_phi(c, a, b)

    def e_NamedExpr(self, e, st, fid):
        v = self.ev(e.value, st, fid)
        self.setname(e.target.id, v, st, fid, e)
        return v

    def e_Lambda(self, e, st, fid):
        info = self.frame_info.get(fid)
        qual = (info["qual"] + "." if info else "") + f"<lambda>"
        fn = Fn(e, self.cur_module, "<lambda>", qual, None, None if info is None or info.get("module") or info.get("classbody") else fid)
        if info is not None:
            info["captured"] = True
        a = e.args
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            fn.defaults[p.arg] = self.ev(d, st, fid)
        return mk("fn", fn)

    def e_JoinedStr(self, e, st, fid):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(("lit", v.value))
            else:
                t = self.ev(v.value, st, fid)
                conv = {-1: "s", 115: "s", 114: "r", 97: "a"}[v.conversion]
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, st, fid)
                    if not (spec.op == "const" and spec.args[0] == ""):
                        conv = "fmt:" + (spec.args[0] if spec.op == "const" else "?")
                parts.append((conv, t))
        return mk_fmt(parts)

    def e_FormattedValue(self, e, st, fid):
        return self.ev(e.value, st, fid)

    def e_Starred(self, e, st, fid):
        return mk("star", self.ev(e.value, st, fid))

    def e_Await(self, e, st, fid):
        return self.ev(e.value, st, fid)

    def e_Yield(self, e, st, fid):
        v = self.ev(e.value, st, fid) if e.value is not None else NONE
        info = self.frame_info[fid]
        if info.get("yields") is not None:
            self.eff("mut", info["yields"], "append", (v,), st, e)
        return NONE

    def e_YieldFrom(self, e, st, fid):
        v = self.ev(e.value, st, fid)
        info = self.frame_info[fid]
        if info.get("yields") is not None:
            self.eff("mut", info["yields"], "extend", (v,), st, e)
        return NONE

    # comprehensions: an allocation filled by (synthetic) loops
    def e_ListComp(self, e, st, fid):
        return self.comp("list", e, st, fid)

    def e_GeneratorExp(self, e, st, fid):
        return self.comp("list", e, st, fid)

    def e_SetComp(self, e, st, fid):
        return self.comp("set", e, st, fid)

    def e_DictComp(self, e, st, fid):
        return self.comp("dict", e, st, fid)

    def comp(self, kind, e, st, fid, into=None):
        o = into if into is not None else self.new_obj(kind, st, e)
        nf = self.new_frame(self.frame_info[fid]["qual"] if fid in self.frame_info else "", parent=fid)
        self.frame_info[nf]["captured"] = True
        st.frames[nf] = {}
        saved = self.loops

        def go(i, s2):
            if i == len(e.generators):
                if kind == "dict":
                    k = self.ev(e.key, s2, nf)
                    v = self.ev(e.value, s2, nf)
                    self.eff("mut", o, "__setitem__", (k, v), s2, e)
                elif kind == "pairs":
                    self.eff("mut", o, "__setitem__", (self.ev(e.elt.elts[0], s2, nf), self.ev(e.elt.elts[1], s2, nf)), s2, e)
                else:
                    v = self.ev(e.elt, s2, nf)
                    self.eff("mut", o, "append" if kind == "list" else "add", (v,), s2, e)
                return
            g = e.generators[i]
            it = self.uncopied(self.settle(self.ev(g.iter, s2, nf)), g.iter)
            known = self.known_seq(it, s2)
            if known is not None and len(known) <= 128:
                for x in known:
                    s3 = State({k: dict(v) if k == nf else v for k, v in s2.frames.items()}, s2.gate)
                    self.assign(g.target, x, s3, nf, e)
                    s3 = self.filters(g, s3, nf)
                    if s3 is not None:
                        go(i + 1, s3)
                        if not g.ifs:
                            # going on means that evaluating this element did not raise
                            s2.gate = s3.gate
                return
            L = Loop("comp", e, it, s2.gate, self.loops, self.fstack[-1] if self.fstack else None)
            self.loops = self.loops + (L,)
            s3 = State({k: dict(v) if k == nf else v for k, v in s2.frames.items()}, s2.gate + ((mk("inloop", L), True),))
            self.assign(g.target, self.mk_elem(it, L), s3, nf, e)
            s3 = self.filters(g, s3, nf)
            if s3 is not None:
                go(i + 1, s3)
            self.loops = self.loops[:-1]

        go(0, st)
        self.loops = saved
        # simplify [x for x in X] to a copy of X
        return o

    def filters(self, g, s3, nf):
        for c in g.ifs:
            t = self.cond(c, s3, nf)
            s3 = self.assume(s3, t, True)
            if s3 is None:
                return None
        return s3

    # ---------------------------------------------------------------- calls

    def e_Call(self, e, st, fid):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            info = self.frame_info.get(fid)
            while info is not None and info.get("fn") is None:
                info = self.frame_info.get(info["parent"])
            fn = info["fn"]
            a = fn.node.args
            first = (a.posonlyargs + a.args)[0].arg if (a.posonlyargs + a.args) else None
            return mk("super", mk("cls", fn.cls) if fn.cls else NONE, st.frames[info["fid"]].get(first, NONE))
        f = self.ev(e.func, st, fid)
        args = []
        if f.op == "attr" and f.args[1] == "update" and f.args[0].op == "obj" and len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp) and not e.keywords:
            # D.update((k, v) for ...): each is stored as it is produced
            g, kind = e.args[0], f.args[0].args[0].kind
            if kind == "dict" and isinstance(g.elt, ast.Tuple) and len(g.elt.elts) == 2 and not any(isinstance(x, ast.Starred) for x in g.elt.elts):
                self.comp("pairs", g, st, fid, into=f.args[0])
                return NONE
        for x in e.args:
            if isinstance(x, ast.Starred):
                args.extend(self.spread(self.ev(x.value, st, fid), st))
            else:
                args.append(self.ev(x, st, fid))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st, fid)
            if k.arg is None:
                d = self.known_dict(v, st)
                if d is not None and all(kk.op == "const" for kk, _ in d):
                    kw.update({kk.args[0]: vv for kk, vv in d})
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        return self.call_term(f, args, kw, st, fid, e)

    def call_term(self, f, args, kw, st, fid, node):
        op = f.op
        if op == "phi":
            return self.phi_gated(f, st, lambda q, s2: self.call_term(q, args, kw, s2, fid, node))
        if op == "fn":
            return self.call_fn(f.args[0], args, kw, st, fid, node)
        if op == "bound":
            recv, g = f.args
            if g.op == "fn":
                return self.call_fn(g.args[0], [recv] + args, kw, st, fid, node)
            return self.call_term(g, [recv] + args, kw, st, fid, node)
        if op == "cls":
            return self.call_cls(f, args, kw, st, fid, node)
        if op == "ext":
            return self.call_ext(f, args, kw, st, fid, node)
        if op == "partial":
            g, a0, k0 = f.args
            d = dict(k0)
            d.update(kw)
            return self.call_term(g, list(a0) + args, d, st, fid, node)
        if op == "attr" and not self.data_attr(f):
            r = self.call_method(f.args[0], f.args[1], args, kw, st, fid, node)
            if r is not None:
                return r
        if op == "opfn":
            return self.call_opfn(f, args, kw, st, fid, node)
        if op == "idx" and f.args[0].op == "ext":
            return self.call_term(f.args[0], args, kw, st, fid, node)
        m = self.find_method(f, "__call__", st)
        if m is not None:
            return self.call_term(m, args, kw, st, fid, node)
        if op in ("tree", "treeatom"):
            c = self.prog.cls_term("protosym.core.tree.Tree")
            v, _ = c.args[0].lookup("__call__")
            if v is not None:
                return self.call_term(mk("bound", f, v), args, kw, st, fid, node)
        return self.opaque_call(f, args, kw, st, node)

    def data_attr(self, f):
        """f = base.name where name is a declared field (not a method) of the class of base."""
        ty = self.typeof(f.args[0])
        if ty is None or ty.args[0] != "inst":
            return False
        c = ty.args[1].args[0]
        return c.lookup(f.args[1])[0] is None and any(f.args[1] in k.ann or f.args[1] in getattr(k, "inferred", {}) for k in c.mro())

    def call_opfn(self, f, args, kw, st, fid, node):
        kind, key = f.args
        if kind == "itemgetter":
            return self.getitem(args[0], key, st, fid, node)
        if kind == "attrgetter":
            return self.getattr(args[0], key.args[0], st, fid, node)
        if kind == "methodcaller":
            return self.call_term(self.getattr(args[0], key.args[0], st, fid, node), [], {}, st, fid, node)
        return self.opaque_call(f, args, kw, st, node)

    def opaque_call(self, f, args, kw, st, node, pure=False):
        kws = tuple(sorted(kw.items(), key=lambda x: x[0]))
        self.calls.append((self.fstack[-1].qual if self.fstack else "", f, node, self.loops, st.gate, tuple(args), self.cur_module))
        e = self.eff("call", f, "call", tuple(args), st, node)
        if pure:
            return mk("app", f, tuple(args), kws)
        t = mk("app", f, tuple(args), kws, e.pos)
        return t

    def bind(self, fn, args, kw, st, node):
        a = fn.node.args
        env = {}
        pos = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        i = 0
        for p in pos:
            if args:
                if args[0].op == "star":
                    X = args[0].args[0]
                    # unknown-length spread over named parameters
                    rest = args[0:]
                    if len(rest) == 1:
                        env[p] = self.index(X, const(i))
                        i += 1
                        if p is pos[-1]:
                            args = []
                        continue
                    env[p] = self.unk("spread arguments", node)
                    continue
                if i:
                    env[p] = self.unk("spread arguments", node)
                    continue
                env[p] = args.pop(0)
            elif p in kw:
                env[p] = kw.pop(p)
            elif p in fn.defaults:
                env[p] = fn.defaults[p]
            elif "**" in kw:
                env[p] = self.unk("**kwargs", node)
            else:
                env[p] = mk("missing", p)
        if args and args[0].op == "star" and i:
            args = args[1:]
        if a.vararg:
            if len(args) == 1 and args[0].op == "star" and (args[0].args[0].op in ("tup",) or (self.typeof(args[0].args[0]) is not None and self.typeof(args[0].args[0]).args[0] in ("tuple", "tuplevar", "tupleof"))):
                env[a.vararg.arg] = args[0].args[0]
            else:
                env[a.vararg.arg] = self.mk_tup(args)
        elif args:
            env["@surplus"] = mk("tup", tuple(args))
        for p in a.kwonlyargs:
            if p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
            elif p.arg in fn.defaults:
                env[p.arg] = fn.defaults[p.arg]
            else:
                env[p.arg] = mk("missing", p.arg)
        if a.kwarg:
            env[a.kwarg.arg] = self.new_obj("dict", st, node, init=[(const(k), v) for k, v in kw.items() if k != "**"])
        return env

    def new_frame(self, qual, parent=None, fn=None, classbody=False, module=False):
        self.prog.nframes += 1
        fid = self.prog.nframes
        self.frame_info[fid] = {"qual": qual, "parent": parent, "fn": fn, "classbody": classbody, "module": module,
                                "globals": set(), "nonlocals": set(), "returns": [], "captured": False, "loops": self.loops, "fid": fid}
        return fid

    frame_info_shared: dict = {}

    @property
    def frame_info(self):
        return self.prog.frame_info

    cur_class = None
    const_globals = False

    def is_opaque(self, fn):
        return fn.qual in self.opaque or any(fn.qual.startswith(p[:-1]) for p in self.opaque if p.endswith("*"))

    def positional(self, fn, args, kw):
        """The same call with keyword arguments for positional parameters put in their places."""
        a = fn.node.args
        ps = [p.arg for p in a.posonlyargs + a.args]
        if not kw or "**" in kw or any(x.op == "star" for x in args):
            return args, kw
        args, kw = list(args), dict(kw)
        last = max((ps.index(k) for k in kw if k in ps), default=-1)
        for p in ps[len(args):last + 1]:
            if p in kw:
                args.append(kw.pop(p))
            elif p in fn.defaults:
                args.append(fn.defaults[p])
            else:
                break
        return args, kw

    def call_fn(self, fn, args, kw, st, fid, node):
        if kw:
            args, kw = self.positional(fn, args, kw)
        self.calls.append((self.fstack[-1].qual if self.fstack else "", mk("fn", fn), node, self.loops, st.gate, tuple(args), self.cur_module))
        # node constructors seen through their classmethod / static spelling
        if self.intrinsic:
            r = self.node_intrinsic_fn(fn, args, kw, st)
            if r is not None:
                return r
        if self.is_opaque(fn):
            e = self.eff("call", mk("fn", fn), "call", tuple(args), st, node)
            t = mk("app", mk("fn", fn), tuple(args), tuple(sorted(kw.items())), e.pos) if fn.qual not in self.pure else mk("app", mk("fn", fn), tuple(args), tuple(sorted(kw.items())))
            return self.results[fn.qual](t) if fn.qual in self.results else t
        sizes = [self.size_of(a, st) for a in args] if self.deep else None
        before = self.sizes.get(fn)
        if (fn in self.fstack and not (sizes and before and len(before) <= 12 and any(x is not None and y is not None and x < y for x, y in zip(sizes, before[-1])))) \
                or len(self.fstack) > 40:
            self.recursion.append(tuple(f.qual for f in self.fstack) + (fn.qual,))
            e = self.eff("call", mk("fn", fn), "recursive", tuple(args), st, node)
            t = mk("app", mk("fn", fn), tuple(args), tuple(sorted(kw.items())), e.pos)
            return self.results[fn.qual](t) if fn.qual in self.results else t
        if sizes is None:
            return self.inline(fn, args, kw, st, node)
        self.sizes.setdefault(fn, []).append(sizes)
        try:
            return self.inline(fn, args, kw, st, node)
        finally:
            self.sizes[fn].pop()

    def size_of(self, t, st):
        """Length of a sequence of known length, or a small natural number: recursion that makes it smaller is followed."""
        if t.op == "const":
            return t.args[0] if type(t.args[0]) is int and 0 <= t.args[0] <= 8 else None
        if t.op in ("tup", "obj"):
            k = self.known_seq(t, st)
            return len(k) if k is not None and len(k) <= 8 and not any(x.op in ("star", "opt", "each") for x in k) else None
        return None

    pure = frozenset()
    results: dict = {}      # what is assumed of the result of functions that are not inlined

    def inline(self, fn, args, kw, st, node):
        env = self.bind(fn, args, dict(kw), st, node)
        if self.deep and (env.get("@surplus") is not None and not any(x.op == "star" for x in env["@surplus"].args[0])
                          or any(v.op == "missing" and v.args == (p,) for p, v in env.items())):
            # wrong number of arguments
            self.raise_sinks[-1].append(Outcome("raise", mk("app", ext("builtins.TypeError"), (), ()), noheld(st.gate), self.loops, node, self.cur_module, self.fstack, st))
            st.gate = st.gate + ((mk("lret", Loop("never", node, None, st.gate, self.loops, fn)), True),)
            return mk("noreturn", fn)
        nf = self.new_frame(fn.qual, parent=fn.frame, fn=fn)
        info = self.frame_info[nf]
        missing_parent = fn.frame is not None and fn.frame not in st.frames
        if missing_parent:
            st.frames[fn.frame] = dict(self.prog.saved_frames.get(fn.frame, {}))
        st.frames[nf] = env
        base = st.gate
        saved = (self.fstack, self.cur_module, self.loopctx)
        self.fstack = self.fstack + (fn,)
        self.cur_module = fn.module
        self.loopctx = []
        sink0 = len(self.raise_sinks[-1])
        if isinstance(fn.node, ast.Lambda):
            v = self.ev(fn.node.body, st, nf)
            res = v
            if not info["captured"]:
                st.frames.pop(nf, None)
            self.fstack, self.cur_module, self.loopctx = saved
            return res
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_nodes(fn.node)):
            info["yields"] = self.new_obj("list", st, node)
        work = st.fork()
        end = self.exec_block(fn.node.body, work, nf)
        rets = info["returns"]
        if end is not None:
            rets = rets + [Outcome("return", NONE, end.gate, self.loops, fn.node, fn.module, self.fstack, end)]
        self.fstack, self.cur_module, self.loopctx = saved
        new_raises = self.raise_sinks[-1][sink0:]
        if info.get("yields") is not None:
            r = info["yields"]
            if rets:
                st.frames = rets[-1].state.frames
        elif not rets:
            # never returns
            st.gate = st.gate + ((mk("lret", Loop("never", node, None, st.gate, self.loops, fn)), True),)
            return mk("noreturn", fn)
        else:
            r = None
            facts = set()
            order = []
            for o in rets:
                rel = [l for l in o.gate if l not in base]
                order.append((o, rel))
            # fold from the last
            acc_state, acc_val = order[-1][0].state, order[-1][0].value
            for o, rel in reversed(order[:-1]):
                prior = set()
                for o2, rel2 in order:
                    if o2 is o:
                        break
                    t2 = conj(rel2)
                    prior.add(mk_not(t2))
                c = eval_under(conj([l for l in rel if lit_term(l) not in prior]), prior)
                acc_val = mk_phi(c, o.value, acc_val)
                m = self.merge(o.state, acc_state, c, base)
                acc_state = m
            r = acc_val
            st.frames = acc_state.frames
        if not info["captured"]:
            st.frames.pop(nf, None)
        else:
            self.prog.saved_frames[nf] = dict(st.frames.get(nf, {}))
        # continuing means none of the callee's raises happened
        for x in new_raises:
            rel = [l for l in x.gate if l not in base]
            c = conj(rel)
            if c is TRUE:
                continue
            if any(l[0].op == "inloop" for l in rel):
                c = mk_and([lit_term(l) for l in rel])
            facts = {lit_term(l) for l in st.gate}
            t = eval_under(mk_not(c), facts)
            if t is FALSE or t is TRUE:
                continue
            st.gate = st.gate + tuple(l for l in lits(t) if l not in st.gate)
        return r

    def node_intrinsic_fn(self, fn, args, kw, st):
        if fn.qual == "protosym.core.tree.Tree.atom" and len(args) == 2 and not kw:
            return mk("treeatom", args[1])
        if fn.name == "__new__" and fn.cls is not None and args and args[0].op == "cls":
            return self.node_intrinsic(args[0], args[1:], kw, st)
        return None

    def node_kind(self, c):
        if c.op != "cls":
            return None
        for k in c.args[0].mro():
            if k.qual in ("protosym.core.atom.Atom", "protosym.core.tree.Tree", "protosym.core.sym.Sym"):
                return k.name
        return None

    def node_intrinsic(self, c, args, kw, st):
        k = self.node_kind(c)
        if k is None:
            return None
        if k == "Atom":
            args = args + [kw[n] for n in ("atom_type", "value")[len(args):] if n in kw]
            if len(args) == 2:
                return mk("atom", *args)
        elif k == "Tree" and not kw:
            return mk("tree", self.mk_tup(args))
        elif k == "Sym":
            args = args + [kw[n] for n in ("tree_expr",)[len(args):] if n in kw]
            if len(args) == 1:
                return mk("symw", c, args[0])
        return None

    def call_cls(self, f, args, kw, st, fid, node):
        c = f.args[0]
        self.calls.append((self.fstack[-1].qual if self.fstack else "", f, node, self.loops, st.gate, tuple(args), self.cur_module))
        if self.intrinsic:
            r = self.node_intrinsic(f, args, kw, st)
            if r is not None:
                return r
        if c.qual in self.opaque:
            return self.opaque_call(f, args, kw, st, node)
        new, _ = c.lookup("__new__")
        if new is not None and new.op == "fn":
            obj = self.call_fn(new.args[0], [f] + args, kw, st, fid, node)
        elif any(b.endswith(("Exception", "Error")) for b in c.extbases()) or any("Error" in k.name or "Exception" in k.name for k in c.mro()):
            return mk("app", f, tuple(args), tuple(sorted(kw.items())))
        else:
            obj = self.new_obj("inst", st, node, cls=f)
        init, _ = c.lookup("__init__")
        if init is not None and init.op == "fn":
            self.call_fn(init.args[0], [obj] + args, kw, st, fid, node)
        elif c.dataclass:
            rest = list(args)
            fields = []
            for k in reversed(c.mro()):
                if k.dataclass:
                    fields.extend((n, d, k) for n, d in k.fields)
            for n, d, owner in fields:
                if rest:
                    v = rest.pop(0)
                elif n in kw:
                    v = kw[n]
                elif d is not None:
                    v = self.default_field(d, owner, st, fid, node)
                else:
                    v = mk("missing", n)
                if v.op == "star":
                    v = self.unk("spread dataclass arguments", node)
                self.eff("setattr", obj, n, (v,), st, node)
        elif new is None and (args or kw):
            for i, x in enumerate(args):
                self.eff("setattr", obj, f"@arg{i}", (x,), st, node)
        return obj

    def default_field(self, d, owner, st, fid, node):
        saved = self.cur_module
        self.cur_module = owner.module
        try:
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == "field":
                for k in d.keywords:
                    if k.arg == "default_factory":
                        return self.call_term(self.ev(k.value, st, fid), [], {}, st, fid, node)
                    if k.arg == "default":
                        return self.ev(k.value, st, fid)
            return self.ev(d, st, fid)
        finally:
            self.cur_module = saved

    # methods of values that are not repository classes
    def call_method(self, b, name, args, kw, st, fid, node):
        if b.op == "phi" and name not in MUTATORS:
            return self.phi_gated(b, st, lambda q, s2: self.call_term(self.getattr(q, name, s2, fid, node), args, kw, s2, fid, node))
        ty = self.typeof(b)
        tyn = ty.args[0] if ty is not None else None
        if b.op == "const" and isinstance(b.args[0], str) or tyn == "str":
            r = self.str_method(b, name, args, kw, st)
            if r is not None:
                return r
        kind = b.args[0].kind if b.op == "obj" else None
        if name in ("items", "keys", "values") and not args and (kind == "dict" or tyn in ("dict", "dictof") or (ty is None and b.op != "obj")):
            return mk("dictview", name, b)
        if name == "copy" and not args:
            if kind == "list":
                return self.new_obj("list", st, node, init=self.snapshot(b))
            if kind == "dict":
                return self.new_obj("dict", st, node, init=((None, b),))
            if kind == "set":
                o = self.new_obj("set", st, node, init=(mk("star", b),))
                return o
            if tyn in ("listof", "list"):
                return self.new_obj("list", st, node, init=(mk("star", b),))
            if tyn in ("dictof", "dict"):
                return self.new_obj("dict", st, node, init=((None, b),))
            if tyn in ("setof", "set"):
                return self.new_obj("set", st, node, init=(mk("star", b),))
        if name == "get" and kind == "dict" and 1 <= len(args) <= 2:
            r = self.dict_get(b, args[0], st, args[1] if len(args) > 1 else NONE)
            if r is not None:
                return r
        if name in ("union",) and (kind == "set" or tyn in ("set", "setof")) and args:
            o = self.new_obj("set", st, node, init=(mk("star", b),) + tuple(mk("star", x) for x in args))
            return o
        if name in ("difference", "intersection", "symmetric_difference") and (kind == "set" or tyn in ("set", "setof")):
            return self.new_obj("set", st, node, init=(mk("star", mk("setop", name, b, tuple(args))),))
        if name in ("index", "count") and len(args) == 1 and self.deep and (ks := self.known_seq(b, st)) is not None and len(ks) <= 48:
            qs = [self.equal(x, args[0]) for x in ks]
            memo = {}

            def count(i, n):
                if (i, n) not in memo:
                    memo[i, n] = const(n) if i == len(qs) else mk_phi(qs[i], count(i + 1, n + 1), count(i + 1, n))
                return memo[i, n]
            if name == "count":
                return count(0, 0)
            v = mk("missing", b, args[0])
            for i in reversed(range(len(qs))):
                v = mk_phi(qs[i], const(i), v)
            return v
        if name in ("index", "count") and len(args) >= 1:
            return mk("seqop", name, b, tuple(args))
        if name == "isdisjoint" and len(args) == 1:
            return mk_not(self.truth(mk("bin", "&", b, args[0])))
        if name in MUTATORS and b.op != "obj" and ty is None and self.not_container_call(name, args, kw, node):
            return None
        if name in MUTATORS:
            if name == "__setitem__" and len(args) == 2:
                self.setitem(b, args[0], args[1], st, fid, node)
                return NONE
            leaves = phi_leaves(b)
            e = None
            for g, leaf in leaves:
                s2 = State(st.frames, st.gate + g) if g else st
                if name == "extend" and len(args) == 1 and args[0].op != "star" and leaf.op == "obj" and leaf.args[0].kind == "list":
                    e = self.extend(leaf, args[0], s2, node)
                else:
                    e = self.eff("mut", leaf, name, tuple(args), s2, node)
            if name in ("pop", "popleft", "popitem"):
                return mk("popped", b, tuple(args), e.pos)
            if name == "setdefault":
                return mk("app", mk("attr", b, name), tuple(args), tuple(sorted(kw.items())), e.pos)
            return NONE
        if name == "acquire" and is_lock(b) and not (all(a is TRUE for a in args[:1]) and args[1:] in ((), [], (const(-1),), [const(-1)])
                                                     and all(v is TRUE if k == "blocking" else k == "timeout" and v is const(-1) for k, v in kw.items())):
            self.nheld += 1
            return mk("app", mk("attr", b, name), tuple(args), tuple(sorted(kw.items())), self.nheld)    # may be refused
        if name == "acquire" and is_lock(b):
            self.nheld += 1
            self.eff("enter", b, "with", (), st, node)
            st.gate = st.gate + ((mk("held", b, self.nheld), True),)
            return TRUE
        if name == "release" and is_lock(b):
            st.gate = tuple(l for l in st.gate if not (l[0].op == "held" and l[0].args[0] is b))
            return NONE
        if name == "__contains__" and len(args) == 1:
            return self.contains_(args[0], b, st)
        if name == "__getitem__" and len(args) == 1:
            return self.getitem(b, args[0], st, fid, node)
        if name == "__len__" and not args:
            return mk("app", ext("builtins.len"), (b,), ())
        if name == "get" and 1 <= len(args) <= 2 and not kw and self.deep and (tyn in ("dict", "dictof") or kind == "dict"):
            return mk_phi(self.contains_(args[0], b, st), self.index(b, args[0]), args[1] if len(args) > 1 else NONE)
        if name == "get" and 1 <= len(args) <= 2:
            e = self.eff("call", mk("attr", b, name), "call", tuple(args), st, node)
            v = self.version(b)
            return mk("app", mk("attr", b, name), tuple(args), tuple(sorted(kw.items())), ("v", v) if v else None)
        return None

    def not_container_call(self, name, args, kw, node):
        """The call of a method of an unknown object does not fit the container method of that name."""
        if name in ARITY1 and (len(args) != 1 or args[0].op == "star" or kw):
            return True
        if name in ARITY1 | {"clear", "sort", "reverse", "insert", "update"} and node in self.prog.used_calls:
            return True
        return False

    def str_method(self, b, name, args, kw, st):
        if name == "join" and len(args) == 1:
            ks = self.known_seq(args[0], st)
            if ks is not None and b.op == "const":
                parts = []
                for i, x in enumerate(ks):
                    if i:
                        parts.append(("lit", b.args[0]))
                    parts.append(("s", x))
                return mk_fmt(parts)
            t = args[0]
            if t.op == "obj":
                s = self.seq(t)
                if s is not None and all(x[0] in ("item", "star") and not x[2] for x in s) and any(x[0] == "item" for x in s):
                    # items and unknown spreads: keep as an explicit join over a tuple with stars
                    t = mk("tup", tuple(x[1] if x[0] == "item" else mk("star", x[1]) for x in s))
                elif s is not None and len(s) == 1 and s[0][0] == "star" and not s[0][2]:
                    t = s[0][1]
            if t.op == "tup" and len(t.args[0]) == 1 and t.args[0][0].op == "star":
                t = t.args[0][0].args[0]
            if t.op == "app" and t.args[0].op == "ext" and t.args[0].args[0] in ("builtins.list", "builtins.tuple", "builtins.iter") and len(t.args[1]) == 1:
                t = t.args[1][0]
            return mk("join", b, t)
        if name == "format" and b.op == "const":
            return self.str_format(b.args[0], args, kw)
        if b.op == "const" and all(a.op == "const" for a in args) and not kw and name in STR_METHODS:
            try:
                r = getattr(b.args[0], name)(*[a.args[0] for a in args])
                if isinstance(r, (str, bool, int)):
                    return const(r)
            except Exception:
                pass
        if name in STR_METHODS:
            return mk("app", mk("attr", b, name), tuple(args), tuple(sorted(kw.items())))
        return None

    def str_format(self, f, args, kw):
        import string
        parts = []
        auto = 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(f):
                if lit:
                    parts.append(("lit", lit))
                if field is None:
                    continue
                if field == "":
                    v = args[auto]
                    auto += 1
                elif field.isdigit():
                    v = args[int(field)]
                else:
                    v = kw[field]
                if v.op == "star":
                    return None
                parts.append((("fmt:" + spec) if spec else (conv or "s"), v))
        except Exception:
            return None
        return mk_fmt(parts)

    def typecall(self, x):
        if x.op == "symw":
            return x.args[0]
        if x.op == "obj" and x.args[0].kind == "inst" and x.args[0].cls is not None:
            return x.args[0].cls
        if x.op in ("tree", "treeatom"):
            return self.prog.cls_term("protosym.core.tree.Tree")
        if x.op == "atom":
            return self.prog.cls_term("protosym.core.atom.Atom")
        if x.op == "const":
            return ext("builtins." + type(x.args[0]).__name__)
        return mk("app", ext("builtins.type"), (x,), ())

    def isinst(self, x, c):
        if c.op == "tup":
            return mk_or([self.isinst(x, k) for k in c.args[0]])
        if c.op == "idx" and c.args[0].op in ("ext", "cls"):
            c = c.args[0]
        if c.op == "bin" and c.args[0] == "|":
            return mk_or([self.isinst(x, c.args[1]), self.isinst(x, c.args[2])])
        if x.op == "phi":
            l, r = self.isinst(x.args[1], c), self.isinst(x.args[2], c)
            return mk_or([mk_and([x.args[0], l]), mk_and([mk_not(x.args[0]), r])])
        xc = None
        if x.op in ("symw", "tree", "treeatom", "atom") or (x.op == "obj" and x.args[0].kind == "inst"):
            xc = self.typecall(x)
        if xc is not None and xc.op == "cls":
            if c.op == "cls":
                return const(c.args[0] in xc.args[0].mro())
            if c.op == "ext":
                return const(c.args[0] in xc.args[0].extbases() or c.args[0] == "builtins.object")
        if x.op == "const" and c.op == "ext" and c.args[0].startswith("builtins."):
            import builtins
            k = getattr(builtins, c.args[0][9:], None)
            if isinstance(k, type):
                return const(isinstance(x.args[0], k))
        if x.op == "const" and c.op == "cls":
            return FALSE
        kinds = {"list": "builtins.list", "dict": "builtins.dict", "set": "builtins.set"}
        if x.op == "obj" and x.args[0].kind in kinds:
            if c.op == "ext":
                return const(c.args[0] in (kinds[x.args[0].kind], "builtins.object")) if c.args[0].startswith("builtins.") else mk("isinst", x, c)
            if c.op == "cls":
                return FALSE
        if x.op == "tup":
            if c.op == "ext" and c.args[0].startswith("builtins."):
                return const(c.args[0] in ("builtins.tuple", "builtins.object"))
            if c.op == "cls":
                return FALSE
        if x.op == "fmt" and c.op == "ext":
            return const(c.args[0] in ("builtins.str", "builtins.object"))
        if c.op == "cls" and (x.op == "fn" or x.op == "ext" and x.args[0].startswith("builtins.")):
            return FALSE
        if self.deep and x.op == "sym" and c.op == "cls" and x.args[1] is not None and x.args[1].args[0] == "inst":
            k = x.args[1].args[1].args[0]
            if c.args[0] in k.mro():
                return TRUE
            if k not in c.args[0].mro() and not any(k in z.mro() and c.args[0] in z.mro() for z in self.prog.classes.values()):
                return FALSE
        return mk("isinst", x, c)

    def settle(self, t):
        """An iterator from which a known number of elements was taken: the rest of the sequence."""
        if not (t.op == "app" and t.args[0] is ext("builtins.iter") and len(t.args[1]) == 1):
            return t
        es = [e for e in self.log if e.kind == "mut" and e.name == "next" and e.base is t]
        if not es:
            return t
        if all(len(e.args) == 0 and e.loops == self.loops for e in es):
            return self.mk_slice(t.args[1][0], const(len(es)), NONE, NONE)
        self.ntmp += 1
        return mk("unk", "iterator", self.ntmp)

    def uncopied(self, t, node):
        """for x in list(X) like for x in X, when X is no list made here."""
        if t.op == "obj" and t.args[0].kind == "list" and len(t.args[0].init) == 1 and t.args[0].init[0].op == "star" and isinstance(node, ast.Call) \
                and t.args[0].node is node and not self.content_effects(t):
            x = b = t.args[0].init[0].args[0]
            while b.op in ("attr", "idx", "slice"):
                b = b.args[0]
            if b.op not in ("obj", "phi"):
                return x
        return t

    def call_ext(self, f, args, kw, st, fid, node):
        n = f.args[0]
        if n != "builtins.next" and any(x.op == "app" and x.args[0] is ext("builtins.iter") for x in args):
            args = [self.settle(x) for x in args]
        if n.startswith("builtins."):
            b = n[9:]
            if b == "object" and not args and not kw:
                return self.new_obj("inst", st, node, cls=f)
            if b == "isinstance" and len(args) == 2:
                return self.isinst(args[0], args[1])
            if b == "type" and len(args) == 1:
                return self.typecall(args[0])
            if b == "len" and len(args) == 1:
                ks = self.known_seq(args[0], st)
                if ks is not None:
                    return const(len(ks))
                x = args[0]
                g = self.guarded_items(x)
                if g is not None and x.args[0].kind == "list" and len(g) <= 4:
                    n = const(0)
                    for c, _ in g:
                        n = mk_phi(c, self.plus_one(n), n)
                    return n
                if x.op == "obj" and x.args[0].kind == "list" and (self.content_effects(x)):
                    s = self.seq(x)
                    if s is None or not (len(s) == 1 and s[0][0] in ("each", "star")):
                        return mk("app", f, (x,), (), ("v", self.version(x)))
                v = self.version(x) if x.op in ("sym", "attr", "mu", "idx", "elem", "val") else 0
                d = self.dom_of(x)
                if d.op == "zipdom":
                    d = x
                if d is x and x.op == "obj" and x.args[0].kind == "list" and self.content_effects(x):
                    v = self.version(x)
                return mk("app", f, (d,), ()) if not v else mk("app", f, (d,), (), ("v", v))
            if b in ("list", "set", "dict") and not kw:
                if not args:
                    return self.new_obj(b, st, node)
                if b == "dict":
                    x = args[0]
                    ks = self.known_seq(x, st)
                    if ks is not None and x.op != "obj" and all(k.op == "tup" and len(k.args[0]) == 2 for k in ks):
                        return self.new_obj("dict", st, node, init=[k.args[0] for k in ks])
                    if x.op == "app" and x.args[0] is ext("builtins.zip") and len(x.args[1]) == 2 or x.op == "app" and x.args[0] is ext("builtins.enumerate"):
                        # dict(zip(K, V)): one write per position
                        return self.dict_from_pairs(x, st, node)
                    if x.op == "obj" and x.args[0].kind == "list":
                        return self.dict_from_pairs(x, st, node)
                    return self.new_obj("dict", st, node, init=((None, x),))
                return self.new_obj(b, st, node, init=self.spread(args[0], st) if b == "list" else (mk("star", args[0]),) if self.known_seq(args[0], st) is None else tuple(self.known_seq(args[0], st)))
            if b == "dict":
                return self.new_obj("dict", st, node, init=[(const(k), v) for k, v in kw.items()])
            if b == "tuple":
                if not args:
                    return mk("tup", ())
                x = args[0]
                if x.op == "tup":
                    return x
                ks = self.known_seq(x, st)
                if ks is not None:
                    return mk("tup", tuple(ks))
                if self.typeof(x) is not None and self.typeof(x).args[0] in ("tuple", "tuplevar", "tupleof"):
                    return x
                return mk("app", f, (x,), ())
            if b in ("map", "filter") and len(args) >= 2:
                return self.map_filter(b, args, st, fid, node)
            if b in ("str", "repr") and len(args) == 1:
                x = args[0]
                m = self.find_method(x, "__str__" if b == "str" else "__repr__", st)
                if m is None and b == "str":
                    m = self.find_method(x, "__repr__", st)
                if m is not None and self.deep and x.op == "symw" and self.fstack and self.fstack[-1].qual.split(".")[-1] in ("__str__", "__repr__"):
                    return self.call_term(m, [], {}, st, fid, node)
                if b == "str" and (is_str(x)):
                    return x
                if b == "str" and x.op == "const" and isinstance(x.args[0], int) and not isinstance(x.args[0], bool):
                    return const(str(x.args[0]))
                if b == "repr" and x.op == "const" and (isinstance(x.args[0], str) or type(x.args[0]) is int):
                    return const(repr(x.args[0]))
                return mk_fmt([("s" if b == "str" else "r", x)])
            if b == "format" and len(args) == 1:
                return mk_fmt([("s", args[0])])
            if b in ("any", "all") and len(args) == 1:
                return self.any_all(b, args[0], st)
            if b == "sum" and len(args) >= 1:
                return mk("app", f, tuple(args), ())
            if b == "bool" and len(args) == 1:
                return self.truth(args[0])
            if b == "getattr" and len(args) >= 2 and args[1].op == "const":
                return self.getattr(args[0], args[1].args[0], st, fid, node)
            if b == "setattr" and len(args) == 3:
                if args[1].op == "const":
                    self.setattr(args[0], args[1].args[0], args[2], st, node)
                else:
                    self.eff("setattr", args[0], "@dynamic", (args[1], args[2]), st, node)
                return NONE
            if b == "delattr" and len(args) == 2:
                self.eff("delattr", args[0], args[1].args[0] if args[1].op == "const" else "@dynamic", (), st, node)
                return NONE
            if b in ("object.__setattr__", "type.__setattr__") and len(args) == 3:
                self.eff("setattr", args[0], args[1].args[0] if args[1].op == "const" else "@dynamic", (args[2],), st, node)
                return NONE
            if b == "object.__new__":
                c = args[0] if args else NONE
                return self.new_obj("inst", st, node, cls=c)
            if b == "object.__init__":
                return NONE
            if b == "iter" and len(args) == 1:
                if self.era == "module" and not self.fstack:
                    return mk("app", f, (args[0],), (), len(self.log))
                return mk("app", f, (args[0],), ())
            if b == "next":
                t = self.settle(args[0]) if len(args) == 1 else args[0]
                if len(args) == 2 and t.op == "app" and t.args[0] is ext("builtins.iter") and not t.args[2] and self.settle(t) is t:
                    x = t.args[1][0]
                    self.eff("mut", args[0], "next", tuple(args[1:]), st, node)
                    return mk_phi(self.truth(x), self.index(x, const(0)), args[1])
                e = self.eff("mut", args[0], "next", tuple(args[1:]), st, node)
                if len(args) == 1 and t.op == "slice":
                    return self.index(t, const(0))
                if len(args) == 1 and t.op == "app" and t.args[0] is ext("builtins.iter") and not t.args[2]:
                    return self.index(t.args[1][0], const(0))
                return mk("popped", args[0], tuple(args[1:]), e.pos)
            if b in ("id", "hash"):
                return mk("app", f, tuple(args), ())
            if b == "super" and len(args) == 2:
                return mk("super", args[0], args[1])
            if b in ("vars", "globals", "locals"):
                return mk("app", f, tuple(args), ())
            if b in PURE_EXT:
                if b in ("sorted",):
                    return mk("app", f, tuple(args), tuple(sorted(kw.items())))
                self.calls.append((self.fstack[-1].qual if self.fstack else "", f, node, self.loops, st.gate, tuple(args), self.cur_module))
                return mk("app", f, tuple(args), tuple(sorted(kw.items())))
            if b[:1].isupper() or b.endswith("Error"):
                return mk("app", f, tuple(args), tuple(sorted(kw.items())))
            parts = b.split(".")
            if len(parts) == 2 and parts[0] in ("list", "dict", "set", "str", "tuple") and args and parts[1] != "fromkeys":
                r = self.call_method(args[0], parts[1], args[1:], kw, st, fid, node)
                if r is not None:
                    return r
            return self.opaque_call(f, args, kw, st, node)
        if n == "functools.reduce" and len(args) in (2, 3):
            if self.deep and args[0].op in ("fn", "partial") and (ks := self.known_seq(args[1], st)) is not None and 0 < len(ks) + len(args) - 2 <= 16:
                ks = list(args[2:]) + list(ks)
                v = ks[0]
                for x in ks[1:]:
                    v = self.call_term(args[0], [v, x], {}, st, fid, node)
                return v
            return mk("reduce", args[0], args[1], args[2] if len(args) == 3 else NONE)
        if n == "functools.wraps":
            return ext("functools.wraps")
        if n == "functools.partial" and args:
            return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kw.items())))
        if n in ("typing.cast",) and len(args) == 2:
            return args[1]
        if n == "copy.copy" and len(args) == 1:
            r = self.call_method(args[0], "copy", [], {}, st, fid, node)
            if r is not None:
                return r
        if n.startswith("operator.") and n[9:] in OPERATOR and len(args) == 2:
            return self.binop(OPERATOR[n[9:]], args[0], args[1], st, fid, node)
        if n in ("operator.itemgetter", "operator.attrgetter", "operator.methodcaller") and len(args) == 1:
            return mk("opfn", n[9:], args[0])
        if n == "operator.eq" or n == "operator.is_":
            return self.equal(*args)
        if n == "operator.getitem":
            return self.getitem(args[0], args[1], st, fid, node)
        if n == "operator.setitem":
            self.setitem(args[0], args[1], args[2], st, fid, node)
            return NONE
        if n == "itertools.chain":
            return self.new_obj("list", st, node, init=[y for x in args for y in self.spread(x, st)])
        if n == "itertools.islice" and len(args) in (2, 3):
            lo, hi = (NONE, args[1]) if len(args) == 2 else (args[1], args[2])
            return self.getitem(args[0], mk("sl", lo, hi, NONE), st, fid, node)
        if n == "itertools.count":
            return mk("app", f, tuple(args), ())
        if n in ("typing.TypeVar", "typing.NewType", "typing.ParamSpec"):
            return mk("typevar", args[0].args[0] if args and args[0].op == "const" else "?", kw.get("bound", NONE))
        if n.split(".")[0] in ("math", "operator", "itertools", "string", "typing", "functools", "re", "dataclasses", "collections"):
            return mk("app", f, tuple(args), tuple(sorted(kw.items())))
        return self.opaque_call(f, args, kw, st, node)

    def dict_from_pairs(self, x, st, node):
        o = self.new_obj("dict", st, node)
        ks = self.known_seq(x, st)
        if ks is not None:
            for k in ks:
                self.eff("mut", o, "__setitem__", (self.index(k, const(0)), self.index(k, const(1))), st, node)
            return o
        if x.op == "obj":
            s = self.seq(x)
            if s is not None and len(s) == 1 and s[0][0] == "each":
                _, loops, g, v = s[0]
                e = Eff("mut", o, "__setitem__", (self.index(v, const(0)), self.index(v, const(1))), st.gate + g, self.loops + tuple(l for l in loops if l not in self.loops), node, self.fstack, len(self.log), self.cur_module)
                self.log.append(e)
                return o
        L = Loop("comp", node, x, st.gate, self.loops, self.fstack[-1] if self.fstack else None)
        p = self.mk_elem(x, L)
        e = Eff("mut", o, "__setitem__", (self.index(p, const(0)), self.index(p, const(1))), st.gate + ((mk("inloop", L), True),), self.loops + (L,), node, self.fstack, len(self.log), self.cur_module)
        self.log.append(e)
        return o

    def map_filter(self, b, args, st, fid, node):
        fn, its = args[0], args[1:]
        o = self.new_obj("list", st, node)
        src = its[0] if len(its) == 1 else mk("app", ext("builtins.zip"), tuple(its), ())
        known = self.known_seq(src, st)

        def one(x, s2):
            xs = [x] if len(its) == 1 else list(x.args[0])
            if b == "map":
                v = self.call_term(fn, xs, {}, s2, fid, node)
                self.eff("mut", o, "append", (v,), s2, node)
            else:
                t = self.truth(x) if fn is NONE else self.truth(self.call_term(fn, xs, {}, s2, fid, node))
                s3 = self.assume(State(s2.frames, s2.gate), t, True)
                if s3 is not None:
                    self.eff("mut", o, "append", (x,), s3, node)

        if known is not None and len(known) <= 128:
            for x in known:
                one(x, st)
            return o
        L = Loop("comp", node, src, st.gate, self.loops, self.fstack[-1] if self.fstack else None)
        self.loops = self.loops + (L,)
        s2 = State(st.frames, st.gate + ((mk("inloop", L), True),))
        one(self.mk_elem(src, L), s2)
        st.frames = s2.frames
        self.loops = self.loops[:-1]
        return o

    def any_all(self, b, x, st):
        ks = self.known_seq(x, st)
        if ks is not None:
            cs = [self.truth(k) for k in ks]
            return mk_and(cs) if b == "all" else mk_or(cs)
        s = self.seq(x)
        if s is not None:
            cs = []
            for seg in s:
                if seg[0] == "item":
                    c = self.truth(seg[1])
                    g = conj(seg[2])
                    cs.append(mk_or([mk_not(g), c]) if b == "all" else mk_and([g, c]))
                elif seg[0] == "each" and len(seg[1]) == 1:
                    c = self.truth(seg[3])
                    g = conj(seg[2])
                    c = mk_or([mk_not(g), c]) if b == "all" else mk_and([g, c])
                    cs.append(self.mk_allL(seg[1][0], c) if b == "all" else mk_not(self.mk_allL(seg[1][0], mk_not(c))))
                elif seg[0] == "star" and not seg[2]:
                    t = mk("truth", mk("belem", seg[1]))
                    cs.append(mk(b, seg[1], t))
                else:
                    return mk("app", ext("builtins." + b), (x,), ())
            return mk_and(cs) if b == "all" else mk_or(cs)
        return mk(b, x, mk("truth", mk("belem", x)))


OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}
DUNDER = {"+": ("__add__", "__radd__"), "-": ("__sub__", "__rsub__"), "*": ("__mul__", "__rmul__"), "/": ("__truediv__", "__rtruediv__"),
          "**": ("__pow__", "__rpow__"), "@": ("__matmul__", "__rmatmul__"), "%": ("__mod__", "__rmod__"), "//": ("__floordiv__", "__rfloordiv__")}
OPERATOR = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "pow": "**", "floordiv": "//", "mod": "%", "or_": "|", "and_": "&"}
import builtins as _b
BUILTINS = set(dir(_b))


def _builtin_sub(a, b):
    x, y = getattr(_b, a.replace("builtins.", ""), None), getattr(_b, b.replace("builtins.", ""), None)
    if isinstance(x, type) and isinstance(y, type):
        return issubclass(x, y)
    return a == b


def _as_load(t):
    t = ast.parse(ast.unparse(t), mode="eval").body
    return t


def _own_nodes(fn):
    """Nodes of a function body, not descending into nested functions/lambdas/classes."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def _augmented_only(loop, name, kind):
    """The variable holds a container which the loop only changes in place with augmented assignments."""
    n = 0
    for x in ast.walk(loop):
        if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, (ast.Store, ast.Del)):
            n += 1
        if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == name \
                and isinstance(x.op, {"list": (ast.Add,), "set": (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor), "dict": (ast.BitOr,)}[kind]):
            n -= 1
    return n == 0


def _assigned(loop):
    out = []

    def add(t):
        if isinstance(t, ast.Name):
            if t.id not in out:
                out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                add(x)
        elif isinstance(t, ast.Starred):
            add(t.value)

    if isinstance(loop, ast.For):
        add(loop.target)
    stack = list(loop.body) + ([] if isinstance(loop, ast.For) else [loop.test])
    while stack:
        n = stack.pop()
        if isinstance(n, ast.Assign):
            for t in n.targets:
                add(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
            add(n.target)
        elif isinstance(n, ast.For):
            add(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    add(i.optional_vars)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.append((al.asname or al.name).split(".")[0])
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name not in out:
                out.append(n.name)
            continue
        elif isinstance(n, ast.Lambda):
            continue
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.append(n.name)
        stack.extend(ast.iter_child_nodes(n))
    return out


# ------------------------------------------------------------------ program

class Program:
    def __init__(self, root, deep=False, opaque=()):
        self.root = root
        self.fns = Fn.registry = {}
        self.files = {}
        self.modules = {}
        self.classes = {}
        self.frame_info = {}
        self.saved_frames = {}
        self.nframes = 0
        self.anncache = {}
        src = os.path.join(root, "src")
        top = os.path.join(src, "protosym")
        if not os.path.isdir(top):
            raise AnalysisError(f"no package at {top}")
        for d, _, fs in os.walk(top):
            if "__pycache__" in d:
                continue
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, src)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[:-9]
                    self.files[rel] = p
        self.init_interp = Interp(self, opaque)
        self.init_interp.deep = deep
        self.init_interp.era = "module"
        for n in sorted(self.files):
            try:
                with open(self.files[n]) as fh:
                    s = fh.read()
                tree = ast.parse(s, self.files[n])
            except SyntaxError as e:
                raise AnalysisError(f"cannot parse {self.files[n]}: {e}")
            self.modules[n] = Module(n, self.files[n], os.path.relpath(self.files[n], root), tree, s)
        for n in sorted(self.files):
            if not n.endswith("__main__"):
                self.load(n)
        self.infer_attrs()

    @property
    def used_calls(self):
        """Calls whose result is used: of methods that return nothing there are none."""
        if self._used_calls is None:
            self._used_calls = set()
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, (ast.Expr, ast.Lambda, ast.BoolOp, ast.IfExp, ast.comprehension)):
                        continue
                    self._used_calls |= {k for k in ast.iter_child_nodes(n) if isinstance(k, ast.Call)}
        return self._used_calls

    _used_calls = None

    def add_text(self, name, text):
        """A module that is not part of the package: the scenarios of the rules."""
        if name not in self.modules:
            self.modules[name] = Module(name, name, name, ast.parse(text, name), text)
            mine = set(self.fns)
            era, self.init_interp.era = self.init_interp.era, "module"
            self.load(name)
            for k in list(self.fns):
                if k not in mine:
                    del self.fns[k]
        return self.modules[name]

    @property
    def spans(self):
        return self.__dict__.setdefault("_spans", [])

    def load(self, name):
        m = self.modules.get(name)
        if m is None:
            return None
        if m.state:
            return m
        m.state = 1
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
        it = self.init_interp
        span0 = len(it.log)
        saved = (it.cur_module, it.loops, it.fstack, it.loopctx, it.cur_class)
        it.cur_module, it.loops, it.fstack, it.loopctx, it.cur_class = m, (), (), [], None
        fid = it.new_frame(name, module=True)
        it.raise_sinks.append([])
        st = State({fid: m.ns}, ())
        # `m.ns` must be the live frame (imports in cycles see partial modules)
        cur = st
        for s in m.tree.body:
            if isinstance(s, ast.If) and _is_type_checking(s.test):
                self.type_imports(m, s.body)
                continue
            r = it.exec_stmt(s, cur, fid)
            if r is None:
                break
            if r.frames.get(fid) is not m.ns:
                new = r.frames[fid]
                m.ns.clear()
                m.ns.update(new)
                r.frames[fid] = m.ns
            cur = r
        it.raise_sinks.pop()
        it.cur_module, it.loops, it.fstack, it.loopctx, it.cur_class = saved
        m.state = 2
        self.spans.append((span0, len(it.log), name))
        return m

    def during(self, pos):
        """Name of the module whose initialisation made the effect (or object) at this position of the log."""
        best = None
        for a, b, name in self.spans:
            if a <= pos < b and (best is None or b - a < best[1] - best[0]):
                best = (a, b, name)
        return best[2] if best else None

    def type_imports(self, m, body):
        for s in body:
            if isinstance(s, ast.ImportFrom) and not s.level:
                for al in s.names:
                    m.typens[al.asname or al.name] = ("import", s.module, al.name)
            elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                m.typens[s.targets[0].id] = ("alias", s.value)

    def is_node(self, c):
        return any(k.qual in ("protosym.core.atom.Atom", "protosym.core.tree.Tree", "protosym.core.sym.Sym") for k in c.mro())

    def module_term(self, name):
        if name in self.modules:
            self.load(name)
            return mk("mod", name)
        return ext(name)

    def import_from(self, mod, name):
        if mod in self.modules:
            sub = mod + "." + name
            m = self.load(mod)
            if name in m.ns:
                return m.ns[name]
            if sub in self.modules:
                self.load(sub)
                return mk("mod", sub)
            return mk("attr", mk("mod", mod), name)
        if mod in ("typing", "typing_extensions") and name == "TYPE_CHECKING":
            return FALSE
        return ext(mod + "." + name)

    def cls_term(self, qual):
        c = self.classes.get(qual)
        if c is None:
            raise AnalysisError(f"anchor class {qual} not found")
        return mk("cls", c)

    def find(self, qual):
        """Function term by qualified name 'module.func' or 'module.Class.method' (through re-exports)."""
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            m = ".".join(parts[:i])
            if m in self.modules:
                v = self.load(m).ns.get(parts[i])
                for p in parts[i + 1:]:
                    if v is None or v.op != "cls":
                        v = None
                        break
                    v = v.args[0].lookup(p)[0]
                if v is None:
                    return None
                return v
        return None

    def fn(self, qual):
        v = self.find(qual)
        if v is None or v.op not in ("fn",):
            raise AnalysisError(f"anchor function {qual} not found (vanished or no longer a function)")
        return v.args[0]

    # ---------------------------------------------------------------- annotations

    def annotation(self, node, module, fn=None, depth=0):
        if node is None or depth > 8:
            return None
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                node = ast.parse(node.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(node, ast.Name):
            n = node.id
            if n in ("int", "str", "float", "bool", "list", "dict", "set", "tuple"):
                return T_type(n)
            if n == "Self" and fn is not None and fn.cls is not None:
                return T_type("inst", mk("cls", fn.cls))
            v = module.ns.get(n)
            if v is None and n in module.typens:
                k = module.typens[n]
                if k[0] == "import":
                    if k[1] in self.modules:
                        m2 = self.load(k[1])
                        v = m2.ns.get(k[2])
                        if v is None and k[2] in m2.typens:
                            return self.annotation(ast.Name(k[2]), m2, fn, depth + 1)
                else:
                    return self.annotation(k[1], module, fn, depth + 1)
            if v is None:
                return None
            if v.op == "cls":
                return T_type("inst", v)
            if v.op == "typevar":
                b = v.args[1]
                if b.op == "const" and isinstance(b.args[0], str):
                    return self.annotation(ast.Name(b.args[0]), module, fn, depth + 1)
                if b.op == "cls":
                    return T_type("inst", b)
            return None
        if isinstance(node, ast.Attribute):
            return None
        if isinstance(node, ast.Subscript):
            b = node.value.id if isinstance(node.value, ast.Name) else (node.value.attr if isinstance(node.value, ast.Attribute) else None)
            args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
            A = lambda x: self.annotation(x, module, fn, depth + 1)
            if b in ("list", "List", "Sequence", "Iterable"):
                return T_type("listof", A(args[0])) if b in ("list", "List") else T_type("seqof", A(args[0]))
            if b in ("set", "Set", "frozenset"):
                return T_type("setof", A(args[0]))
            if b in ("dict", "Dict") and len(args) == 2:
                return T_type("dictof", A(args[0]), A(args[1]))
            if b in ("tuple", "Tuple"):
                if len(args) == 2 and isinstance(args[1], ast.Constant) and args[1].value is Ellipsis:
                    return T_type("tuplevar", A(args[0]))
                return T_type("tupleof", tuple(A(x) for x in args))
            if b == "Optional":
                return A(args[0])
            if b in ("type", "Type", "Callable", "Union"):
                return None
            return A(node.value)
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            parts = []

            def flat(x):
                if isinstance(x, ast.BinOp) and isinstance(x.op, ast.BitOr):
                    flat(x.left)
                    flat(x.right)
                elif not (isinstance(x, ast.Constant) and x.value is None):
                    parts.append(x)

            flat(node)
            if len(parts) == 1:
                return self.annotation(parts[0], module, fn, depth + 1)
        return None

    def infer_attrs(self):
        """Types of unannotated instance attributes, from `self.x = <call of a class>` in __init__."""
        for c in list(self.classes.values()):
            c.inferred = {}
            init = c.ns.get("__init__")
            if init is None or init.op != "fn":
                continue
            fn = init.args[0]
            if not fn.node.args.args:
                continue
            selfname = fn.node.args.args[0].arg
            params = {a.arg: a.annotation for a in fn.node.args.args + fn.node.args.kwonlyargs}
            for n in ast.walk(fn.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) \
                        and isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == selfname:
                    v = n.value
                    t = None
                    if isinstance(v, ast.Call):
                        f = v.func
                        if isinstance(f, ast.Subscript):
                            f = f.value
                        t = self.annotation(f, fn.module, fn) if isinstance(f, ast.Name) and fn.module.ns.get(f.id) is not None and fn.module.ns[f.id].op == "cls" else None
                    elif isinstance(v, ast.Name) and params.get(v.id) is not None:
                        t = self.annotation(params[v.id], fn.module, fn)
                    if t is not None:
                        c.inferred[n.targets[0].attr] = t
        # attributes that helpers of __init__ set, or with values of other forms
        for c in list(self.classes.values()):
            init = c.ns.get("__init__")
            if init is None or init.op != "fn" or not init.args[0].node.args.args:
                continue
            r = analyse(self, init.args[0])
            types = {}
            for e in r.effects:
                if e.kind == "setattr" and e.base is r.args[0] and e.args:
                    types.setdefault(e.name, set()).add(r.it.typeof(e.args[0]))
            for n, ts in types.items():
                t = ts.pop()
                if not ts and t is not None and t.args[0] == "inst" and n not in c.inferred and not any(n in k.ann for k in c.mro()):
                    c.inferred[n] = t

    # ---------------------------------------------------------------- running an analysis

    def interp(self, opaque=(), intrinsic_nodes=True, pure=(), const_globals=False, deep=False):
        it = Interp(self, opaque, intrinsic_nodes)
        it.deep = deep
        it.pure = frozenset(pure)
        it.log = list(self.init_interp.log)
        it.base = len(it.log)
        it.const_globals = const_globals
        return it

    def params(self, fn, names=None):
        """Symbolic arguments for a function, typed by its annotations."""
        a = fn.node.args
        out, kws = [], {}
        ps = a.posonlyargs + a.args
        for i, p in enumerate(ps):
            ty = self.annotation(p.annotation, fn.module, fn)
            if i == 0 and fn.cls is not None and fn.kind != "static" and p.annotation is None:
                if fn.kind == "class" or fn.name == "__new__":
                    out.append(mk("cls", fn.cls))
                    continue
                else:
                    ty = T_type("inst", mk("cls", fn.cls))
            out.append(mk("sym", p.arg, ty))
        if a.vararg:
            ty = self.annotation(a.vararg.annotation, fn.module, fn)
            out.append(mk("star", mk("sym", a.vararg.arg, T_type("tuplevar", ty))))
        for p in a.kwonlyargs:
            kws[p.arg] = mk("sym", p.arg, self.annotation(p.annotation, fn.module, fn))
        return out, kws


class Result:
    """Outcomes and effects of one analysed function."""

    def __init__(self, it, fn, args, kws, rets, raises, value):
        self.it, self.fn, self.args, self.kws, self.returns, self.raises, self.value = it, fn, args, kws, rets, raises, value
        self.effects = it.log[it.base:]

    def param(self, name):
        a = self.fn.node.args
        ps = [p.arg for p in a.posonlyargs + a.args]
        if name in ps:
            return self.args[ps.index(name)]
        if a.vararg and a.vararg.arg == name:
            return self.args[-1].args[0]
        return self.kws.get(name)

    def arg(self, i):
        return self.args[i] if i < len(self.args) else None


def analyse(prog, fn, opaque=(), args=None, kws=None, intrinsic_nodes=True, pure=(), const_globals=False, deep=False, elem_shape=None, volatile=(), results=None, given=None):
    it = prog.interp(opaque, intrinsic_nodes, pure, const_globals, deep)
    it.given = given or {}
    it.elem_shape = elem_shape
    it.results = results or {}
    it.volatile = frozenset(volatile)
    if args is None:
        args, k2 = prog.params(fn)
        kws = k2 if kws is None else kws
    kws = kws or {}
    it.cur_module = fn.module
    sink = []
    it.raise_sinks.append(sink)
    # inline by hand, keeping the individual returns
    st = State({}, ())
    root = it.new_frame("<root>")
    st.frames[root] = {}
    env = it.bind(fn, args, dict(kws), st, fn.node)
    nf = it.new_frame(fn.qual, parent=fn.frame, fn=fn)
    if fn.frame is not None:
        for fid, env2 in prog.saved_frames.items():
            st.frames.setdefault(fid, dict(env2))
        st.frames.setdefault(fn.frame, {})
    st.frames[nf] = env
    it.fstack = (fn,)
    if isinstance(fn.node, ast.Lambda):
        v = it.ev(fn.node.body, st, nf)
        rets = [Outcome("return", v, st.gate, (), fn.node, fn.module, it.fstack, st)]
    else:
        info = it.frame_info[nf]
        if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own_nodes(fn.node)):
            info["yields"] = it.new_obj("list", st, fn.node)
        end = it.exec_block(fn.node.body, st, nf)
        rets = list(info["returns"])
        if end is not None:
            rets.append(Outcome("return", info["yields"] if info.get("yields") is not None else NONE, end.gate, (), fn.node, fn.module, it.fstack, end))
    return Result(it, fn, args, kws, rets, sink, None)


def analyse_term(prog, f, args=(), kws=None, opaque=(), intrinsic_nodes=True, pure=(), const_globals=False, module=None):
    """Analyse the call f(*args, **kws) of any callable term."""
    fn = f.args[0] if f.op == "fn" else (f.args[1].args[0] if f.op == "bound" and f.args[1].op == "fn" else None)
    it = prog.interp(opaque, intrinsic_nodes, pure, const_globals)
    it.cur_module = fn.module if fn is not None else module
    sink = []
    it.raise_sinks.append(sink)
    st = State({}, ())
    root = it.new_frame("<root>")
    st.frames[root] = {}
    for fid, env in prog.saved_frames.items():
        st.frames.setdefault(fid, dict(env))
    node = fn.node if fn is not None else ast.Pass(lineno=0)
    v = it.call_term(f, list(args), dict(kws or {}), st, root, node)
    rets = [Outcome("return", leaf, st.gate + g, (), node, it.cur_module, (), st) for g, leaf in phi_leaves(v)]
    r = Result(it, fn, list(args), kws or {}, rets, sink, v)
    r.state = st
    return r


def _is_type_checking(test):
    return isinstance(test, ast.Name) and "TYPE_CHECKING" in test.id or isinstance(test, ast.Attribute) and test.attr == "TYPE_CHECKING"
