"""C21: the printed text shows the structure of the expression."""
from __future__ import annotations

import re

from .lib import *  # noqa
from .lib import T_type, raised_class, scenario, show_, value_of
from . import backends, ground
from .backends import Names, OpRun, is_python, norm, text_of

CLIENTS = {"text": "eval_repr()", "latex": "eval_latex()"}
TREES = '''
def as_text(tree):
    return tree.__str__()

def as_repr(tree):
    return tree.__repr__()

def atom_repr(atom):
    return atom.__repr__()
'''


class Unreadable(Exception):
    """The text is no expression."""


class NotKnown(Exception):
    """A notation that is not among those that are read here."""


# ------------------------------------------------------------------ text of an operation

def written(t, env):
    """The text that a string term gives for these texts of the leaves (None: not known)."""
    if t in env:
        return env[t]
    o = t.op
    if o == "const" and isinstance(t.args[0], str):
        return t.args[0]
    if o == "treeatom" and backends.head_name(t) is not None:
        return backends.head_name(t)
    if o == "atom":
        return written(t.args[1], env)
    if o == "fmt":
        out = ""
        for p in t.args[0]:
            if p[0] == "lit":
                out += p[1]
                continue
            x = written(p[1], env) if p[0] in ("s", "r") and len(p) == 2 else None
            if x is None:
                return None
            out += x
        return out
    if o == "phi":
        c = holds(t.args[0], env)
        return None if c is None else written(t.args[1 if c else 2], env)
    if o == "slice" and all(x.op == "const" for x in t.args[1:]):
        x = written(t.args[0], env)
        return None if x is None else x[slice(*(y.args[0] for y in t.args[1:]))]
    if o == "idx" and t.args[1].op == "const" and type(t.args[1].args[0]) is int:
        x = written(t.args[0], env)
        return None if x is None else x[t.args[1].args[0]:][:1]
    if o == "join":
        sep, xs = written(t.args[0], env), several(t.args[1], env)
        return None if sep is None or xs is None else sep.join(xs)
    if o == "app":
        f, a = t.args[0], t.args[1]
        if f is ext("builtins.abs") and len(a) == 1 and re.fullmatch(r"-?\d+", x := written(a[0], env) or ""):
            return str(abs(int(x)))
        if f is ext("builtins.str") and len(a) == 1 and not t.args[2]:
            return written(a[0], env)
        if f.op == "attr" and not t.args[2] and f.args[1] in METHODS:
            x, ys = written(f.args[0], env), [written(y, env) for y in a]
            if x is not None and None not in ys:
                v = getattr(x, f.args[1])(*ys)
                return v if isinstance(v, str) else None
    if o == "concat" or o == "add":
        xs = [written(x, env) for x in t.args if isinstance(x, T)]
        return None if None in xs else "".join(xs)
    return None


def folded(t, env):
    """The text that an expression folds to for these constants."""
    try:
        s = ground.Ground(env)(t)
    except (ground.Unknown, ground.Fails):
        return None
    return s if isinstance(s, str) else None


def several(t, env):
    """The texts of a sequence of strings (None: not known)."""
    if t.op == "tup":
        xs = [written(x, env) for x in t.args[0]]
        return None if None in xs else xs
    if t.op == "obj" and "it" in env:
        xs = env["it"].seq(t)
        if xs is None or any(x[0] != "item" or x[2] is not TRUE and x[2] != () for x in xs):
            return None
        xs = [written(x[1], env) for x in xs]
        return None if None in xs else xs
    if t.op == "app" and t.args[0].op == "ext" and len(t.args[1]) == 1 and not t.args[2]:
        xs = several(t.args[1][0], env)
        f = t.args[0].args[0].split(".")[-1]
        if xs is not None and f in ("sorted", "reversed", "list", "tuple"):
            return sorted(xs) if f == "sorted" else xs[::-1] if f == "reversed" else xs
    return None


METHODS = ("strip", "lstrip", "rstrip", "replace", "removeprefix", "removesuffix", "lower", "upper", "title", "capitalize", "swapcase", "casefold")


def holds(c, env):
    """A condition on texts (None: not known)."""
    o = c.op
    if c is TRUE or c is FALSE:
        return c is TRUE
    if o == "cmp" and c.args[0] in ("==", "is", "!=", "is not") and {c.args[1], c.args[2]} <= env.get("different", set()):
        return (c.args[1] is c.args[2]) == (c.args[0] in ("==", "is"))
    if o == "not":
        x = holds(c.args[0], env)
        return None if x is None else not x
    if o in ("and", "or"):
        parts = c.args[0] if isinstance(c.args[0], (tuple, frozenset)) else c.args
        xs = [holds(x, env) for x in parts]
        if o == "and":
            return False if False in xs else None if None in xs else True
        return True if True in xs else None if None in xs else False
    if o == "contains":
        a, b = written(c.args[0], env), written(c.args[1], env)
        return None if a is None or b is None else b in a
    if o in ("eq", "=="):
        a, b = written(c.args[0], env), written(c.args[1], env)
        return None if a is None or b is None else a == b
    if o == "truth":
        return holds(c.args[0], env)
    if o == "app" and c.args[0] is ext("builtins.bool") and len(c.args[1]) == 1:
        return holds(c.args[1][0], env)
    if o == "app" and c.args[0].op == "attr" and c.args[0].args[1] in TESTS and not c.args[2]:
        x, ys = written(c.args[0].args[0], env), [written(y, env) for y in c.args[1]]
        return None if x is None or None in ys else bool(getattr(x, c.args[0].args[1])(*ys))
    x = written(c, env)
    return None if x is None else bool(x)


TESTS = ("startswith", "endswith", "isidentifier", "isdigit", "isalnum", "isalpha", "isnumeric", "isdecimal")


# ------------------------------------------------------------------ reading

def balanced(s, i):
    """The end of the group that starts at the brace s[i]."""
    depth = 0
    for j in range(i, len(s)):
        depth += (s[j] == "{") - (s[j] == "}")
        if depth == 0:
            return j
    raise Unreadable(s)


def plain(s):
    r"""LaTeX as text: \times is *, ^{e} is **(e), other groups are parentheses."""
    s = re.sub(r"\\left(?![a-z])|\\right(?![a-z])|\\!|\\,|\\ |\\;|\\:|\\quad\b", "", s)
    s = re.sub(r"\\times(?![a-zA-Z])|\\cdot(?![a-zA-Z])|\\ast(?![a-zA-Z])", "*", s)
    s = re.sub(r"\\(?:operatorname|mathrm|text|mathit)\{(\w+)\}", r"\1", s)
    s = re.sub(r"\\(sin|cos|tan|exp|log)(?![a-zA-Z])", r"\1", s)
    while "\\frac{" in s:
        i = s.index("\\frac{")
        j = balanced(s, i + 5)
        if s[j + 1:j + 2] != "{":
            raise Unreadable(s)
        k = balanced(s, j + 1)
        s = s[:i] + "((" + s[i + 6:j] + ")/(" + s[j + 2:k] + "))" + s[k + 1:]
    if "\\" in s:
        raise NotKnown(s)
    s = re.sub(r"\^(?=[^{])(\w)", r"**(\1)", s)
    return s.replace("^", "**").replace("{", "(").replace("}", ")")


class Reader:
    """The expression that a text shows: sums and products of as many operands as are written side by side, powers from the right."""

    def __init__(self, N, text, latex=False):
        self.N, self.latex, self.text = N, latex, text
        s = plain(text) if latex else text
        self.tok = re.findall(r"[A-Za-z_]\w*|\d+|\*\*|\S", s)
        self.i = 0

    def tree(self, h, *a):
        return mk("tree", mk("tup", (self.N.head(h), *a)))

    def peek(self):
        return self.tok[self.i] if self.i < len(self.tok) else ""

    def take(self, t=None):
        x = self.peek()
        if not x or t is not None and x != t:
            raise Unreadable(self.text)
        self.i += 1
        return x

    def all(self):
        e = self.sum()
        if self.i < len(self.tok):
            self.unexpected()
        return e

    def unexpected(self):
        if re.match(r"[-+*/(),\w]", self.peek()):
            raise Unreadable(self.text)
        raise NotKnown(self.text)

    def sum(self):
        xs = [self.product()]
        while self.peek() in ("+", "-"):
            op = self.take()
            x = self.product()
            xs.append(x if op == "+" else self.tree("Mul", self.N.integer(-1), x))
        return xs[0] if len(xs) == 1 else self.tree("Add", *xs)

    def product(self):
        xs = [self.sign()]
        while self.peek() in ("*", "/"):
            op = self.take()
            x = self.sign()
            if op == "*":
                xs.append(x)
            else:
                inv = self.tree("Pow", x, self.N.integer(-1))
                xs = [inv if xs == [self.N.integer(1)] else self.tree("Mul", *xs, inv)]
        return xs[0] if len(xs) == 1 else self.tree("Mul", *xs)

    def sign(self):
        if self.peek() == "-":
            self.take()
            number = self.peek().isdigit()
            x = self.sign()
            if number and x.op == "treeatom":
                return self.N.integer(-x.args[0].args[1].args[0])
            return self.tree("Mul", self.N.integer(-1), x)
        if self.peek() == "+":
            self.take()
            return self.sign()
        return self.power()

    def power(self):
        b = self.one()
        if self.peek() != "**":
            return b
        self.take()
        if self.latex:
            e = self.one()
            if self.peek() == "**":
                raise Unreadable(self.text)     # double superscript
        else:
            e = self.sign()
        return self.tree("Pow", b, e)

    def one(self):
        x = self.take()
        if x.isdigit():
            return self.N.integer(int(x))
        if x == "(":
            e = self.sum()
            self.take(")")
            if self.peek() == "(":
                raise NotKnown(self.text)
            return e
        if re.match(r"[A-Za-z_]", x):
            if self.peek() != "(":
                return mk("treeatom", mk("atom", self.N.types["Symbol"], const(x)))
            self.take()
            args = []
            while self.peek() != ")":
                args.append(self.sum())
                if self.peek() != ")":
                    if self.peek() != ",":
                        self.unexpected()
                    self.take()
            self.take(")")
            if x == "pow":
                x = "Pow"
            return self.tree(x, *args)
        self.i -= 1
        self.unexpected()


# ------------------------------------------------------------------ the nesting of operations

OPS = [("Add", 2), ("Add", 3), ("Mul", 2), ("Mul", 3), ("Pow", 2), ("sin", 1), ("cos", 1), ("List", 0), ("List", 2),
       ("some_Function", 0), ("some_Function", 1), ("some_Function", 2)]
WIDE = [("Add", 2), ("Mul", 2), ("Pow", 2), ("some_Function", 1), ("some_Function", 2)]
ATOMS = [("a negative integer", -1), ("zero", 0), ("one", 1), ("an integer", 2), ("a long integer", 12), ("a long name", "alpha")]


class Printer:
    """The text of whole expressions, from the text of each operation."""

    def __init__(self, ctx, client):
        self.ctx, self.client = ctx, client
        self.N = Names(backends.deep_program(ctx))
        self.ops, self.why, self.at = {}, {}, {}
        self.wide = [(h, k) for h in ("Add", "Mul", "List", "some_Function") for k in sizes(ctx, range(4)) if k > 3]
        for h, k in OPS + self.wide:
            R = OpRun(ctx, client, self.N.head(h), k)
            self.at[h, k] = R.at
            if not R.ok:
                self.why[h, k] = R.why
            elif R.op_raises():
                self.why[h, k] = "raises"
            else:
                self.ops[h, k] = (R.ops_value, R.W)
        self.atom = {}
        for a in ("Integer", "Symbol"):
            R = OpRun(ctx, client, self.N.heads["Add"], 2, atom=a)
            if R.ok and not R.raises(R.atom_value, R.atom_gate):
                self.atom[a] = (R.atom_value, R.v)

    def leaf(self, x):
        """(expression, text) of a symbol or an integer."""
        a = "Integer" if isinstance(x, int) else "Symbol"
        e = self.N.integer(x) if a == "Integer" else mk("treeatom", mk("atom", self.N.types["Symbol"], const(x)))
        if a not in self.atom:
            return e, None
        t, v = self.atom[a]
        return e, written(t, {v: str(x)}) or folded(t, {v: x})

    def op(self, key, parts):
        """(expression, text) of an operation on these operands."""
        e = mk("tree", mk("tup", (self.N.head(key[0]), *(p[0] for p in parts))))
        if key not in self.ops or any(p[1] is None for p in parts):
            return e, None
        t, W = self.ops[key]
        env = dict(zip(W, (p[1] for p in parts)))
        return e, written(t, env) or folded(t, env)

    def nested(self, names, key, places):
        """An operation with other operands at some places and symbols elsewhere."""
        return self.op(key, [places.get(i) or self.leaf(next(names)) for i in range(key[1])])

    def read(self, text):
        try:
            return Reader(self.N, text, self.client == "latex").all()
        except Unreadable:
            return "unreadable"
        except NotKnown:
            return None


def letters():
    return iter("yxvzuwqpsrtbadcnmghklXYZUVWABCDEFGHKLMNPQRST")


def label(h, k):
    return f"{h} of {k}" if (h, k) in OPS or k > 3 else h


def missing(e, s):
    """The names and numbers of an expression that do not occur in a text."""
    words = set(re.findall(r"[A-Za-z_0-9]+", s))
    if e.op == "treeatom":
        v = e.args[0].args[1]
        return {str(v.args[0])} - words if v.op == "const" and re.fullmatch(r"\w+", str(v.args[0])) else set()
    return {x for c in e.args[0].args[0][1:] for x in missing(c, s)} if e.op == "tree" and e.args[0].op == "tup" else set()


def nesting(ctx, client, rule="nesting"):
    P = Printer(ctx, client)
    what = CLIENTS[client]
    N = P.N
    for key in OPS + P.wide:
        if key not in P.ops and P.why[key] != "raises":
            ctx.und(rule, f"{what}: {label(*key)}", P.at[key], P.why[key])
    if len(P.atom) != 2:
        ctx.und(rule, f"{what}: atoms", "", "text of the atoms is not known")
        return
    keys = [k for k in OPS if k in P.ops]
    cases = []      # (construct, where, expression, text)
    flat = {}
    for key in keys:
        flat[key] = P.nested(letters(), key, {})
        cases.append((f"{what}: {label(*key)}", P.at[key], *flat[key]))
    for key in P.wide:
        if key in P.ops:
            cases.append((f"{what}: {label(*key)}", P.at[key], *P.nested(letters(), key, {})))
    for name, x in ATOMS:
        cases.append((f"{what}: {name}", "", *P.leaf(x)))
    pairs = {}
    for key in keys:
        for i in range(key[1]):
            for name, x in ATOMS:
                pairs[key, i, name] = P.nested(letters(), key, {i: P.leaf(x)})
                cases.append((f"{what}: {label(*key)}, operand {i}: {name}", P.at[key], *pairs[key, i, name]))
            for sub in keys:
                names = letters()
                pre = [P.leaf(next(names)) for _ in range(i)]
                inner = P.nested(names, sub, {})
                pairs[key, i, sub] = P.nested(names, key, {**dict(enumerate(pre)), i: inner})
                cases.append((f"{what}: {label(*key)}, operand {i}: {label(*sub)}", P.at[key], *pairs[key, i, sub]))
    texts = {}
    for key in keys:
        if key[1] > 1:      # the operands the other way round
            e, s = P.nested(iter("xyvzuw"), key, {})
            if s is not None:
                texts.setdefault(s, {})[e] = ""
    for c, w, e, s in cases:
        if s is not None:
            texts.setdefault(s, {})[e] = c
    failed = set()

    def decide(c, e, s):
        """(verdict, explanation) for one expression and its text."""
        if s is None:
            return "und", "text not known"
        got = P.read(s)
        if got is e:
            return "ok", s
        others = [x for x in texts.get(s, {}) if x is not e]
        if others:
            return "bad", f"prints {s}, like {show_(others[0])[:100]}"
        if client == "text" and not is_python(s):
            return "bad", f"prints {s}, which is no expression"
        lost = missing(e, s)
        if lost:
            return "bad", f"prints {s}, without {', '.join(sorted(lost))}"
        if got is None:
            return "und", f"prints {s}"
        if got == "unreadable":
            return "bad", f"prints {s}, which is no expression"
        if norm(N, got) != norm(N, e):
            return "bad", f"prints {s}, which is {show_(got)[:100]}"
        return "und", f"prints {s}, which is {show_(got)[:100]}"
    for (c, w, e, s) in cases:
        d, text = decide(c, e, s)
        if d != "ok":
            failed.add(c)
        {"ok": ctx.ok, "bad": ctx.bad, "und": ctx.und}[d](rule, c, w, text)
    # deeper: only built from pairs that are right
    good = lambda p, i, sub: f"{what}: {label(*p)}, operand {i}: {sub if isinstance(sub, str) else label(*sub)}" not in failed
    deep = {}
    for key in keys:
        for i in range(key[1]):
            for sub in keys:
                if not good(key, i, sub):
                    continue
                for j in range(sub[1]):
                    for last in keys + [n for n, _ in ATOMS]:
                        if not good(sub, j, last):
                            continue
                        names = letters()
                        pre = [P.leaf(next(names)) for _ in range(i)]
                        pre2 = [P.leaf(next(names)) for _ in range(j)]
                        inner = P.leaf(dict(ATOMS)[last]) if isinstance(last, str) else P.nested(names, last, {})
                        mid = P.nested(names, sub, {**dict(enumerate(pre2)), j: inner})
                        e, s = P.nested(names, key, {**dict(enumerate(pre)), i: mid})
                        deep.setdefault((key, i, sub), []).append((e, s))
                        if s is not None:
                            texts.setdefault(s, {})[e] = ""
                if sub[1] < 2:
                    continue
                # several compound operands side by side
                some = [k for k in (keys if ctx.tier == "thorough" else WIDE) if k in P.ops] + ["a negative integer"]
                for first in some:
                    for last in some:
                        between = dict.fromkeys(range(sub[1]), first)
                        between[sub[1] - 1] = last
                        if not all(good(sub, j, k) for j, k in between.items()):
                            continue
                        names = letters()
                        pre = [P.leaf(next(names)) for _ in range(i)]
                        inner = {j: P.leaf(dict(ATOMS)[k]) if isinstance(k, str) else P.nested(names, k, {}) for j, k in between.items()}
                        e, s = P.nested(names, key, {**dict(enumerate(pre)), i: P.nested(names, sub, inner)})
                        deep[key, i, sub].append((e, s))
                        if s is not None:
                            texts.setdefault(s, {})[e] = ""
    for (key, i, sub), es in deep.items():
        c = f"{what}: {label(*key)}, operand {i}: {label(*sub)} of other operations"
        res = [decide(c, e, s) for e, s in es]
        for d in ("bad", "und"):
            hit = [t for x, t in res if x == d]
            if hit:
                getattr(ctx, d)(rule, c, P.at[key], hit[0])
                break
        else:
            ctx.ok(rule, c, P.at[key], f"{len(es)} nestings, such as {es[0][1]}")


# ------------------------------------------------------------------ text of core trees

SHAPES = [("a2",), ("a2", "a0"), ("a2", "a0", "a3"), ("a2", "a0", "a3", "a1"), ("a2", "a0", "a0"), ("a2", ("a1", "a0"), "a3"), ("a2", "a3", ("a1", "a0")),
          (("a2", "a1"), "a0"), ("a2", ("a1", ("a3", "a0")))]


def trees(ctx, rule="trees"):
    prog = backends.deep_program(ctx)
    N = Names(prog)
    for client, what in (("as_text", "str(Tree)"), ("as_repr", "repr(Tree)")):
        for shape in SHAPES:
            env, inner = {}, []

            def build(x):
                if isinstance(x, str):
                    w = mk("treeatom", mk("sym", x, None))
                    env[w] = env[w.args[0]] = x
                    return w, x
                parts = [build(y) for y in x]
                t = mk("tree", mk("tup", tuple(y for y, _ in parts)))
                texts = [y for _, y in parts]
                text = f"{texts[0]}({', '.join(texts[1:])})" if client == "as_text" else f"Tree({', '.join(texts)})"
                inner.append((t, text))
                return t, text
            t, want = build(shape)
            for y, text in inner[:-1]:
                env[y] = text
            k = len(shape) - 1
            names = [n for n in re.findall(r"\w+", want) if n != "Tree"]
            r = scenario(ctx, TREES, client, [t], const_globals=True, prog=prog, **SMALL)
            at = r.returns[0].where() if r.returns else ""
            A = {w.args[0] for w in env if w.op == "treeatom"}
            x = value_of(r)
            s = written(x, {**env, "it": r.it, "different": {*A, *env, t}})
            c = f"{what} of {want}"
            if s is None:
                ctx.und(rule, c, at, show_(x)[:200])
                continue
            if client == "as_repr":
                s = re.sub(r"\bTr\((a\d)\)", r"\1", s)
            found = [n for n in re.findall(r"\w+", s) if re.fullmatch(r"a\d", n)]
            if found != names:
                ctx.bad(rule, c, at, f"is {s}")
                continue
            squash = lambda z: re.sub(r"\s+", "", z)
            if squash(s) == squash(want):
                ctx.ok(rule, c, at, s)
            elif re.search(r"a\d\s*a\d", s) or k and not re.search(r"[\])}>]\s*$", s):
                ctx.bad(rule, c, at, f"is {s}: the operands are not delimited")
            else:
                ctx.und(rule, c, at, f"is {s}")
        a = mk("atom", N.types["Symbol"], mk("sym", "v", T_type("str")))
        r = scenario(ctx, TREES, client, [mk("treeatom", a)], const_globals=True, prog=prog, **SMALL)
        x = value_of(r)
        at = r.returns[0].where() if r.returns else ""
        show = mk("sym", "v", T_type("str"))
        s = written(x, {a: "A", show: "v"})
        if s is None:
            ctx.und(rule, f"{what} of an atom", at, show_(x)[:200])
        elif client == "as_text" and s in ("A", "v") or client == "as_repr" and re.search(r"\bA\b|Symbol\W+v\b", s):
            ctx.ok(rule, f"{what} of an atom", at, s)
        else:
            ctx.bad(rule, f"{what} of an atom", at, f"is {s}")
    for t in ("Integer", "Symbol", "Function"):
        v = mk("sym", "v", T_type("int" if t == "Integer" else "str"))
        r = scenario(ctx, TREES, "atom_repr", [mk("atom", N.types[t], v)], const_globals=True, prog=prog)
        x = value_of(r)
        at = r.returns[0].where() if r.returns else ""
        s = written(x, {v: "v", N.types[t]: t})
        if s is None:
            ctx.und(rule, f"repr(Atom) of type {t}", at, show_(x)[:200])
        elif re.search(rf"\b{t}\b.*\bv\b", s):
            ctx.ok(rule, f"repr(Atom) of type {t}", at, s)
        else:
            ctx.bad(rule, f"repr(Atom) of type {t}", at, f"is {s}, without its {'value' if t in s else 'type'}")


def printed(ctx):
    backends.operations(ctx, ("text", "latex"), rule="operands")
    backends.atoms(ctx, ("text", "latex"), rule="atoms")
    backends.aliases(ctx, clients=("text",))
    backends.head_text(ctx)
    for c in CLIENTS:
        nesting(ctx, c)
    trees(ctx)
    backends.forward(ctx)
