"""C16: the meaning that each back-end gives to a head; C24: operation counts; C25: binary expansion."""
from __future__ import annotations

import ast
import re

from .lib import *  # noqa
from .lib import SUBS_OPAQUE, Canon, deep_program, scenario
from .diffr import Alg, freeze, graph_shape, joined
from .evalr import expr_term
from . import ground
from .graph import FGRAPH, forward, len_, lin_of, one_call, sorting, unversion

CLIENT = '''
def f64(expr, values):
    return expr.eval_f64(values)

def f64_none(expr):
    return expr.eval_f64()

def text(expr):
    return expr.eval_repr()

def repr_(expr):
    return expr.__repr__()

def str_(expr):
    return expr.__str__()

def latex(expr):
    return expr.eval_latex()

def sympy_(expr):
    return expr.to_sympy()

def sympy_hook(expr):
    return expr._sympy_()

def bin_expand(expr):
    return expr.bin_expand()

def count_tree(expr):
    return expr.count_ops_tree()

def count_graph(expr):
    return expr.count_ops_graph()

def as_text(tree):
    return tree.__str__()

def atom_text(atom):
    return atom.__str__()
'''

HEADS = ("Add", "Mul", "Pow", "sin", "cos", "List")


class Names:
    def __init__(self, prog):
        self.prog = prog
        self.heads = {n: rep(ns(prog, n)) for n in HEADS}
        self.types = {n: att(prog, n) for n in ("Integer", "Symbol", "Function")}
        self.other = self.function("some_Function")

    def function(self, name):
        return mk("treeatom", mk("atom", self.types["Function"], const(name)))

    def head(self, name):
        return self.heads[name] if name in self.heads else self.function(name)

    def integer(self, n):
        return mk("treeatom", mk("atom", self.types["Integer"], const(n)))


def head_name(t):
    """The name of a function that is a head."""
    if t.op == "treeatom" and t.args[0].op == "atom" and t.args[0].args[1].op == "const":
        return t.args[0].args[1].args[0]
    return None


class OpRun:
    """What a back-end computes for an operation with k operands and for an atom, in terms of w0..wk-1 and the atom's value v."""

    def __init__(self, ctx, client, head, k, atom="Symbol", text=CLIENT, prog=None, args=None, opaque=()):
        self.ctx, self.client = ctx, client
        prog = self.prog = prog or deep_program(ctx)
        N = self.N = Names(prog)
        self.W = [mk("sym", f"w{j}", None) for j in range(k)]
        self.v = mk("sym", "v", T_type("int" if atom == "Integer" else "str"))
        I, sh = graph_shape(ctx, head, k)
        at = self.atom = mk("treeatom", mk("atom", N.types[atom], self.v))

        def shape(t):
            return at if t.op == "attr" and t.args[1] == "atoms" else sh(t)
        self.values = mk("sym", "values", T_type("dict"))
        if args is None:
            args = [expr_term(prog, "expr")] + ([self.values] if client == "f64" else [])
        self.expr = args[0].args[1] if args[0].op == "symw" else args[0]
        r = self.r = scenario(ctx, text, client, args, opaque=(FGRAPH,) + SUBS_OPAQUE + tuple(opaque), const_globals=True, prog=prog, elem_shape=shape)
        self.at = r.returns[0].where() if r.returns else ""
        self.ok, self.why, self.wrong = False, "", ""
        G = one_call(ctx, r, FGRAPH)
        if G is None or G.args[1] != (self.expr,):
            self.why = "does not use forward_graph of the expression exactly once"
            return
        self.G = G
        if len(r.returns) != 1:
            self.why = "returns in several places" if r.returns else "never returns"
            return
        v = r.returns[0].value
        v = v.args[1] if v.op == "symw" else v
        v = self.shortcut(v)
        if not (v.op == "idx" and v.args[0].op == "obj" and v.args[0].args[0].kind == "list" and is_const(v.args[1], -1)):
            self.why = f"result {show_(v)}"
            return
        S = v.args[0]
        c = joined(Canon(r.it, {mk_not(r.it.equal(self.values, NONE))})(S))
        parts = {}
        for x in c.args[0] if c.op == "tup" else ():
            if x.op == "each" and len(x.args[0]) == 1 and x.args[0][0].op == "attr" and x.args[0][0].args[0] is G:
                parts[x.args[0][0].args[1]] = (x.args[1], x.args[2])
            elif x.op == "star" and x.args[0] is mk("attr", G, "atoms"):
                parts["atoms"] = (TRUE, at)
            else:
                self.why = f"values {show_(c)[:300]}"
                return
        n = len(parts)
        if n < 2 and len(c.args[0]) == n:
            # a part that is not added: every element raises
            cn = Canon(r.it, {mk_not(r.it.equal(self.values, NONE))})
            for which in ("atoms", "operations"):
                o = next((o for o in r.raises if len(o.loops) == 1 and cn(r.it.domain(o.loops[0])) is mk("attr", G, which)
                          and cn.cond(cn(conj([l for l in o.gate if l[0].op not in ("inloop", "iterates")]), 1, {o.loops[0]: 0})) is TRUE), None)
                if which not in parts and o is not None:
                    parts[which] = (TRUE, mk("noreturn", o.value))
            parts = {k: parts[k] for k in ("atoms", "operations") if k in parts}
            n = len(parts)
        if list(parts) != ["atoms", "operations"] or n != 2:
            self.why = f"values {show_(c)[:300]}"
            return
        sub = {}
        for o in {t for g, val in parts.values() for t in subterms(val)}:
            if o.op == "idx" and o.args[0] is S and o.args[1] in I:
                sub[o] = self.W[I.index(o.args[1])]
        self.ops_gate, self.ops_value = (subst(x, sub, rebuild=rebuild_) for x in parts["operations"])
        self.atom_gate, self.atom_value = parts["atoms"]
        unsure = [x for x in (self.ops_gate, self.ops_value, self.atom_gate, self.atom_value) if contains(x, lambda t: t.op == "raises")]
        if unsure:
            self.why = f"a handler may be reached: {show_(unsure[0])[:200]}"
            return
        self.ok = True

    def shortcut(self, v):
        """An expression that is expanded is given back at once when it has at most so many operands."""
        if v.op != "phi" or self.client != "bin_expand":
            return v
        kids = mk("attr", self.expr, "children")

        def holds(c, n):
            if c.op in ("not", "and", "or"):
                xs = [holds(x, n) for x in (c.args if c.op == "not" else c.args[0])]
                return None if None in xs else not xs[0] if c.op == "not" else all(xs) if c.op == "and" else any(xs)
            if c is kids or c.op == "truth" and c.args[0] is kids:
                return n > 0
            if c.op == "cmp" and c.args[0] in ("<", "=="):
                xs = [n if x.op == "app" and x.args[0] is ext("builtins.len") and x.args[1] == (kids,) else x.args[0] if x.op == "const" and type(x.args[0]) is int else None
                      for x in c.args[1:]]
                return None if None in xs else xs[0] < xs[1] if c.args[0] == "<" else xs[0] == xs[1]
            return None
        rest = []
        for lits, x in split(v):
            y = x.args[1] if x.op == "symw" else x
            c = mk_and(list(lits))
            ns = [holds(c, n) for n in range(9)]
            if y is not self.expr or None in ns:
                rest.append(y)
            elif any(ns[2:]):
                self.wrong = f"an expression is given back as it is if {show_(c)[:100]}"
                return v
        return rest[0] if len(rest) == 1 else v

    def raises(self, v, gate):
        return gate.op == "lret" or v.op in ("noreturn", "missing") or contains(v, lambda z: z.op in ("noreturn", "missing")) and v.op != "phi"

    def op_raises(self):
        return self.raises(self.ops_value, self.ops_gate)


# ------------------------------------------------------------------ numbers

ARITH = {"+": "Add", "*": "Mul", "**": "Pow"}
ARITY = {"math.sin": 1, "math.cos": 1, "math.tan": 1, "math.exp": 1, "math.sqrt": 1, "math.pow": 2, "builtins.float": 1, "operator.neg": 1,
         "operator.add": 2, "operator.mul": 2, "operator.sub": 2, "operator.truediv": 2, "operator.pow": 2, "math.sinh": 1, "math.cosh": 1,
         "math.log": (1, 2), "builtins.abs": 1, "math.fabs": 1, "math.asin": 1, "math.acos": 1, "math.hypot": (0, 9), "builtins.pow": (2, 3),
         "math.radians": 1, "math.degrees": 1, "math.log2": 1, "math.log10": 1, "math.log1p": 1, "math.expm1": 1, "math.trunc": 1, "math.floor": 1, "math.ceil": 1,
         "math.fmod": 2, "math.remainder": 2, "math.copysign": 2, "math.atan2": 2, "math.atan": 1, "math.tanh": 1, "math.cbrt": 1}

# not defined for all numbers: an expression that needs one of an operand is not defined for all operands
PARTIAL = ("math.log", "math.log2", "math.log10", "math.log1p", "math.sqrt", "math.asin", "math.acos")


OPERATORS = {"operator.add": "+", "operator.mul": "*", "operator.sub": "-", "operator.truediv": "/", "operator.pow": "**"}


class Unknown(Exception):
    pass


class Number:
    """A value computed with Python's numbers, as an expression of the package."""

    def __init__(self, N, leaves):
        self.N, self.leaves = N, set(leaves)
        self.exact = True       # only arithmetic and the functions of the package
        self.partial = False    # something is taken of an operand that not every number has

    def tree(self, h, *args):
        return mk("tree", mk("tup", (self.N.head(h) if isinstance(h, str) else h, *args)))

    def seq(self, t):
        if t.op == "tup":
            out = []
            for x in t.args[0]:
                out += self.seq(x.args[0]) if x.op == "star" else [x]
            return out
        if t.op == "app" and t.args[0] is ext("builtins.sorted") and t.args[1] or t.op == "setof":
            # sorted: any order; sets: equal ones once
            b = mk("tup", t.args[0]) if t.op == "setof" else t.args[1][0]
            xs = self.seq(b)
            return xs if len(xs) < 2 else [mk("app", ext("#" + t.op), (b, const(i)), ()) for i in range(len(xs))]
        if t.op == "app" and t.args[0].op == "ext" and t.args[0].args[0] in ("builtins.list", "builtins.tuple", "builtins.iter") and len(t.args[1]) == 1:
            return self.seq(t.args[1][0])
        if t.op == "app" and t.args[0] is ext("builtins.reversed"):
            return self.seq(t.args[1][0])[::-1]
        if t.op == "slice" and all(x is NONE or x.op == "const" for x in t.args[1:]):
            return self.seq(t.args[0])[slice(*[x.args[0] for x in t.args[1:]])]
        raise Unknown(t)

    def same_in_any_order(self, t):
        """The operands of a sum or a product."""
        if t.op == "app" and t.args[0] is ext("builtins.sorted"):
            return self.same_in_any_order(t.args[1][0])
        return self.seq(t)

    def __call__(self, t):
        if t in self.leaves:
            return t
        if t.op == "app" and t.args[0].op == "ext" and t.args[0].args[0].startswith("#"):
            return t
        if t.op == "const" and type(t.args[0]) in (int, float) and t.args[0] == int(t.args[0]):
            return self.N.integer(int(t.args[0]))
        if t.op == "lin":
            return self.tree("Add", self.N.integer(t.args[1]), *[self.tree("Mul", self.N.integer(c), self(x)) for x, c in t.args[0]])
        if t.op == "bin":
            a, b = self(t.args[1]), self(t.args[2])
            return self.binary(t.args[0], a, b)
        if t.op == "reduce" and t.args[0].op == "ext" and t.args[0].args[0] in OPERATORS:
            xs = ([t.args[2]] if t.args[2] is not NONE else []) + self.seq(t.args[1])
            if not xs:
                return mk("missing", t)
            r = self(xs[0])
            for x in xs[1:]:
                r = self.binary(OPERATORS[t.args[0].args[0]], r, self(x))
            return r
        if t.op == "neg":
            return self.tree("Mul", self.N.integer(-1), self(t.args[0]))
        if t.op == "app" and t.args[0].op == "ext" and not t.args[2]:
            return self.function(t.args[0].args[0], t.args[1], t)
        raise Unknown(t)

    def binary(self, op, a, b):
        if op in ARITH:
            return self.tree(ARITH[op], a, b)
        if op == "-":
            return self.tree("Add", a, self.tree("Mul", self.N.integer(-1), b))
        if op == "/":
            return self.tree("Mul", a, self.tree("Pow", b, self.N.integer(-1)))
        if op in ("%", "//", "&", "|", "^", ">>", "<<"):
            if a not in self.leaves:
                self.exact = False
            return self.tree(op, a, b)
        raise Unknown(op)

    def function(self, f, args, t):
        if f in ("math.fsum", "builtins.sum") and 1 <= len(args) <= 2:
            return self.tree("Add", *[self(x) for x in self.same_in_any_order(args[0])], *[self(x) for x in args[1:]])
        if f == "math.prod" and len(args) == 1:
            return self.tree("Mul", *[self(x) for x in self.same_in_any_order(args[0])])
        if any(x.op == "star" for x in args):
            args = self.seq(mk("tup", tuple(args)))
        n = ARITY.get(f)
        if n is not None and (len(args) != n if isinstance(n, int) else not n[0] <= len(args) <= n[1]):
            return mk("missing", t)
        if f in ("math.pow", "builtins.pow", "operator.pow") and len(args) == 2:
            return self.tree("Pow", self(args[0]), self(args[1]))
        if f in ("operator.add", "operator.mul", "operator.sub", "operator.truediv"):
            return self.binary(OPERATORS[f], self(args[0]), self(args[1]))
        if f == "builtins.float" and len(args) == 1:
            return self(args[0])
        if f in ("math.sin", "math.cos"):
            return self.tree(f[5:], self(args[0]))
        if f.startswith("math.") and n is not None or f in ("builtins.abs", "operator.neg"):
            args = [self(x) for x in args]
            if f == "operator.neg":
                return self.tree("Mul", self.N.integer(-1), args[0])
            if f in PARTIAL and args[0] in self.leaves:
                self.partial = True
            if any(x not in self.leaves for x in args):
                self.exact = False
            return self.tree(f, *args)
        raise Unknown(t)


# constructors of SymPy objects of other kinds
OTHER_SYMPY = ("FiniteSet", "Dict", "Dummy", "Wild", "Matrix", "ImmutableMatrix", "MatAdd", "MatMul", "Or", "And", "Not", "Eq", "Ne", "Interval",
               "Union", "Intersection", "Mod", "floor", "ceiling", "sign", "re", "im", "factorial", "gamma", "erf", "atan", "Piecewise", "Derivative")


class SympyValue(Number):
    """A SymPy value as an expression of the package."""

    def function(self, f, args, t):
        if not f.startswith("sympy."):
            return super().function(f, args, t)
        f = f.split(".")[-1]
        if f in ("Add", "Mul") and len(args) == 1 and args[0].op == "star":
            return self.tree(f, *[self(x) for x in self.same_in_any_order(args[0].args[0])])
        args = self.seq(mk("tup", tuple(args)))
        if f in ("Add", "Mul"):
            return self.tree(f, *[self(x) for x in args])
        if f == "Tuple":
            return self.tree("List", *[self(x) for x in args])
        if f == "Pow":
            if len(args) != 2:
                # the third parameter is no operand
                return self.tree("Pow", *[self(x) for x in args[:2]]) if len(args) > 2 else mk("missing", t)
            return self.tree("Pow", *[self(x) for x in args])
        if f in ("sin", "cos"):
            return self.tree(f, self(args[0])) if len(args) == 1 else mk("missing", t)
        if f in ("Integer", "Rational", "S", "sympify", "Float") and len(args) == 1 and args[0] in self.leaves:
            return args[0]
        if f in ("exp", "log", "tan", "sqrt", "Abs", "sinh", "cosh", "Min", "Max", "asin", "acos", "sec", "csc", "cot", "sinc"):
            if any(x not in self.leaves for x in args):
                self.exact = False
            return self.tree("sympy." + f, *[self(x) for x in args])
        if f in OTHER_SYMPY:
            return mk("other", ext("sympy." + f))
        raise Unknown(t)

    def __call__(self, t):
        if t.op == "app" and t.args[0].op == "app" and t.args[0].args[0].op == "ext" and t.args[0].args[0].args[0] in ("sympy.Function", "sympy.core.function.Function"):
            n = t.args[0].args[1]
            name = text_of(n[0], self.leaves) if len(n) == 1 and not t.args[0].args[2] else None
            if name is None:
                raise Unknown(t)
            return self.tree("?" + name, *[self(x) for x in self.seq(mk("tup", t.args[1]))])
        if t.op == "app" and t.args[0].op == "ext" and t.args[2] and all(k == "evaluate" for k, _ in t.args[2]):
            return self.function(t.args[0].args[0], t.args[1], t)
        return super().__call__(t)


# ------------------------------------------------------------------ text

STR_METHODS = ("lower", "upper", "title", "capitalize", "swapcase", "casefold")
NOT_DECIMAL = ("builtins.hex", "builtins.oct", "builtins.bin", "builtins.chr", "builtins.ascii", "builtins.float", "builtins.complex")


def type_name(t):
    """int or str for symbols and constants that are."""
    if t.op == "const":
        return type(t.args[0]).__name__
    if t.op == "sym" and t.args[1] is not None:
        return t.args[1].args[0]
    return None


def text_of(t, leaves=()):
    """The text of a string term; operands are written as their names.

    The text of an atom is that of its value (head_text)."""
    if t.op == "const" and isinstance(t.args[0], str):
        return t.args[0]
    if t in leaves:
        return t.args[0]
    if t.op == "treeatom" and head_name(t) is not None:
        return head_name(t)
    if t.op == "atom":
        return text_of(t.args[1], leaves)
    if t.op == "fmt":
        out = ""
        for p in t.args[0]:
            if p[0] == "lit":
                out += p[1]
            elif p[0] == "s" and len(p) == 2:
                x = text_of(p[1], leaves)
                if x is None:
                    return None
                out += x
            elif p[0] == "r" and len(p) == 2:
                x, ty = text_of(p[1], leaves), type_name(p[1])
                if x is None or ty not in ("int", "str"):
                    return None
                out += x if ty == "int" else "'" + x + "'"
            else:
                return None
        return out
    if t.op == "app" and t.args[0].op == "attr" and t.args[0].args[1] in STR_METHODS and not t.args[1] and not t.args[2]:
        x = text_of(t.args[0].args[0], leaves)
        return None if x is None else getattr(x, t.args[0].args[1])()
    if t.op == "app" and t.args[0].op == "ext" and t.args[0].args[0] in NOT_DECIMAL and len(t.args[1]) == 1 and t.args[1][0] in leaves:
        return t.args[0].args[0] + "(" + t.args[1][0].args[0] + ")"
    if t.op == "app" and t.args[0] is ext("builtins.str") and len(t.args[1]) == 1:
        return text_of(t.args[1][0], leaves)
    return None


def plain_text(s):
    """LaTeX of the kind that is printed here as the text of a Python expression."""
    s = re.sub(r"\\left|\\right|\\!|\\,|\\ |\\;", "", s)
    s = re.sub(r"\\times|\\cdot", "*", s)
    s = re.sub(r"\\operatorname\{(\w+)\}", r"\1", s)
    s = re.sub(r"\\mathrm\{(\w+)\}", r"\1", s)
    s = re.sub(r"\\(sin|cos|tan|exp|log)\b", r"\1", s)
    s = re.sub(r"\\frac\{([^{}]*)\}\{([^{}]*)\}", r"((\1)/(\2))", s)
    s = s.replace("^{", "**{").replace("{", "(").replace("}", ")")
    s = s.replace("^", "**")
    return s


def parse(s, N, leaves):
    """The expression that a text shows, read with the usual precedences (None: not readable)."""
    names = {t.args[0]: t for t in leaves}
    try:
        e = ast.parse(s.strip(), mode="eval").body
    except (SyntaxError, ValueError, RecursionError):
        return None
    T_ = lambda h, *a: mk("tree", mk("tup", (N.head(h), *a)))

    def go(n):
        if isinstance(n, ast.Name):
            return names.get(n.id) or mk("treeatom", mk("atom", N.types["Symbol"], const(n.id)))
        if isinstance(n, ast.Constant) and type(n.value) is int:
            return N.integer(n.value)
        if isinstance(n, ast.BinOp):
            op = {ast.Add: "Add", ast.Mult: "Mul", ast.Pow: "Pow"}.get(type(n.op))
            a, b = go(n.left), go(n.right)
            if op:
                return T_(op, a, b)
            if isinstance(n.op, ast.Sub):
                return T_("Add", a, T_("Mul", N.integer(-1), b))
            if isinstance(n.op, ast.Div):
                return T_("Mul", a, T_("Pow", b, N.integer(-1)))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return T_("Mul", N.integer(-1), go(n.operand))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and not n.keywords:
            if n.func.id in names:
                raise Unknown(n)
            return T_({"pow": "Pow"}.get(n.func.id, n.func.id), *[go(x) for x in n.args])
        raise Unknown(n)
    try:
        return go(e)
    except Unknown:
        return None


# ------------------------------------------------------------------ values that depend on a condition

def split(v, lits=()):
    """[(conditions, value)] for a conditional value."""
    if v.op != "phi":
        return [(lits, v)]
    return split(v.args[1], lits + (v.args[0],)) + split(v.args[2], lits + (mk_not(v.args[0]),))


def wide(lits, leaves):
    """Whether the conditions hold on a half line of each leaf (or outside finitely many points): expressions that agree there agree."""
    seen = set()
    for c in lits:
        neg = c.op == "not"
        if neg:
            c = c.args[0]
        if c in leaves or c.op == "app" and c.args[0] is ext("builtins.bool") and c.args[1][0] in leaves or c.op == "truth" and c.args[0] in leaves:
            if neg:
                return False
        elif c.op == "cmp" and c.args[0] in ("<", ">", "<=", ">="):
            x = [t for t in c.args[1:] if t in leaves]
            if len(x) != 1 or not any(t.op == "const" for t in c.args[1:]) or x[0] in seen:
                return False
            seen.add(x[0])
        elif c.op in ("eq", "==") or c.op == "cmp" and c.args[0] in ("==", "is"):
            if not neg or not all(t in leaves or t.op == "const" for t in c.args if isinstance(t, T)):
                return False
        else:
            return False
    return True


def conditional(v, leaves, verdict, points=None):
    """verdict of a value by cases: every case right, or one wrong on a half line, or all of them wrong."""
    cs = [(lits, verdict(x)) for lits, x in split(v)]
    if points is not None:
        cs = [(lits, points(lits, x) or d) if d == "bad" else (lits, d) for (lits, x), (_, d) in zip(split(v), cs)]
    if all(r == "ok" for _, r in cs):
        return "ok"
    if all(r == "bad" for _, r in cs) or any(r == "sure" for _, r in cs) or any(r == "bad" and wide(lits, leaves) for lits, r in cs):
        return "bad"
    return "und"


# ------------------------------------------------------------------ the rules

BACKENDS = {
    "f64": ("eval_f64()", "number"), "text": ("eval_repr()", "text"), "latex": ("eval_latex()", "latex"), "sympy_": ("to_sympy()", "sympy"),
}
SUPPORTED = {"f64": ("Add", "Mul", "Pow", "sin", "cos")}


def meaning_alg(N):
    one, zero = N.integer(1), N.integer(0)
    return Alg(N.heads["Add"], N.heads["Mul"], zero, one, N.heads["Pow"], N.types["Integer"])


class Meaning(Alg):
    """Polynomial normal form in which functions are applied to normal forms."""

    def poly(self, t):
        if t.op == "tree" and t not in self.sub:
            h, *args = t.args[0].args[0]
            if h not in (self.add, self.mul) and not (h is self.pow and len(args) == 2):
                return self.factor((str(h.uid), tuple(freeze(self.poly(x)) for x in args)))
        return super().poly(t)


def norm(N, t):
    return Meaning(N.heads["Add"], N.heads["Mul"], N.integer(0), N.integer(1), N.heads["Pow"], N.types["Integer"]).norm(t)


def read_value(kind, N, t, leaves):
    """(expression, exactly understood) of what a back-end computed; expression None: not understood."""
    if kind in ("number", "sympy"):
        n = (Number if kind == "number" else SympyValue)(N, leaves)
        try:
            return n(t), n.exact or n.partial
        except Unknown:
            return None, False
    s = text_of(t, leaves)
    if s is None:
        return None, False
    e = parse(plain_text(s) if kind == "latex" else s, N, leaves)
    return e, True


def operations(ctx, clients=("f64", "text", "latex", "sympy_"), rule="meaning"):
    for c in clients:
        label, kind = BACKENDS[c]
        N = Names(deep_program(ctx))
        cases = [(h, k) for h in ("Add", "Mul") for k in sizes(ctx, (2, 3, 4))] + [("Pow", 2), ("sin", 1), ("cos", 1)]
        cases += [(h, k) for h in ("List", "some_Function") for k in sizes(ctx, range(4))]
        cases += [("Pow", k) for k in (0, 1, 3)] + [("sin", k) for k in (0, 2)] + [("cos", k) for k in (0, 2)]
        if kind == "number":
            cases += [("Add", 0), ("Add", 1), ("Mul", 0), ("Mul", 1)]
        for h, k in cases:
            R = OpRun(ctx, c, N.head(h), k)
            what = f"{label}: {h} of {k}"
            if not R.ok:
                ctx.und(rule, what, R.at, R.why)
                continue
            wrong_arity = h == "Pow" and k != 2 or h in ("sin", "cos") and k != 1
            must_raise = c in SUPPORTED and h not in SUPPORTED[c] or wrong_arity
            want = mk("tree", mk("tup", (N.head(h), *R.W)))
            if kind == "sympy" and h == "some_Function":
                want = mk("tree", mk("tup", (N.head("?some_Function"), *R.W)))
            if R.op_raises():
                if must_raise:
                    ctx.ok(rule, what, R.at, "rejected with an error")
                else:
                    ctx.bad(rule, what, R.at, "raises an error")
                continue
            got = show_(R.ops_value)[:200]
            if kind == "text" and (x := text_of(R.ops_value, R.W)) is not None and not is_python(x):
                ctx.bad(rule, what, R.at, f"prints {x}, which is no expression")
                continue

            def verdict(val):
                e, exact = read_value(kind, N, val, R.W)
                if e is None:
                    return "und"
                if e.op == "missing":
                    return "ok" if must_raise else "bad"
                if norm(N, e) == norm(N, want):
                    return "ok" if not must_raise or kind in ("text", "latex") else "bad"
                return "bad" if exact else "und"
            d = conditional(R.ops_value, R.W, verdict)
            if d == "und" and not must_raise and (w := ground.witness(R.ops_value, samples(kind, h, k, N, R.W), R.ops_gate)):
                d, got = "bad", f"{got}: {ground.shown(w)}"
            {"ok": ctx.ok, "bad": ctx.bad, "und": ctx.und}[d](rule, what, R.at, f"computes {got}")


def rows(k, values):
    """Constants for k operands: all the same, all different, one of them special."""
    values = list(values)
    out = [[values[(i + o) % len(values)] for i in range(k)] for o in range(len(values))]
    out += [[v] * k for v in values]
    out += [[v if i == j else values[(i + 3) % len(values)] for i in range(k)] for v in values for j in range(k)]
    return out


def samples(kind, h, k, N, W):
    """[(constants for the operands, the value that is wanted)]"""
    if kind == "number":
        import math
        if h in ("Add", "Mul"):
            f = sum if h == "Add" else math.prod
            return [(dict(zip(W, r)), float(f(r))) for r in rows(k, (2.0, 3.0, -1.0, 0.5, 1.0, 0.0, 7.0, -4.0))]
        if h == "Pow" and k == 2:
            return [({W[0]: a, W[1]: b}, a ** b) for a, b in ((2.0, 3.0), (2.0, -1.0), (3.0, 0.5), (1.5, 2.0), (-2.0, 3.0), (0.5, -2.0), (5.0, 1.0), (5.0, 0.0), (1.0, 9.0), (0.0, 2.0), (-2.0, 2.0), (2.0, 100.0))]
        if h in ("sin", "cos") and k == 1:
            return [({W[0]: a}, getattr(math, h)(a)) for a in (0.0, 1.0, -1.0, 0.5, 2.0, 100.0, -7.0, 1e-3)]
    return []


def atom_samples(kind, a, N, v):
    values = (0, 1, -1, 5, -7, 10, 255, 1000, 2 ** 40, -2 ** 40) if a == "Integer" else ("x", "_x", "__x", "x_1", "X", "xY", "e", "I", "pi", "longer_name_of_a_symbol", "a b", "")
    if kind == "number":
        return [({v: x}, float(x)) for x in values] if a == "Integer" else []
    if kind == "sympy":
        return [({v: x}, mk("sympy", a, (const(x),))) for x in values]
    return [({v: x}, str(x)) for x in values]


def is_python(text):
    try:
        ast.parse(text.strip(), mode="eval")
    except SyntaxError:
        return False
    return True


def not_given(R, o):
    """Reached whenever no value is given for the atom."""
    facts = {mk_not(R.r.it.equal(R.values, NONE))}
    g = conj([l for l in o.gate if l[0].op not in ("inloop", "iterates")])
    cn = Canon(R.r.it, facts)
    g = cn.cond(cn(g, 1, {o.loops[0]: 0}))
    have = [t for t in subterms(g) if t.op == "contains" and t.args[1] is R.atom]
    return bool(have) and eval_under(g, {mk_not(t) for t in have}) is TRUE


def atoms(ctx, clients=("f64", "text", "latex", "sympy_"), rule="meaning-of-atoms"):
    N = Names(deep_program(ctx))
    for c in clients:
        label, kind = BACKENDS[c]
        for a in ("Integer", "Symbol", "Function"):
            if a == "Function" and kind == "number":
                continue
            R = OpRun(ctx, c, N.heads["Add"], 2, atom=a)
            what = f"{label}: {a}"
            if not R.ok:
                ctx.und(rule, what, R.at, R.why)
                continue
            facts = set()
            if kind == "number":
                have = [t for x in (R.atom_value, R.atom_gate) for t in subterms(x) if t.op == "contains" and t.args[1] is R.atom]
                facts = {mk_not(t) for t in have}
            v = eval_value(R.atom_value, facts)
            if kind == "number" and a != "Integer" and any(len(o.loops) == 1 and not_given(R, o) for o in R.r.raises):
                v = mk("noreturn", R.atom_gate)      # no value is found, as an error is raised
            if R.raises(v, R.atom_gate):
                if kind == "number" and a != "Integer":
                    ctx.ok(rule, what, R.at, "rejected when no value is given")
                else:
                    ctx.bad(rule, what, R.at, "raises an error")
                continue
            if kind in ("text", "latex"):
                def verdict(val):
                    s = text_of(val, {R.v})
                    return "ok" if s == "v" else "bad" if s is not None and "v" in s else "und"
                d = conditional(v, {R.v}, verdict)
                good, closed_ = d == "ok", d == "bad"
            elif kind == "number":
                e, closed_ = read_value(kind, N, v, {R.v})
                good = a == "Integer" and e is R.v
                closed_ = closed_ and e is not None
            else:
                ok_ = {"Integer": ("Integer", "S", "sympify"), "Symbol": ("Symbol",), "Function": ("Function",)}[a]
                sy = v.op == "app" and v.args[0].op == "ext" and v.args[0].args[0].startswith("sympy.") and v.args[1] in ((R.v,),)
                good = sy and not v.args[2] and v.args[0].args[0].split(".")[-1] in ok_
                closed_ = sy and v.args[0].args[0].split(".")[-1] in ("Integer", "Symbol", "Function", "Float", "Dummy", "Wild")
            if not good and not closed_ and (w := ground.witness(v, atom_samples(kind, a, N, R.v))):
                ctx.bad(rule, what, R.at, f"becomes {show_(v)[:200]}: {ground.shown(w)}")
            elif good:
                ctx.ok(rule, what, R.at, show_(v))
            elif closed_:
                ctx.bad(rule, what, R.at, f"becomes {show_(v)[:200]}")
            else:
                ctx.und(rule, what, R.at, show_(v)[:200])


def eval_value(v, facts):
    """A value with the conditions resolved by the facts."""
    while v.op == "phi":
        c = eval_under(v.args[0], facts)
        if c is TRUE:
            v = v.args[1]
        elif c is FALSE:
            v = v.args[2]
        else:
            break
    return v


def aliases(ctx, rule="same-operation", clients=("text", "sympy_", "f64")):
    """Other ways to reach a back-end."""
    N = Names(deep_program(ctx))
    for c, other in (("text", ("repr_", "str_")), ("sympy_", ("sympy_hook",)), ("f64", ("f64_none",))):
        if c not in clients:
            continue
        for o in other:
            for h, k in (("Add", 2), ("Mul", 3), ("Pow", 2), ("sin", 1), ("cos", 1), ("some_Function", 3)):
                a, b = OpRun(ctx, c, N.head(h), k), OpRun(ctx, o, N.head(h), k)
                what = f"{o.strip('_')}: {h}"
                if not a.ok or not b.ok:
                    ctx.und(rule, what, b.at, b.why or a.why)
                elif unversion(a.ops_value) is unversion(b.ops_value) or a.op_raises() and b.op_raises():
                    ctx.ok(rule, what, b.at, show_(b.ops_value)[:200])
                elif c == "text" and text_of(b.ops_value, b.W) is not None and not is_python(text_of(b.ops_value, b.W)):
                    ctx.bad(rule, what, b.at, f"prints {text_of(b.ops_value, b.W)}")
                else:
                    ctx.und(rule, what, b.at, f"{show_(b.ops_value)[:200]}, not {show_(a.ops_value)[:200]}")


def head_text(ctx, rule="names"):
    """The text of an atom, alone and as a head, is the text of its value."""
    prog = deep_program(ctx)
    v = mk("sym", "v", T_type("str"))
    a = mk("atom", Names(prog).types["Function"], v)
    for client, arg, what in (("as_text", mk("treeatom", a), "str(tree of an atom)"), ("atom_text", a, "str(atom)")):
        r = scenario(ctx, CLIENT, client, [arg], const_globals=True, prog=prog, **SMALL)
        at = r.returns[0].where() if r.returns else ""
        x = value_of(r)
        s = text_of(x, {v}) if not (client == "atom_text" and contains(x, lambda t: t is a)) else None
        if s == "v":
            ctx.ok(rule, what, at, show_(x))
        elif s is not None:
            ctx.bad(rule, what, at, f"is {show_(x)[:200]}")
        else:
            ctx.und(rule, what, at, show_(x)[:200])


def meaning(ctx):
    from .diffr import builtin
    operations(ctx)
    atoms(ctx)
    aliases(ctx)
    head_text(ctx)
    builtin(ctx)


# ------------------------------------------------------------------ C24: operation counts

SORT = "protosym.core.tree.topological_sort"


def counts_tree(ctx, rule="tree-count"):
    """One for each atom, one more than the sum of the operands for each operation."""
    N = Names(deep_program(ctx))
    for h, k in [(h, k) for h in ("Add", "Mul", "some_Function") for k in sizes(ctx, range(5))] + [("Pow", 2), ("sin", 1), ("cos", 1), ("List", 2)]:
        R = OpRun(ctx, "count_tree", N.head(h), k)
        what = f"{h} of {k}"
        if not R.ok:
            ctx.und(rule, what, R.at, R.why)
            continue
        if R.op_raises():
            ctx.bad(rule, what, R.at, "raises an error")
            continue
        want = mk("tree", mk("tup", (N.heads["Add"], N.integer(1), *R.W)))
        judge(ctx, rule, what, R.at, N, R.ops_value, R.W, want)
    for a in ("Integer", "Symbol", "Function"):
        R = OpRun(ctx, "count_tree", N.heads["Add"], 2, atom=a)
        if not R.ok:
            ctx.und(rule, a, R.at, R.why)
        elif R.raises(R.atom_value, R.atom_gate):
            ctx.bad(rule, a, R.at, "raises an error")
        else:
            judge(ctx, rule, a, R.at, N, R.atom_value, [R.v], N.integer(1))


def judge(ctx, rule, what, at, N, value, leaves, want):
    """A number computed from the leaves against the one that is wanted."""
    def verdict(val):
        e, exact = read_value("number", N, val, leaves)
        if e is None:
            return "und"
        if e.op == "missing":
            return "bad"
        return "ok" if norm(N, e) == norm(N, want) else "bad" if exact else "und"
    d = conditional(value, leaves, verdict)
    if inexact(value):
        d = "bad"
    if d == "und":
        names = leaves and leaves[0].args[0] == "v"
        cs = [({leaves[0]: x}, 1) for x in ("x", "_x", "", "f", 0, 1, -3, 10 ** 6)] if names else [(dict(zip(leaves, r)), 1 + sum(r)) for r in rows(len(leaves), (1, 2, 3, 5, 4, 12, 100))]
        if w := ground.witness(value, cs):
            return ctx.bad(rule, what, at, f"counts {show_(value)[:200]}: {ground.shown(w)}")
    {"ok": ctx.ok, "bad": ctx.bad, "und": ctx.und}[d](rule, what, at, f"counts {show_(value)[:200]}" + (": floating point, which rounds large counts" if inexact(value) else ""))


def inexact(t):
    """The number is computed in floating point."""
    return contains(t, lambda x: x.op == "const" and type(x.args[0]) is float or x.op == "bin" and x.args[0] == "/"
                    or x.op == "app" and x.args[0].op == "ext" and x.args[0].args[0] in ("builtins.float", "math.fsum", "math.pow", "math.floor", "math.ceil", "math.sqrt", "statistics.fmean"))


def counts_graph(ctx, rule="graph-count"):
    """The number of distinct subexpressions is the length of the topological sort."""
    prog = deep_program(ctx)
    expr = expr_term(prog, "expr")
    rep_ = expr.args[1]
    r = scenario(ctx, CLIENT, "count_graph", [expr], opaque=(FGRAPH, SORT), const_globals=True, prog=prog)
    at = r.returns[0].where() if r.returns else ""
    v = value_of(r)
    x = understood_len(r, v, prog, rep_)
    if x == "ok":
        ctx.ok(rule, "count_ops_graph()", at, show_(v))
    elif x == "bad":
        ctx.bad(rule, "count_ops_graph()", at, f"counts {show_(v)[:200]}")
    else:
        ctx.und(rule, "count_ops_graph()", at, show_(v)[:200])


def understood_len(r, v, prog, rep_):
    lf, c = lin_of(v)
    n, exact = 0, True
    for t, k in lf.items():
        if t.op == "app" and t.args[0] is ext("builtins.len") and len(t.args[1]) == 1:
            b = strip_seq(t.args[1][0])
            if texts_of_nodes(r, b):
                return "bad"
        elif t.op == "app" and t.args[0] is ext("builtins.sum") and len(t.args[1]) == 1 and not t.args[2] and t.args[1][0].op == "obj":
            s = r.it.seq(t.args[1][0])          # sum(1 for x in X)
            if s is None or len(s) != 1 or s[0][0] != "each" or len(s[0][1]) != 1 or not is_const(s[0][3], 1) \
                    or any(l[0].op not in ("inloop", "iterates") for l in s[0][2]):
                return "und"
            b = strip_seq(r.it.domain(s[0][1][0]))
        else:
            return "und"
        if b.op == "app" and b.args[0].op == "fn" and b.args[0].args[0].qual == SORT:
            a = {**dict(zip(("expr", "heads", "exclude"), b.args[1])), **dict(b.args[2])}
            if a.get("expr") is not rep_:
                return "und"
            heads, excl = a.get("heads"), a.get("exclude")
            if heads is not None and heads.op != "const" or excl is not None and excl is not NONE:
                return "und"
            if heads is not None and heads.args[0]:
                return "bad"
            n += k
        elif b.op == "attr" and b.args[0].op == "app" and b.args[0].args[0].op == "fn" and b.args[0].args[0].args[0].qual == FGRAPH and b.args[0].args[1] == (rep_,):
            other = len_(mk("attr", b.args[0], {"atoms": "operations", "operations": "atoms"}.get(b.args[1], "?")))
            if lf.get(other, 0) != k:
                return "bad" if b.args[1] in ("atoms", "operations") else "und"
            n += k if b.args[1] == "atoms" else 0
        else:
            return "und"
    return "ok" if (n, c) == (1, 0) else "bad"


def texts_of_nodes(r, b):
    """A set of texts or hashes of expressions: different expressions can have the same."""
    if b.op != "obj" or b.args[0].kind != "set":
        return False
    vs = [e.args[0] for e in r.effects if e.base is b and e.kind == "mut" and e.name == "add" and e.args]
    return bool(vs) and all(v.op == "app" and v.args[0].op == "ext" and v.args[0].args[0] in ("builtins.str", "builtins.repr", "builtins.hash") and len(v.args[1]) == 1
                            or v.op in ("fmt", "strop") for v in vs)


def counting(ctx):
    counts_tree(ctx)
    counts_graph(ctx)
    forward(ctx)


# ------------------------------------------------------------------ C25: binary expansion

class Built(Number):
    """A tree built from the leaves."""

    def __call__(self, t):
        if t in self.leaves or t.op == "treeatom":
            return t
        if t.op == "tree" and t.args[0].op == "tup":
            h, *a = self.seq(t.args[0])
            return mk("tree", mk("tup", (self(h), *[self(x) for x in a])))
        if t.op == "reduce" and t.args[0].op in ("treeatom",):
            xs = ([t.args[2]] if t.args[2] is not NONE else []) + self.seq(t.args[1])
            if not xs:
                return mk("missing", t)
            e = self(xs[0])
            for x in xs[1:]:
                e = mk("tree", mk("tup", (t.args[0], e, self(x))))
            return e
        raise Unknown(t)


def expansion(ctx, rule="binary"):
    """A sum or a product of several operands becomes nested binary ones from the left, anything else keeps its head and operands."""
    N = Names(deep_program(ctx))
    for h, k in [(h, k) for h in ("Add", "Mul") for k in sizes(ctx, range(1, 7))] + [("Pow", 2), ("sin", 1), ("cos", 1)] + \
            [(h, k) for h in ("List", "some_Function") for k in sizes(ctx, range(4))]:
        R = OpRun(ctx, "bin_expand", N.head(h), k)
        what = f"{h} of {k}"
        if not R.ok:
            (ctx.bad if R.wrong else ctx.und)(rule, what, R.at, R.wrong or R.why)
            continue
        if R.op_raises():
            ctx.bad(rule, what, R.at, "raises an error")
            continue
        H = N.head(h)
        if h in ("Add", "Mul"):
            want = R.W[0]
            for w in R.W[1:]:
                want = mk("tree", mk("tup", (H, want, w)))
        else:
            want = mk("tree", mk("tup", (H, *R.W)))

        def verdict(val):
            try:
                e = Built(N, R.W)(val)
            except Unknown:
                return "und"
            return "ok" if e is want else "bad"

        def points(lits, val):
            """The case in which some operands are given expressions."""
            sub = {}
            for c in lits:
                w = [t for t in c.args[1:] if t in R.W] if c.op == "cmp" and c.args[0] == "==" else []
                e = [t for t in c.args[1:] if t.op in ("treeatom", "tree")] if w else []
                if len(w) == 1 and len(e) == 1 and w[0] not in sub:
                    sub[w[0]] = e[0]
                elif not wide((c,), R.W) and not (c.op == "not" and c.args[0].op == "cmp" and c.args[0].args[0] == "=="):
                    return None
            e = subst(Built(N, R.W)(val), sub)
            return "sure" if e is not subst(want, sub) else "ok"
        d = conditional(R.ops_value, R.W, verdict, points)
        if d == "und":
            x, y = (mk("treeatom", mk("atom", N.types["Symbol"], const(n))) for n in "xy")
            t_ = lambda h, *a: mk("tree", mk("tup", (N.head(h), *a)))
            es = (x, y, N.integer(0), N.integer(1), N.integer(-1), N.integer(2), t_("Add", x, y), t_("Mul", x, y), t_("Pow", x, N.integer(2)), t_("sin", x), t_("Mul", N.integer(-1), x))
            if w := ground.witness(R.ops_value, [({**dict(zip(R.W, r))}, subst(want, dict(zip(R.W, r)))) for r in rows(k, es)], R.ops_gate):
                ctx.bad(rule, what, R.at, f"becomes {show_(R.ops_value)[:200]}: {ground.shown(w)}")
                continue
        {"ok": ctx.ok, "bad": ctx.bad, "und": ctx.und}[d](rule, what, R.at, f"becomes {show_(R.ops_value)[:200]}")
    for a in ("Integer", "Symbol", "Function"):
        R = OpRun(ctx, "bin_expand", N.heads["Add"], 2, atom=a)
        if not R.ok:
            ctx.und(rule, a, R.at, R.why)
        elif R.raises(R.atom_value, R.atom_gate):
            ctx.bad(rule, a, R.at, "raises an error")
        elif R.atom_value is R.atom:
            ctx.ok(rule, a, R.at, "stays the same")
        elif R.atom_value.op in ("tree", "treeatom", "const"):
            ctx.bad(rule, a, R.at, f"becomes {show_(R.atom_value)[:200]}")
        elif w := ground.witness(R.atom_value, [(env, mk("treeatom", mk("atom", N.types[a], const(env[R.v])))) for env, _ in atom_samples("text", a, N, R.v)]):
            ctx.bad(rule, a, R.at, f"becomes {show_(R.atom_value)[:200]}: {ground.shown(w)}")
        else:
            ctx.und(rule, a, R.at, show_(R.atom_value)[:200])


def expanding(ctx):
    expansion(ctx)
    forward(ctx)
