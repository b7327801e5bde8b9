"""C17: the LLVM code that is generated; C18: the functions compiled from it."""
from __future__ import annotations

import re
import struct

from .lib import *  # noqa
from .lib import SUBS_OPAQUE, deep_program, scenario
from .backends import Names, Number, Unknown, expansion, norm
from .diffr import graph_shape
from .evalr import expr_term
from .graph import FGRAPH, forward, len_, lin_of, one_call

CLIENT = '''
from protosym.simplecas import lambdify

def expression(expr, symargs):
    return expr.to_llvm_ir(symargs)

def matrix(mat, symargs):
    return mat.to_llvm_ir(symargs)

def compiled(expr, symargs):
    return lambdify(symargs, expr)

def called(expr, symargs, values):
    return lambdify(symargs, expr)(*values)

def called_twice(expr, symargs, values, more):
    f = lambdify(symargs, expr)
    return f(*values), f(*more)
'''

EVAL = "protosym.core.evaluate.Evaluator.__call__"


class Odd(Exception):
    """Something that this analysis does not know."""


def library(t):
    """A condition on the installed libraries."""
    if t.op == "not":
        return library(t.args[0])
    return t.op == "raises" and ("ImportError" in show_(t) or "ModuleNotFoundError" in show_(t))


class Parsed:
    """The text that is given to the assembler."""

    def __init__(self, e):
        self.value = e.args[0]
        self.gate = tuple(l for l in e.gate if l[0].op != "raises")
        self.where = e.where
        self.effect = e


class Code:
    """The text generated for a graph whose operations are all (head, operands at index0..k-1) and whose atoms all have one type."""

    def __init__(self, ctx, kind, head, k, atom="Symbol", via="to_llvm_ir"):
        self.ctx, self.kind, self.via = ctx, kind, via
        prog = self.prog = deep_program(ctx)
        N = self.N = Names(prog)
        self.H, self.k = head, k
        self.I, sh = graph_shape(ctx, head, k)
        self.v = mk("sym", "v", T_type("int" if atom == "Integer" else "str"))
        self.atom = mk("treeatom", mk("atom", N.types[atom], self.v))
        self.s = mk("sym", "s", None)
        self.symargs = mk("sym", "symargs", T_type("list"))
        if kind == "expression":
            arg = expr_term(prog, "expr")
            self.rep = arg.args[1]
        else:
            arg = mk("sym", "mat", T_type("inst", ns(prog, "Matrix")))
            self.rep = mk("attr", mk("attr", arg, "elements_graph"), "rep")
        self.arg = arg
        self.ij = tuple(mk("sym", n, T_type("int")) for n in ("i", "j"))
        self.n = mk("sym", "n", T_type("int"))
        self.entrymap = mk("attr", arg, "entrymap")

        def shape(t):
            t = self.base(t)
            if t is self.symargs:
                return mk("symw", ns(prog, "Expr"), self.s)
            if t.op == "attr" and t.args[1] == "atoms":
                return self.atom
            if t.op == "dictview" and t.args[1] is self.entrymap:
                return {"items": mk("tup", (mk("tup", self.ij), self.n)), "keys": mk("tup", self.ij), "values": self.n}.get(t.args[0])
            if t is self.entrymap:
                return mk("tup", self.ij)
            return sh(t)
        self.shape = shape
        self.r = scenario(ctx, CLIENT, kind if via == "to_llvm_ir" else "compiled", [arg, self.symargs], opaque=(FGRAPH, EVAL) + SUBS_OPAQUE, const_globals=True,
                          prog=prog, elem_shape=shape)
        r = self.r
        self.outs = r.returns if via == "to_llvm_ir" else [Parsed(e) for e in r.effects if e.kind == "call" and e.base is ext("llvmlite.binding.parse_assembly")]
        self.at = self.outs[0].where() if self.outs else ""

    @staticmethod
    def base(t):
        """The sequence that a slice, a sorted or a copied one is made of."""
        while True:
            if t.op == "slice":
                t = t.args[0]
            elif t.op == "app" and t.args[0].op == "ext" and t.args[0].args[0] in ("builtins.sorted", "builtins.list", "builtins.tuple", "builtins.reversed") and len(t.args[1]) == 1:
                t = t.args[1][0]
            elif t.op == "tup" and len(t.args[0]) == 1 and t.args[0][0].op == "star":
                t = t.args[0][0].args[0]
            else:
                return t

    # -------------------------------------------------------------- the graph

    def graph(self):
        """The forward graph and whether sums and products in it are binary."""
        G = one_call(self.ctx, self.r, FGRAPH)
        if G is None:
            raise Odd("does not use forward_graph exactly once")
        a = G.args[1]
        if len(a) != 1:
            raise Odd(f"forward_graph of {show_(a)}")
        a = a[0]
        if a is self.rep:
            self.binary = False
        elif a.op == "app" and a.args[0].op == "fn" and a.args[0].args[0].qual == EVAL and len(a.args[1]) == 2 and a.args[1][1] is self.rep \
                and a.args[1][0] is self.prog.modules["protosym.simplecas.expr"].ns.get("bin_expand"):
            self.binary = True
        else:
            raise Odd(f"graph of {show_(a)[:200]}")
        self.G = G
        return G

    # -------------------------------------------------------------- numbers

    def count(self, t, loops):
        """len(list) in an iteration of the loops: linear form in numbers of iterations, or None."""
        o = t.args[1][0]
        v = t.args[3][1] if len(t.args) > 3 and isinstance(t.args[3], tuple) and t.args[3][:1] == ("v",) else t.args[4][1] if len(t.args) > 4 else 0
        if isinstance(v, T):
            return None
        if o.op != "obj" or o.args[0].kind != "list":
            return None
        base, c = {}, 0
        for x in o.args[0].init:
            if x.op == "star":
                base[self.length(x.args[0])] = base.get(self.length(x.args[0]), 0) + 1
            else:
                c += 1
        for q in self.r.effects:
            if q.base is not o or q.kind != "mut":
                continue
            if q.name not in ("append", "extend"):
                return None
            if q.name == "extend":
                ks = self.r.it.seq(q.args[0])
                if ks is None or not all(x[0] == "item" and not [l for l in x[2] if l[0].op not in ADMIN] for x in ks):
                    return None
                m = len(ks)
            else:
                m = 1
            if [l for l in q.gate if l[0].op not in ADMIN and not self.argument_guard(l[0])]:
                if q.pos < v or any(L in loops for L in q.loops):
                    g = eval_under(self.own_gate(q), self.in_iteration(q.loops))
                    if g is FALSE:
                        continue
                    if g is not TRUE and not self.one_of_cases(o, q):
                        return None
                    if g is not TRUE and not self.first_of_cases(o, q):
                        continue
            if not q.loops:
                c += m if q.pos < v else 0
                continue
            if len(q.loops) != 1:
                return None
            L = q.loops[0]
            if L in loops:
                base[mk("idxvar", L)] = base.get(mk("idxvar", L), 0) + m
                c += m if q.pos < v else 0
            elif q.pos < v:
                d = self.length(self.r.it.domain(L))
                base[d] = base.get(d, 0) + m
        return base, c

    def one_of_cases(self, o, q):
        """Whether the appends in the loop of q are the branches of one choice."""
        same = [e for e in self.r.effects if e.base is o and e.kind == "mut" and e.loops == q.loops]
        return len(same) > 1 and eval_under(mk_or([self.own_gate(e) for e in same]), self.in_iteration(q.loops)) is TRUE

    def first_of_cases(self, o, q):
        return [e for e in self.r.effects if e.base is o and e.kind == "mut" and e.loops == q.loops][0] is q

    def own_gate(self, e):
        return conj([l for l in e.gate if l[0].op not in ADMIN and not self.argument_guard(l[0])])

    def returned(self):
        """What holds when the text is returned."""
        out = set()
        for o in self.outs[:1]:
            for t, pos in lits_of_gate(o.gate):
                out.add(t if pos else mk_not(t))
        return out

    def in_iteration(self, loops):
        """What holds in a complete iteration of the loops when the text is returned."""
        ins = {mk("inloop", L) for L in loops}
        out = set()
        for o in self.outs[:1]:
            for t, pos in lits_of_gate(o.gate):
                g = eval_under(t if pos else mk_not(t), ins)
                for t2, p2 in lits_of_gate(((g, True),)):
                    out.add(t2 if p2 else mk_not(t2))
        return out | ins

    def argument_guard(self, t):
        """A condition on the arguments as a whole, or on the installed libraries."""
        if library(t):
            return True
        if t.op == "not":
            return self.argument_guard(t.args[0])
        return not contains(t, lambda z: z is self.atom or z in self.I or z is self.H) and contains(t, lambda z: z is self.symargs)

    def length(self, t):
        """len() of what a loop runs over."""
        if t.op == "slice" and t.args[1] is NONE and t.args[3] is NONE and is_const(t.args[2], -1):
            return mk("lin", ((self.length(t.args[0]), 1),), -1)
        b = self.base(t)
        if b.op == "dictview":
            b = b.args[1]
        return len_(b)

    def number(self, t, loops):
        """Linear form of an integer term."""
        a, c = lin_of(t)
        out = {}

        def add(k, n):
            nonlocal c
            if k.op == "lin":
                c += n * k.args[1]
                for k2, n2 in k.args[0]:
                    add(k2, n * n2)
            else:
                out[k] = out.get(k, 0) + n
        for k, n in a.items():
            if k.op == "app" and k.args[0] is ext("builtins.len") and len(k.args[1]) == 1:
                x = self.count(k, loops) if k.args[1][0].op == "obj" else None
                if x is not None:
                    for k2, n2 in x[0].items():
                        add(k2, n * n2)
                    c += n * x[1]
                    continue
                add(self.length(k.args[1][0]) if k.args[1][0].op != "obj" else k, n)
            else:
                add(k, n)
        return frozenset((k, n) for k, n in out.items() if n), c

    # -------------------------------------------------------------- text

    def pieces(self, t, loops=()):
        """A text as strings, ('num', linear form), ('name', key), ('val', term) and ('join', sep, entries)."""
        if t.op == "const":
            return [t.args[0]] if isinstance(t.args[0], str) else [str(t.args[0])] if type(t.args[0]) is int else [("val", t)]
        if t.op == "fmt":
            out = []
            for p in t.args[0]:
                if p[0] == "lit":
                    out.append(p[1])
                elif p[0] == "s" and len(p) == 2:
                    out += self.pieces(p[1], loops)
                elif p[0] == "r" and type_name(p[1]) == "int":
                    out += self.pieces(p[1], loops)
                else:
                    out.append(("val", mk("fmt", (p,))))
            return out
        if t.op == "bin" and t.args[0] == "+" and (is_text(t.args[1]) or is_text(t.args[2])):
            return self.pieces(t.args[1], loops) + self.pieces(t.args[2], loops)
        if t.op == "join":
            sep = t.args[0] if isinstance(t.args[0], str) else t.args[0].args[0] if t.args[0].op == "const" else None
            if sep is None:
                return [("val", t)]
            return [("join", sep, self.entries(t.args[1], loops))]
        if t.op in ("app", "lin", "idxvar", "bin") and self.is_number(t):
            return [("num", self.number(t, loops))]
        if t.op == "idx" and t.args[0].op == "obj" and t.args[0].args[0].kind == "dict":
            return [("name", t.args[1], t.args[0])]
        return [("val", t)]

    def is_number(self, t):
        if t.op in ("lin", "idxvar"):
            return True
        if t.op == "app":
            return t.args[0] is ext("builtins.len")
        return t.op == "bin" and t.args[0] in ("+", "-") and all(self.is_number(x) or x.op == "const" and type(x.args[0]) is int for x in t.args[1:])

    def entries(self, t, loops=()):
        s = self.r.it.seq(t)
        if s is None:
            if t.op == "app" and t.args[0].op == "ext" and t.args[0].args[0] in REARRANGED and len(t.args[1]) == 1 and self.r.it.seq(t.args[1][0]) is not None:
                raise Wrong(f"what is written is rearranged by {t.args[0].args[0].split('.')[-1]}()")
            raise Odd(f"text from {show_(t)[:200]}")
        out = []
        know = self.returned()
        for x in s:
            g = eval_under(conj([l for l in (x[2]) if l[0].op not in ADMIN and not self.argument_guard(l[0])]), know)
            if g is FALSE:
                continue
            if x[0] == "item":
                if g is not TRUE:
                    raise Odd(f"a line written only when {show_(g)[:200]}")
                out.append(("item", self.pieces(x[1], loops)))
            elif x[0] == "star":
                y = x[1]
                if y.op == "app" and y.args[0] in (ext("builtins.sorted"), ext("builtins.reversed")) and y.args[1][0].op == "obj" and self.r.it.seq(y.args[1][0]) is not None:
                    raise Wrong(f"the lines are put in another order: {show_(y)[:100]}")
                raise Odd(f"lines from {show_(x[1])[:200]}")
            else:
                if len(x[1]) != 1:
                    raise Odd("nested loops")
                out.append(("rep", x[1][0], g, self.pieces(x[3], loops + (x[1][0],))))
        return out

    def lines(self, t):
        """[('line', pieces) | ('loop', L, [(gate, pieces)])]"""
        out, cur = [], []

        def newline():
            nonlocal cur
            if cur is not None:
                out.append(("line", cur))
            cur = []

        def feed(ps):
            nonlocal cur
            for p in ps:
                if isinstance(p, str):
                    parts = p.split("\n")
                    for i, x in enumerate(parts):
                        if i:
                            newline()
                        if x:
                            if cur is None:
                                raise Odd("text after a loop in the same line")
                            cur.append(x)
                elif p[0] == "join" and "\n" in p[1]:
                    if p[1] != "\n":
                        raise Odd("lines joined with " + repr(p[1]))
                    for i, e in enumerate(p[2]):
                        if i:
                            newline()
                        if e[0] == "item":
                            feed(e[1])
                        else:
                            if cur:
                                raise Odd("a loop in the middle of a line")
                            cur = None
                            body = self.split_body(e[3])
                            if out and out[-1][0] == "loop" and out[-1][1] is e[1]:
                                out[-1][2].extend((e[2], b) for b in body)
                            else:
                                out.append(("loop", e[1], [(e[2], b) for b in body]))
                elif p[0] == "join" and any(e[0] == "rep" and any(isinstance(q, str) and "\n" in q for q in e[3]) for e in p[2]):
                    # lines that end with their newline
                    if p[1]:
                        raise Odd("lines joined with " + repr(p[1]))
                    for e in p[2]:
                        if e[0] == "item":
                            feed(e[1])
                            continue
                        if cur:
                            raise Odd("a loop in the middle of a line")
                        body = self.split_body(e[3])
                        if body and not body[-1]:
                            body = body[:-1]
                            out.append(("loop", e[1], [(e[2], b) for b in body]))
                        else:
                            raise Odd("a loop over parts of lines")
                else:
                    if cur is None:
                        raise Odd("text after a loop in the same line")
                    cur.append(p)
        feed(self.pieces(t))
        newline()
        return out

    def split_body(self, ps):
        out = [[]]
        for p in ps:
            if isinstance(p, str):
                parts = p.split("\n")
                for i, x in enumerate(parts):
                    if i:
                        out.append([])
                    if x:
                        out[-1].append(x)
            else:
                out[-1].append(p)
        return out


def type_name(t):
    from .backends import type_name as f
    return f(t)


def is_text(t):
    return t.op in ("fmt", "join") or t.op == "const" and isinstance(t.args[0], str)


def lits_of_gate(gate):
    """Literals that a gate implies."""
    out = []

    def go(t, pos):
        if t.op == "not":
            return go(t.args[0], not pos)
        if t.op == "and" and pos or t.op == "or" and not pos:
            for x in t.args[0]:
                go(x, pos)
            return None
        out.append((t, pos))
        return None
    for t, pos in gate:
        go(t, pos)
    return out


# ------------------------------------------------------------------ reading one line

class Token:
    """The text of a line with its holes as single characters."""

    def __init__(self, ps):
        self.holes = []
        out = ""
        for p in ps:
            if isinstance(p, str):
                out += p
            else:
                out += chr(0xE000 + len(self.holes))
                self.holes.append(p)
        self.text = re.sub(r"[ \t]+", " ", out).strip()
        self.text = re.sub(r"\s*;.*$", "", self.text) if self.text.startswith(";") else self.text

    def value(self, x):
        """An operand: a piece, or a text with pieces."""
        if len(x) == 1 and ord(x) >= 0xE000:
            return self.holes[ord(x) - 0xE000]
        return ("text", tuple(self.holes[ord(c) - 0xE000] if ord(c) >= 0xE000 else c for c in x))


OPND = r"([^\s,()]+|%\"[^\"]*\")"
OPER = re.compile(rf"^{OPND} = (fadd|fmul|fsub|fdiv|frem)((?: [a-z]+)*) double ([^()]*)$")
CALL = re.compile(rf"^{OPND} = (?:tail |notail )?call((?: [a-z]+)*) double @([\w.$]+)\((.*)\)$")
RET = re.compile(rf"^ret double {OPND}$")
GEP = re.compile(rf"^{OPND} = getelementptr( inbounds)? double, (?:double\*|ptr) (\S+), i(?:32|64) (.+)$")
STORE = re.compile(rf"^store double {OPND}, (?:double\*|ptr) (\S+?)(?:, align \d+)?$")
DECLARE = re.compile(r"^declare double @([\w.]+)\(([^()]*)\)(?: [#\w ]*)?$")


def operands(text, tok, typed):
    out = []
    for x in [y.strip() for y in text.split(",")] if text.strip() else []:
        if typed:
            m = re.match(r"^double (\S+)$", x)
            if not m:
                return None
            x = m.group(1)
        if not x or " " in x:
            return None
        out.append(tok.value(x))
    return out


INTRINSIC = {"llvm.pow.f64": ("Pow", 2), "llvm.sin.f64": ("sin", 1), "llvm.cos.f64": ("cos", 1), "pow": ("Pow", 2), "sin": ("sin", 1), "cos": ("cos", 1)}


class Reader:
    """The meaning of the generated text."""

    def __init__(self, code):
        self.c = code
        self.G = code.graph()
        if len(code.outs) != 1:
            raise Odd("returns in several places")
        self.out = code.outs[0]
        self.lines = code.lines(self.out.value if self.out.value.op != "symw" else self.out.value.args[1])
        self.loops = {}
        ops, entries = [], []
        for x in self.lines:
            if x[0] == "loop":
                d = code.r.it.domain(x[1])
                b = code.base(d)
                if b is mk("attr", self.G, "operations"):
                    ops.append((x, d))
                elif b is code.entrymap or b.op == "dictview" and b.args[1] is code.entrymap:
                    entries.append((x, d))
                else:
                    raise Odd(f"lines for each of {show_(d)[:200]}")
        self.ops, self.entries = ops, entries
        self.out_name = ""
        for x in self.lines:
            if x[0] != "line":
                continue
            tok = Token(x[1])
            texts = [tok.text.split("(", 1)[-1]] + [Token(e[1]).text for h in tok.holes if h[0] == "join" for e in h[2] if e[0] == "item"]
            for t in texts if tok.text.startswith("define ") else ():
                m = re.match(r'(?:double\*|ptr) (%"?[\w.$]+"?)(?![\w.$"])', t)
                if m:
                    self.out_name = m.group(1)

    # one line of an operation: (identifier, meaning, operands)

    def operation(self, ps):
        tok = Token(ps)
        m = OPER.match(tok.text)
        if m:
            flags(m.group(3))
            args = operands(m.group(4), tok, False)
            return tok.value(m.group(1)), m.group(2), args, tok
        m = CALL.match(tok.text)
        if m:
            flags(m.group(2))
            args = operands(m.group(4), tok, True)
            return tok.value(m.group(1)), m.group(3), args, tok
        return None, None, None, tok

    def show(self, tok):
        def p(h):
            if h[0] == "num":
                return "{" + " + ".join([f"{n}*{show(k, 4)}" if n != 1 else show(k, 4) for k, n in h[1][0]] + ([str(h[1][1])] if h[1][1] or not h[1][0] else [])) + "}"
            if h[0] == "name":
                return "{name of " + show(h[1], 4) + "}"
            if h[0] == "join":
                return "{...}"
            return "{" + show(h[1], 4)[:60] + "}"
        return "".join(p(tok.holes[ord(c) - 0xE000]) if ord(c) >= 0xE000 else c for c in tok.text)[:200]


def flags(text):
    """What is written between the operation and its type."""
    for f in (text or "").split():
        if f in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
            raise Wrong(f"the flag {f} lets the compiler compute another value")
        raise Odd(f"flags {text}")


def same_piece(a, b):
    return a == b


# ------------------------------------------------------------------ the rules

SUPPORTED = {"Add": "fadd", "Mul": "fmul"}


def cases(ctx, binary):
    yield from (("Add", 2), ("Mul", 2), ("Pow", 2), ("sin", 1), ("cos", 1))
    if not binary:
        yield from ((h, k) for h in ("Add", "Mul") for k in sizes(ctx, (1, 3, 4)))
    yield from (("Pow", 1), ("Pow", 3), ("sin", 0), ("sin", 2), ("cos", 0), ("cos", 2), ("List", 1), ("List", 2))
    yield from (("some_Function", k) for k in sizes(ctx, range(4)))


def generated(ctx, kinds=("expression", "matrix"), need_support=True, via="to_llvm_ir"):
    for kind in kinds:
        names = Names(deep_program(ctx))
        try:
            c = Code(ctx, kind, names.head("Add"), 2, via=via)
            c.graph()
            binary = c.binary
        except (Odd, Wrong) as e:
            ctx.und("graph", kind, "", str(e))
            continue
        ctx.ok("graph", f"{kind} to LLVM", c.at, f"{show_(c.G)[:200]}")
        for h, k in cases(ctx, binary):
            operation(ctx, kind, names, h, k, need_support, via=via)
        for a in ("Integer", "Symbol", "Function"):
            atom_case(ctx, kind, names, a, via=via)
        frame(ctx, kind, names, via=via)
        if kind == "matrix":
            placing(ctx, names, via=via)


def ops_loop(R):
    """The loop over the operations: (L, lines)."""
    if len(R.ops) > 1:
        raise Odd("several loops over the operations")
    if not R.ops:
        return None, []
    (_, L, body), d = R.ops[0]
    want = mk("attr", R.G, "operations")
    if R.c.kind == "matrix":
        if not (d.op == "slice" and d.args[0] is want and d.args[1] is NONE and is_const(d.args[2], -1) and d.args[3] is NONE):
            raise Wrong(f"the code is written for {show_(d)[-60:]}, which is not all operations but the last") if closed_slice(d, want) else Odd(f"operations {show_(d)[:200]}")
    elif d is not want:
        raise Wrong(f"the code is written for {show_(d)[-60:]}, which is not every operation") if closed_slice(d, want) else Odd(f"operations {show_(d)[:200]}")
    return L, body


class Wrong(Exception):
    """A definite difference."""


def closed_slice(d, want):
    return d is want or d.op == "slice" and d.args[0] is want and all(x is NONE or x.op == "const" for x in d.args[1:]) \
        or d.op == "app" and d.args[0].op == "ext" and d.args[0].args[0] in ("builtins.reversed", "builtins.sorted") and len(d.args[1]) == 1 and closed_slice(d.args[1][0], want)


def operation(ctx, kind, names, h, k, need_support, via="to_llvm_ir"):
    rule, what = "operation", f"{kind}: {h} of {k}"
    c = Code(ctx, kind, names.head(h), k, via=via)
    good = (h, k) in (("Add", 2), ("Mul", 2), ("Pow", 2), ("sin", 1), ("cos", 1))
    if h in ("Add", "Mul") and k != 2:
        good = True     # several operands of a sum that was not expanded
    try:
        if not c.outs:
            raises = True
        else:
            c.graph()
            R = Reader(c)
            L, body = ops_loop(R)
            # where the code of a line is left to a function that raises
            raises = L is None or bool(raised_for(c)) and any(ps for g, ps in body) and all(any(q[0] == "val" and q[1].op == "noreturn" for q in ps) for g, ps in body if ps)
        if raises:
            rs = raised_for(c)
            if not rs:
                ctx.bad(rule, what, c.at, "no code is written for the operation and no error is raised")
            elif good:
                (ctx.bad if need_support else ctx.ok)(rule, what, rs[0].where(), "rejected with an error")
            else:
                wrong = [o for o in rs if error_name(c, o) not in ("LLVMNotImplementedError",)]
                if wrong:
                    ctx.bad(rule, what, wrong[0].where(), f"raises {error_name(c, wrong[0])} instead of LLVMNotImplementedError")
                else:
                    ctx.ok(rule, what, rs[0].where(), "rejected with LLVMNotImplementedError")
            return
        lines = [(g, ps) for g, ps in body if ps]
        if len(lines) != 1:
            ctx.und(rule, what, c.at, f"{len(lines)} lines for one operation")
            return
        g, ps = lines[0]
        if g is not TRUE:
            ctx.und(rule, what, c.at, f"written when {show_(g)[:200]}")
            return
        ps, cases_ = R.c, ps
        ident, op, args, tok = R.operation(cases_)
        text = R.show(tok)
        if op is None:
            malformed(ctx, rule, what, c.at, tok, text)
            return
        if args is None:
            malformed(ctx, rule, what, c.at, tok, text)
            return
        ids = identifiers(R, L, ident)
        got = []
        for a in args:
            got.append(operand(R, a, ids, L))
        if any(x is None for x in got):
            ctx.und(rule, what, c.at, text)
            return
        got = [x for x in got]
        want = list(range(k))
        if h in ("Add", "Mul") and k == 2:
            right = op == SUPPORTED[h] and sorted(got, key=str) == want
        elif h in ("Add", "Mul"):
            right = False
        else:
            right = INTRINSIC.get(op) == (h, k) and got == want
        if not right and op not in INTRINSIC and op not in ("fadd", "fmul", "fsub", "fdiv", "frem"):
            ctx.und(rule, what, c.at, text)
        elif right:
            ctx.ok(rule, what, c.at, text)
            declared(ctx, R, what, op, len(args))
        else:
            ctx.bad(rule, what, c.at, f"the code is {text} with the operands {got}")
    except Odd as e:
        ctx.und(rule, what, c.at, str(e))
    except Wrong as e:
        ctx.bad(rule, what, c.at, str(e))


def malformed(ctx, rule, what, at, tok, text):
    """A line that is no instruction."""
    if all(h[0] in ("num", "name") or h[0] == "val" and h[1].op == "idx" for h in tok.holes) and re.match(r"^\S+ = (fadd|fmul|call|fsub|fdiv)\b", tok.text):
        ctx.bad(rule, what, at, f"the line is not well formed: {text}")
    else:
        ctx.und(rule, what, at, f"line {text}")


def error_name(c, o):
    """Name of the error that is raised (LLVMNotImplementedError for its subclasses too)."""
    k = raised_class(c.prog, o.value)
    ns_ = exc_names(k)
    if "LLVMNotImplementedError" in ns_:
        return "LLVMNotImplementedError"
    return show_(k) if k is not None else show_(o.value)


def raised_for(c):
    """The errors raised in the loop over the operations, whatever the arguments and atoms are."""
    out = []
    for o in c.r.raises:
        ls = [t for t, pos in lits_of_gate(o.gate) if t.op == "inloop" and pos]
        if any(c.base(c.r.it.domain(t.args[0])) is mk("attr", getattr(c, "G", None) or c.graph(), "operations") for t in ls):
            rest = [t for t, pos in lits_of_gate(o.gate) if t.op not in ADMIN and not c.argument_guard(t) and not contains(t, lambda z: z is c.atom)]
            if not rest:
                out.append(o)
    return out


def identifiers(R, L, ident):
    """The list of the identifiers of the values: (list term, text of an operation's identifier)."""
    c = R.c
    if not (isinstance(ident, tuple) and ident[0] == "text"):
        raise Odd("the identifier of an operation is not a text of its own")
    m = [p for p in ident[1]]
    text = "".join(p if isinstance(p, str) else "#" for p in m)
    nums = [p for p in m if not isinstance(p, str)]
    if len(nums) == 1 and nums[0][0] == "val" and nums[0][1].op == "bin" and nums[0][1].args[0] in ("%", "//", "&") and c.is_number(nums[0][1].args[1]) \
            and nums[0][1].args[2].op == "const":
        raise Wrong(f"the identifier {text.replace('#', '{' + show_(nums[0][1]) + '}')} repeats")
    if len(nums) != 1 or nums[0][0] != "num" or not re.match(r'^%(".[^"]*"|[\w.$#]+)$', text):
        raise Odd(f"identifier {text}")
    lf, k0 = nums[0][1]
    lf = dict(lf)
    step = lf.get(mk("idxvar", L), 0)
    if step == 0:
        raise Wrong(f"the identifier {text.replace('#', '{' + R.show_num(nums[0][1]) + '}')} is the same for every operation")
    if step < 0:
        raise Odd("identifiers count down")
    R.ident = ident
    R.number = (lf, k0, step)
    R.prefix = text.split("#")[0]
    return ident


def operand(R, a, ids, L):
    """Which operand of the operation an operand of an instruction is (None: not understood)."""
    c = R.c
    if a[0] != "val" or a[1].op != "idx":
        if a[0] == "val" and a[1].op == "const" or a[0] == "text" and all(isinstance(x, str) for x in a[1]):
            return f"constant {a[1]}"
        return None
    lst, i = a[1].args[:2]
    table(R, lst, L)
    if i in c.I:
        return c.I.index(i)
    if i.op == "const":
        return f"value {i.args[0]}"
    return None


def table(R, lst, L):
    """The list of identifiers holds one for each atom and one for each operation, in the order of the graph."""
    c = R.c
    if lst in getattr(R, "tables", {}):
        return
    if lst.op != "obj" or lst.args[0].kind != "list":
        raise Odd(f"identifiers in {show_(lst)[:100]}")
    s = c.r.it.seq(lst)
    if s is None:
        for e in c.r.effects:
            if e.kind == "mut" and e.base is lst and e.loops and (e.name == "insert" and e.args[0].op == "const" or e.name in ("sort", "reverse", "pop", "clear")):
                raise Wrong(f"{e.name} changes the positions in the list of identifiers")
        raise Odd("identifiers in a list that is not understood")
    atoms, ops = [], []
    for x in s:
        if x[0] == "item":
            raise Wrong(f"the list of identifiers begins with {show_(x[1])[:80]}, so the positions are shifted")
        if x[0] == "star":
            raise Odd("identifiers copied from elsewhere")
        if len(x[1]) != 1:
            raise Odd("identifiers from nested loops")
        d = c.r.it.domain(x[1][0])
        if d is mk("attr", R.G, "atoms"):
            if ops:
                raise Wrong("the identifiers of atoms come after those of operations")
            atoms.append(x)
        elif x[1][0] is L:
            ops.append(x)
        elif c.base(d) is mk("attr", R.G, "operations"):
            raise Odd("identifiers from another loop over the operations")
        else:
            raise Odd(f"identifiers for {show_(d)[:100]}")
    if not atoms:
        raise Odd("no identifiers for the atoms")
    live = [x for x in ops if eval_under(conj([l for l in x[2] if l[0].op not in ADMIN and not c.argument_guard(l[0])]), c.returned()) is not FALSE]
    if not live:
        raise Wrong("the identifier of an operation is not recorded")
    if len(live) != 1:
        raise Odd(f"{len(live)} identifiers for an operation")
    ps = c.pieces(live[0][3], (L,))
    t = ("text", tuple(split_chars(ps)))
    if t != normal_text(R.ident):
        raise Wrong(f"the identifier that is recorded for an operation is not the one that is defined: {text_show(R, t)} and {text_show(R, normal_text(R.ident))}")
    R.tables = {**getattr(R, "tables", {}), lst: atoms}


def split_chars(ps):
    out = []
    for p in ps:
        if isinstance(p, str):
            out.extend(p)
        else:
            out.append(p)
    return out


def normal_text(ident):
    return ("text", tuple(split_chars(ident[1])))


def text_show(R, t):
    return "".join(p if isinstance(p, str) else "{" + R.show_num(p[1]) + "}" if p[0] == "num" else "{...}" for p in t[1])


def show_num(self, lf):
    return " + ".join([(f"{n}*" if n != 1 else "") + show(k, 4) for k, n in sorted(lf[0], key=str)] + ([str(lf[1])] if lf[1] or not lf[0] else []))


Reader.show_num = show_num


def declared(ctx, R, what, op, n):
    """An intrinsic that is called is declared with that many parameters."""
    if op in ("fadd", "fmul"):
        return
    for x in R.lines:
        if x[0] != "line":
            continue
        tok = Token(x[1])
        m = DECLARE.match(tok.text)
        if m and m.group(1) == op:
            ps = [p.strip() for p in m.group(2).split(",")]
            if len(ps) == n and all(re.match(r"^double( %[\w.]+)?$", p) for p in ps) and len({p for p in ps if "%" in p}) == len([p for p in ps if "%" in p]):
                ctx.ok("declaration", f"{what}: @{op}", R.c.at, tok.text)
            else:
                ctx.bad("declaration", f"{what}: @{op}", R.c.at, f"is called with {n} operands and declared as {tok.text}")
            return
    if any(x[0] == "line" and x[1] and not isinstance(x[1][0], str) for x in R.lines):
        ctx.und("declaration", f"{what}: @{op}", R.c.at, "no declaration found")
    else:
        ctx.bad("declaration", f"{what}: @{op}", R.c.at, "is called but not declared")


# ------------------------------------------------------------------ atoms

def held_in(c, t):
    """Whether the condition is that the atom is one of the arguments."""
    if t.op != "contains":
        return False
    x, a = t.args[:2]
    if a is not c.atom:
        x, a = a, x
    return a is c.atom and is_args(c, x)


def is_args(c, x):
    """The arguments (their trees), or a table with just them as keys."""
    if x.op == "obj" and x.args[0].kind == "dict":
        return names_of(c, x) is not None
    s = c.r.it.seq(x) if x.op in ("obj", "tup") else None
    if s is None and x.op == "setof":
        s = c.r.it.seq(mk("tup", x.args[0]))
    if s is None:
        return False
    return len(s) == 1 and (s[0][0] == "each" and len(s[0][1]) == 1 and c.r.it.domain(s[0][1][0]) is c.symargs and s[0][3] is c.s
                            and not [l for l in s[0][2] if l[0].op not in ADMIN and not library(l[0])] or s[0][0] == "star" and is_args(c, s[0][1]))


def names_of(c, D):
    """The text that a table has for an argument: the value of its only kind of entry, one for each argument."""
    ws = [e for e in c.r.effects if e.kind == "mut" and e.base is D]
    if D.args[0].init or len(ws) != 1:
        return None
    e = ws[0]
    if e.name != "__setitem__" or len(e.loops) != 1 or c.r.it.domain(e.loops[0]) is not c.symargs or e.args[0] is not c.s:
        return None
    if [l for l in e.gate if l[0].op not in ADMIN and not library(l[0])]:
        return None
    return e.args[1]


def atom_case(ctx, kind, names, a, via="to_llvm_ir"):
    rule, what = "atom", f"{kind}: {a}"
    c = Code(ctx, kind, names.head("Add"), 2, atom=a, via=via)
    try:
        c.graph()
        R = Reader(c)
        L, body = ops_loop(R)
        ident, op, args, tok = R.operation([ps for g, ps in body if ps][0])
        if ident is None or not args:
            raise Odd(f"line {R.show(tok)}")
        identifiers(R, L, ident)
        lst = next((x[1].args[0] for x in args if x[0] == "val" and x[1].op == "idx"), None)
        if lst is None:
            raise Odd("operands are not taken from a list")
        table(R, lst, L)
        segs = R.tables[lst]
        conds = {t for x in segs for t in phi_conditions(x[3]) if held_in(c, t)} | {t for x in segs for l in x[2] for t in literals(l[0]) if held_in(c, t)} | {t for o in c.r.raises + c.outs for l in o.gate for t in literals(l[0]) if held_in(c, t)}
        if len(conds) > 1:
            raise Odd("several tests whether an atom is an argument")
        for given in (True, False):
            facts = {t if given else mk_not(t) for t in conds}
            w2 = f"{what} that is {'an' if given else 'no'} argument"
            if not conds and given:
                continue
            live = []
            for x in segs:
                g = eval_under(conj([l for l in x[2] if l[0].op not in ADMIN and not c.argument_guard(l[0])]), facts)
                if g is FALSE:
                    continue
                if g is not TRUE:
                    raise Odd(f"an identifier recorded when {show_(g)[:200]}")
                live.append(x)
            errs = []
            for o in c.r.raises:
                ls = lits_of_gate(o.gate)
                if any(t.op == "inloop" and pos and c.r.it.domain(t.args[0]) is mk("attr", R.G, "atoms") for t, pos in ls):
                    g = eval_under(conj([(t, pos) for t, pos in ls if t.op not in ADMIN and not (c.argument_guard(t) and not held_in(c, t))]), facts)
                    if g is TRUE:
                        errs.append(o)
            excluded = eval_under(conj([(t, p) for o in c.outs for t, p in o.gate if not c.argument_guard(t) or contains(t, lambda z: z is c.atom)]),
                                  facts | {mk("inloop", x[1][0]) for x in segs})
            if errs or excluded is FALSE:
                if a != "Integer" and not given:
                    k = {error_name(c, o) for o in errs}
                    if k - {"LLVMNotImplementedError"}:
                        ctx.bad(rule, w2, errs[0].where(), f"raises {sorted(map(str, k))}")
                    else:
                        ctx.ok(rule, w2, errs[0].where() if errs else c.at, "rejected with LLVMNotImplementedError")
                else:
                    ctx.bad(rule, w2, errs[0].where() if errs else c.at, "is rejected")
                continue
            if len(live) != 1:
                (ctx.bad if not live else ctx.und)(rule, w2, c.at, f"{len(live)} identifiers are recorded")
                continue
            v = phi_under(live[0][3], facts)
            arg = v.op == "idx" and v.args[0].op == "obj" and v.args[0].args[0].kind == "dict" and names_of(c, v.args[0]) is not None and v.args[1] is c.atom
            bits = bits_of(c, v)
            if arg:
                (ctx.ok if given else ctx.bad)(rule, w2, c.at, "the name of the argument")
            elif a == "Integer" and bits == "ok":
                ctx.ok(rule, w2, c.at, show_(v))
            elif bits in ("ok", "bad") or v.op == "const":
                ctx.bad(rule, w2, c.at, f"becomes {show_(v)[:200]}")
            else:
                ctx.und(rule, w2, c.at, show_(v)[:200])
    except Odd as e:
        ctx.und(rule, what, c.at, str(e))
    except Wrong as e:
        ctx.bad(rule, what, c.at, str(e))


def literals(t):
    if t.op in ("not",):
        yield from literals(t.args[0])
    elif t.op in ("and", "or"):
        for x in t.args[0]:
            yield from literals(x)
    else:
        yield t


def phi_conditions(v):
    if v.op == "phi":
        yield from literals(v.args[0])
        yield from phi_conditions(v.args[1])
        yield from phi_conditions(v.args[2])


def phi_under(v, facts):
    while v.op == "phi":
        g = eval_under(v.args[0], facts)
        if g is TRUE:
            v = v.args[1]
        elif g is FALSE:
            v = v.args[2]
        else:
            break
    return v


REARRANGED = ("builtins.sorted", "builtins.set", "builtins.frozenset", "builtins.dict.fromkeys")


def bits_of(c, v):
    """'ok' for the hexadecimal bits of the double value of the integer, 'bad' for another text made of it, else None."""
    if not contains(v, lambda z: z is c.v):
        return None
    if v.op == "phi":
        cases = {bits_of(c, x) for x in v.args[1:]}
        return cases.pop() if len(cases) == 1 else "bad" if "bad" in cases and closed(v.args[0], (c.v,)) else None
    if v.op == "app" and v.args[0] is ext("builtins.hex") and len(v.args[1]) == 1:
        return word_of(c, v.args[1][0])
    if v.op == "fmt":
        ps = v.args[0]
        if len(ps) == 2 and ps[0] == ("lit", "0x") and re.match(r"^fmt:(016)?[xX]$", str(ps[1][0])):
            return word_of(c, ps[1][1])
        if len(ps) == 2 and ps[0] == ("lit", "0x") and str(ps[1][0]) in ("str", "fmt:", "s", "fmt") and ps[1][1].op == "app" and ps[1][1].args[0].op == "attr" and ps[1][1].args[0].args[1] == "hex":
            b = ps[1][1].args[0].args[0]
            if b.op == "app" and b.args[0] is ext("struct.pack") and not ps[1][1].args[1] and len(b.args[1]) == 2 and b.args[1][0].op == "const" and float_of(c, b.args[1][1]):
                return "ok" if b.args[1][0].args[0] in (">d", "!d") else "bad"
        if len(ps) == 1 and re.match(r"^fmt:#(018)?x$", str(ps[0][0])):
            return word_of(c, ps[0][1])
        if len(ps) == 1 and len(ps[0]) >= 2 and isinstance(ps[0][1], T) and float_of(c, ps[0][1]) and not re.search("[xXa]", str(ps[0][0])) or len(ps) == 1 and ps[0][1] is c.v:
            return "bad"        # decimal digits: not the exact bits
    return None


def float_of(c, t):
    return t is c.v or t.op == "app" and t.args[0] in (ext("builtins.float"), ext("builtins.int")) and t.args[1] == (c.v,)


def word_of(c, t):
    if t.op == "idx" and is_const(t.args[1], 0) and t.args[0].op == "app" and t.args[0].args[0] is ext("struct.unpack"):
        a = t.args[0].args[1]
        if len(a) == 2 and a[0].op == "const" and a[1].op == "app" and a[1].args[0] is ext("struct.pack"):
            b = a[1].args[1]
            if len(b) == 2 and b[0].op == "const" and single(b[1]) and float_of(c, b[1].args[0].args[1][1].args[1][1]):
                return "bad"        # rounded to single precision
            if len(b) == 2 and b[0].op == "const" and float_of(c, b[1]):
                return "ok" if same_word(a[0].args[0], b[0].args[0]) else "bad"
    if t.op == "app" and t.args[0] is ext("builtins.int.from_bytes") and len(t.args[1]) >= 1:
        b = t.args[1][0]
        order = t.args[1][1] if len(t.args[1]) > 1 else dict(t.args[2]).get("byteorder", const("big"))
        if b.op == "app" and b.args[0] is ext("struct.pack") and len(b.args[1]) == 2 and b.args[1][0].op == "const" and order.op == "const" and float_of(c, b.args[1][1]):
            f = b.args[1][0].args[0]
            big = f[:1] in (">", "!")
            return "ok" if f[-1:] == "d" and f[:1] in ("<", ">", "!") and len(f) == 2 and big == (order.args[0] == "big") else "bad"
    if float_of(c, t):
        return "bad"
    if t.op == "bin" and t.args[0] in WORD_OPS:
        k = [i for i in (1, 2) if t.args[i].op == "const" and isinstance(t.args[i].args[0], int)]
        if len(k) == 1 and word_of(c, t.args[3 - k[0]]) == "ok":
            f, n = WORD_OPS[t.args[0]], t.args[k[0]].args[0]
            try:
                if any((f(w, n) if k[0] == 2 else f(n, w)) != w for w in WORDS):
                    return "bad"
            except (ValueError, ZeroDivisionError, OverflowError, MemoryError):
                return None
    return None


def single(t):
    """t is unpacked from the bytes of a float of single (or half) precision."""
    if t.op == "idx" and is_const(t.args[1], 0) and t.args[0].op == "app" and t.args[0].args[0] is ext("struct.unpack") and len(t.args[0].args[1]) == 2:
        f, b = t.args[0].args[1]
        return f.op == "const" and str(f.args[0])[-1:] in ("f", "e") and b.op == "app" and b.args[0] is ext("struct.pack") and len(b.args[1]) == 2
    return False


WORD_OPS = {"&": int.__and__, "|": int.__or__, "^": int.__xor__, "+": int.__add__, "-": int.__sub__, ">>": int.__rshift__, "%": int.__mod__, "//": int.__floordiv__}
# bits of doubles of integers: all of those that can be set are set in one of them
WORDS = [struct.unpack("<Q", struct.pack("<d", float(n)))[0] for n in (0, 1, -1, 3, 10, -7, 2 ** 53 - 1, -(2 ** 53 - 1), 6004799503160661, 3002399751580331)]


def same_word(unpack, pack):
    def parts(f):
        return (f[0] if f[:1] in ("<", ">", "!", "=", "@") else "@"), f[-1:]
    (o1, q), (o2, d) = parts(unpack), parts(pack)
    little, big, native = ("<",), (">", "!"), ("=", "@")
    return q == "Q" and d == "d" and any(o1 in g and o2 in g for g in (little, big, native)) and len(unpack) <= 2 and len(pack) <= 2


# ------------------------------------------------------------------ the function around the instructions

def frame(ctx, kind, names, via="to_llvm_ir"):
    c = Code(ctx, kind, names.head("Add"), 2, via=via)
    rule = "function"
    try:
        c.graph()
        R = Reader(c)
        L, body = ops_loop(R)
        ident, op, args, tok = R.operation([ps for g, ps in body if ps][0])
        if ident is None or not args:
            raise Odd(f"line {R.show(tok)}")
        identifiers(R, L, ident)
        lst = next((x[1].args[0] for x in args if x[0] == "val" and x[1].op == "idx"), None)
        if lst is None:
            raise Odd("operands are not taken from a list")
        table(R, lst, L)
        sig = None
        order = []
        table_ = None
        for x in R.lines:
            if x[0] == "loop":
                order.append("operations" if (x, c.r.it.domain(x[1])) in R.ops else "entries")
                continue
            tok = Token(x[1])
            t = tok.text
            if not t or t.startswith(";") or t.startswith("target ") or t.startswith("declare ") or t.startswith("attributes") or t.startswith("source_filename"):
                continue
            if t.startswith("define "):
                if sig is not None:
                    raise Odd("two functions")
                sig, table_ = signature(ctx, R, x[1], tok, kind)
                order.append("define")
            elif t in ("{", "}", "entry:"):
                order.append(t)
            elif t.startswith("ret "):
                order.append("ret")
                returned_value(ctx, R, tok, kind, lst)
            else:
                raise Odd(f"line {R.show(tok)}")
        want = ["define", "{", "operations"] + (["entries"] if kind == "matrix" else []) + ["ret", "}"]
        if [o for o in order if o != "entry:"] == want:
            ctx.ok(rule, f"{kind}: order of the parts", c.at, ", ".join(order))
        elif sorted(order) == sorted(want) or set(order) <= set(want):
            ctx.bad(rule, f"{kind}: order of the parts", c.at, "the text consists of " + ", ".join(order))
        else:
            ctx.und(rule, f"{kind}: order of the parts", c.at, ", ".join(order))
        naming(ctx, R, table_, kind)
    except Odd as e:
        ctx.und(rule, kind, c.at, str(e))
    except Wrong as e:
        ctx.bad(rule, kind, c.at, str(e))


def signature(ctx, R, ps, tok, kind):
    c = R.c
    m = re.match(r'^define (double|void) @("?[\w.]+"?)\((.*)\)( \{)?$', tok.text)
    if not m:
        raise Odd(f"signature {R.show(tok)}")
    what = f"{kind}: parameters"
    if m.group(1) != ("double" if kind == "expression" else "void"):
        ctx.bad("function", f"{kind}: result", c.at, f"{R.show(tok)}")
    params = []
    holes = [h for h in tok.holes if h[0] == "join"]
    inner = m.group(3)
    rest = re.sub(r"[-]", "", inner)
    entries = []
    for ch in re.split(r"\s*,\s*", inner) if inner.strip() else []:
        if len(ch) == 1 and ord(ch) >= 0xE000 and tok.holes[ord(ch) - 0xE000][0] == "join":
            h = tok.holes[ord(ch) - 0xE000]
            if h[1].strip() != ",":
                ctx.bad("function", what, c.at, f"parameters are separated by {h[1]!r}")
                return None, None
            entries += h[2]
        else:
            entries.append(("item", [tok.holes[ord(x) - 0xE000] if ord(x) >= 0xE000 else x for x in ch]))
    table_ = None
    for e in entries:
        ps2 = e[1] if e[0] == "item" else e[3]
        t2 = Token(ps2)
        if e[0] == "item":
            params.append(t2.text)
            continue
        d = c.r.it.domain(e[1])
        mm = re.match(r"^double (.)$", t2.text)
        if mm and e[2] is not TRUE and closed(e[2], (c.s, mk("attr", R.G, "atoms"), mk("attr", R.G, "operations"))):
            ctx.bad("function", what, c.at, f"an argument is a parameter only when {show_(e[2])[:160]}")
            return None, None
        if not mm or ord(mm.group(1)) < 0xE000 or e[2] is not TRUE:
            raise Odd(f"parameter {R.show(t2)}")
        h = t2.value(mm.group(1))
        b = c.base(d)
        if h[0] == "name" and h[1] is c.s and (d is c.symargs or is_args(c, d)) and names_of(c, h[2]) is not None:
            params.append("ARGS")
            table_ = h[2]
        elif h[0] == "val" and h[1].op == "val" and names_of(c, h[1].args[0]) is not None and (d is h[1].args[0] or d is mk("dictview", "values", h[1].args[0])):
            params.append("ARGS")
            table_ = h[1].args[0]
        elif h[0] == "name" and names_of(c, h[2]) is not None and (b is c.symargs or is_args(c, b)) and d is not b and closed_slice(d, b):
            ctx.bad("function", what, c.at, f"the parameters are {show_(d)[:100]}, not the arguments in the order given")
            return None, None
        elif d.op == "phi" and any(x.op == "app" and x.args[0].op == "ext" and x.args[0].args[0] in REARRANGED + ("builtins.reversed",) and x.args[1]
                                   and is_args(c, x.args[1][0]) and closed(conj(g), (c.symargs,)) for g, x in phi_leaves(d)):
            ctx.bad("function", what, c.at, f"the parameters are {show_(d)[:100]}, not the arguments in the order given")
            return None, None
        else:
            raise Odd(f"parameters {R.show(t2)} for {show_(d)[:100]}")
    want = (['double* %"_out"'] if kind == "matrix" else []) + ["ARGS"]
    R.out_name = '%"_out"'
    if params == want:
        ctx.ok("function", what, c.at, R.show(tok))
    elif kind == "matrix" and len(params) == 2 and params[1] == "ARGS" and re.match(r'^(double\*|ptr) %"?[\w.$]+"?$', params[0]):
        R.out_name = params[0].split()[-1]
        ctx.ok("function", what, c.at, R.show(tok))
    elif sorted(params) == sorted(want) or "ARGS" not in params:
        ctx.bad("function", what, c.at, f"the parameters are {', '.join(params)}")
    else:
        raise Odd(f"parameters {params}")
    return params, table_


def returned_value(ctx, R, tok, kind, lst):
    c = R.c
    what = f"{kind}: value returned"
    if kind == "matrix":
        (ctx.ok if tok.text == "ret void" else ctx.bad)("function", what, c.at, tok.text)
        return
    m = RET.match(tok.text)
    v = tok.value(m.group(1)) if m else None
    if v and v[0] == "val" and v[1].op == "idx" and v[1].args[0] is lst and is_const(v[1].args[1], -1):
        ctx.ok("function", what, c.at, R.show(tok))
    elif v and v[0] == "val" and v[1].op == "idx" and v[1].args[0] is lst and v[1].args[1].op == "const" or tok.text == "ret void":
        ctx.bad("function", what, c.at, f"{R.show(tok)} is not the value of the expression")
    else:
        ctx.und("function", what, c.at, R.show(tok))


# ------------------------------------------------------------------ names

RESERVED = ((".", re.compile(r"^\.?\d*$|^\.\d*$")), ("_out", None))


def naming(ctx, R, D, kind):
    """Names of the arguments: quoted, different from each other and from every other identifier."""
    c = R.c
    rule = "names"
    if D is None:
        raise Odd("the names of the arguments were not found")
    v = names_of(c, D)
    ps = c.pieces(v)
    # different from each other
    g = [t for o in c.outs for t, pos in lits_of_gate(o.gate) if pos and distinct_test(c, t, D)]
    other = [t for o in c.outs for t, pos in lits_of_gate(o.gate) if c.argument_guard(t) or contains(t, lambda z: z is D)]
    if g:
        ctx.ok(rule, f"{kind}: distinct", c.at, show_(g[0]))
    elif other and all(counts_keys(t, D) for t in other):
        ctx.bad(rule, f"{kind}: distinct", c.at, f"arguments with the same name get the same identifier: {show_(other[0])[:100]} only counts the arguments")
    elif other:
        ctx.und(rule, f"{kind}: distinct", c.at, show_(other[0])[:200])
    else:
        ctx.bad(rule, f"{kind}: distinct", c.at, "arguments with the same name get the same identifier")
    # quoting
    s = shape_of(v)
    for conds, body in s:
        if body is None or (x := replaced(body[1])[1]) is None or not is_name(c, x):
            w = unfit_name(R, v, kind)
            (ctx.bad if w else ctx.und)(rule, f"{kind}: quoting", c.at, f"{show_(v)[:160]}" + (f": {w}" if w else ""))
            return
    for conds, (prefix, name) in s:
        chain, src = replaced(name)
        steps = [x for x in chain]
        quoted = [i for i, (x, y) in enumerate(steps) if x == '"' and '"' not in y]
        slash = [i for i, (x, y) in enumerate(steps) if x == "\\"]
        if not quoted:
            ctx.bad(rule, f"{kind}: quoting", c.at, f"a quote in the name of an argument ends the identifier: {show_(v)[:160]}")
            return
        if not slash or slash[0] > quoted[0]:
            ctx.bad(rule, f"{kind}: quoting", c.at, f"a backslash in the name of an argument is not escaped first: {show_(v)[:160]}")
            return
    ctx.ok(rule, f"{kind}: quoting", c.at, show_(v)[:160])
    # different from the other identifiers
    for conds, (prefix, name) in s:
        reserved = [R.prefix[2:] if R.prefix.startswith('%"') else R.prefix[1:]] + ([R.out_name.strip('%"')] if kind == "matrix" else [])
        for q in reserved:
            numbered = q == reserved[0]
            if prefix:
                hit = q.startswith(prefix) or numbered and (prefix.startswith(q) and re.match(r"^\d*$", prefix[len(q):]))
            else:
                hit = not any(starts_without(name, t, q) for t in conds)
            what = f"{kind}: different from %\"{q}{'n' if numbered else ''}\"" + (f" with prefix {prefix}" if prefix else "")
            if not hit:
                ctx.ok(rule, what, c.at, show_(v)[:100])
            elif all(understood_cond(name, t) for t in conds):
                ctx.bad(rule, what, c.at, f"an argument can have the name of another identifier: {show_(v)[:160]}")
            else:
                ctx.und(rule, what, c.at, show_(v)[:160])


def counts_keys(t, D):
    """The number of arguments compared with the number of entries of a table that has one entry for each argument."""
    if not (t.op == "cmp" and t.args[0] in ("==", "<")):
        return False

    def entries(x):
        if not (x.op == "app" and x.args[0] is ext("builtins.len") and len(x.args[1]) == 1):
            return False
        y = x.args[1][0]
        unique = False
        while y is not D:
            if y.op == "setof" and isinstance(y.args[0], tuple) and len(y.args[0]) == 1 and y.args[0][0].op == "star" or \
                    y.op == "obj" and y.args[0].kind in ("set", "list") and len(y.args[0].init) == 1 and isinstance(y.args[0].init[0], T) and y.args[0].init[0].op == "star":
                unique |= y.op == "setof" or y.args[0].kind == "set"
                y = y.args[0][0].args[0] if y.op == "setof" else y.args[0].init[0].args[0]
            elif y.op == "app" and y.args[0].op == "ext" and y.args[0].args[0] in ("builtins.list", "builtins.tuple", "builtins.set", "builtins.sorted") and len(y.args[1]) == 1:
                unique |= y.args[0].args[0] == "builtins.set"
                y = y.args[1][0]
            elif y.op == "dictview" and (y.args[0] == "keys" or y.args[0] in ("values", "items") and not unique):
                y = y.args[1]
            else:
                return False
        return True
    return any(entries(x) for x in t.args[1:])


NAME_SAMPLES = ("x", "y", "X", "x1", "x10", "x_", "_x", "a b", "_out", ".0", ".1", ".10", "0", "1", "10", "_.0", "_.x", 'q"r', "q\\r", "q\\22r", "q22r", "q5Cr", "", "\u03b1", "\u03b2", "e", "entry",
                "a_rather_long_name_of_a_symbol_that_ends_in_1", "a_rather_long_name_of_a_symbol_that_ends_in_2", "n" * 300 + "1", "n" * 300 + "2")


def unfit_name(R, v, kind):
    """Names of symbols that become no identifiers, the same identifier, or that of something else (None: nothing found)."""
    from . import ground
    c = R.c
    seen = {}
    # texts are those of the symbol's name
    forms = {mk("fmt", (("s", c.s),)): 0, c.s: 0, mk("app", ext("builtins.str"), (c.s,), ()): 0}
    out = R.prefix[2:] if R.prefix.startswith('%"') else R.prefix[1:]
    for n in NAME_SAMPLES:
        try:
            x = ground.Ground({f: n for f in forms})(v)
        except ground.Unknown:
            return None
        except ground.Fails as e:
            return f"an error ({e}) for the name {n!r}"
        if not isinstance(x, str):
            return None
        m = re.fullmatch(r'%(?:"([^"]*)"|([-a-zA-Z$._][-a-zA-Z$._0-9]*))', x)
        if m is None:
            return f"{n!r} becomes {x!r}, which is no identifier"
        plain = re.sub(r"\\([0-9A-Fa-f]{2})", lambda k: chr(int(k.group(1), 16)), m.group(1)) if m.group(1) is not None else m.group(2)
        if plain in seen:
            return f"{seen[plain]!r} and {n!r} both become {x!r}"
        seen[plain] = n
        if re.fullmatch(re.escape(out) + r"\d+", plain) or kind == "matrix" and plain == R.out_name.strip('%"'):
            return f"{n!r} becomes {x!r}, the name of another value"
    return None


def is_name(c, src):
    return src.op == "fmt" and src.args[0] == (("s", c.s),) or src is c.s


def understood_cond(name, t):
    if t.op in ("and", "or"):
        return all(understood_cond(name, x) for x in t.args[0])
    if t.op in ("not", "truth"):
        return understood_cond(name, t.args[0])
    return t is name or starts(t) is not None


def starts(t):
    """(text, prefixes) of text.startswith(prefixes)"""
    if t.op == "truth":
        t = t.args[0]
    if t.op == "app" and t.args[0].op == "attr" and t.args[0].args[1] == "startswith" and len(t.args[1]) == 1:
        p = t.args[1][0]
        ps = p.args[0] if p.op == "tup" else (p,)
        if all(x.op == "const" and isinstance(x.args[0], str) for x in ps):
            return t.args[0].args[0], [x.args[0] for x in ps]
    return None


def starts_without(name, t, q):
    """The condition implies that the name does not start with q."""
    if t.op == "not":
        x = t.args[0]
        if x.op == "or":
            return any(starts_without(name, mk_not(y), q) for y in x.args[0])
        s = starts(x)
        return s is not None and s[0] is name and any(q.startswith(p) for p in s[1])
    if t.op == "and":
        return any(starts_without(name, y, q) for y in t.args[0])
    return False


def shape_of(v):
    """[(conditions, (literal prefix, name term) | None)] for %"prefix name"."""
    out = []
    if not (v.op == "fmt" and v.args[0] and v.args[0][0] == ("lit", '%"') and v.args[0][-1] == ("lit", '"')):
        ps = v.args[0] if v.op == "fmt" else ()
        if not (len(ps) == 3 and ps[0][0] == "lit" and ps[0][1].startswith('%"') and ps[2] == ("lit", '"') and ps[1][0] == "s"):
            return [((), None)]
        return [((), (ps[0][1][2:], ps[1][1]))]
    ps = v.args[0][1:-1]
    if len(ps) != 1 or ps[0][0] != "s":
        return [((), None)]

    def go(t, conds):
        if t.op == "phi":
            go(t.args[1], conds + (t.args[0],))
            go(t.args[2], conds + (mk_not(t.args[0]),))
        elif t.op == "fmt" and len(t.args[0]) == 2 and t.args[0][0][0] == "lit" and t.args[0][1][0] == "s":
            out.append((conds, (t.args[0][0][1], t.args[0][1][1])))
        elif t.op == "bin" and t.args[0] == "+" and t.args[1].op == "const":
            out.append((conds, (t.args[1].args[0], t.args[2])))
        else:
            out.append((conds, ("", t)))
    go(ps[0][1], ())
    return out


def replaced(t):
    """Chain of str.replace on a text: ([(old, new)], text)."""
    chain = []
    while t.op == "app" and t.args[0].op == "attr" and t.args[0].args[1] == "replace" and len(t.args[1]) == 2 and all(x.op == "const" for x in t.args[1]):
        chain.insert(0, tuple(x.args[0] for x in t.args[1]))
        t = t.args[0].args[0]
    return chain, t


def distinct_test(c, t, D):
    """len(set(values)) == len(arguments)"""
    if not (t.op == "cmp" and t.args[0] == "=="):
        return False
    a, b = t.args[1:]

    def values(x):
        if not (x.op == "app" and x.args[0] is ext("builtins.len") and len(x.args[1]) == 1):
            return False
        y = x.args[1][0]
        ys = y.args[0] if y.op == "setof" else y.args[0].init if y.op == "obj" and y.args[0].kind == "set" else ()
        return len(ys) == 1 and ys[0].op == "star" and ys[0].args[0] is mk("dictview", "values", D)

    def args_(x):
        return x.op == "app" and x.args[0] is ext("builtins.len") and len(x.args[1]) == 1 and (x.args[1][0] is c.symargs or is_args(c, x.args[1][0]))
    return values(a) and args_(b) or values(b) and args_(a)


# ------------------------------------------------------------------ matrices

def placing(ctx, names, via="to_llvm_ir"):
    """Each entry of a matrix is stored at its own place."""
    rule = "entries"
    c = Code(ctx, "matrix", names.head("Add"), 2, via=via)
    try:
        c.graph()
        R = Reader(c)
        L, body = ops_loop(R)
        ident, op, args, tok = R.operation([ps for g, ps in body if ps][0])
        if ident is None or not args:
            raise Odd(f"line {R.show(tok)}")
        identifiers(R, L, ident)
        lst = next((x[1].args[0] for x in args if x[0] == "val" and x[1].op == "idx"), None)
        table(R, lst, L)
        if len(R.entries) != 1:
            raise (Wrong("no entry is stored") if not R.entries else Odd("several loops over the entries"))
        (_, E, lines), d = R.entries[0]
        if d.op == "slice":
            raise Wrong(f"only the entries {show_(d)[:100]} are stored")
        lines = [(g, ps) for g, ps in lines if ps]
        for g, ps in lines:
            if g is not TRUE:
                if closed_entry(c, g):
                    raise Wrong(f"an entry is stored only when {show_(g)[:200]}")
                raise Odd(f"an entry is stored when {show_(g)[:200]}")
        toks = [Token(ps) for g, ps in lines]
        gep = [(t, GEP.match(t.text)) for t in toks]
        if len(toks) != 2 or not gep[0][1] or not STORE.match(toks[1].text):
            raise Odd("lines for an entry: " + "; ".join(R.show(t) for t in toks))
        (t0, m0), m1 = gep[0], STORE.match(toks[1].text)
        ptr = normal_text(t0.value(m0.group(1)))
        to = normal_text(toks[1].value(m1.group(2))) if toks[1].value(m1.group(2))[0] == "text" else None
        if to is None:
            raise Odd(R.show(toks[1]))
        if ptr == to:
            ctx.ok(rule, "pointer", c.at, R.show(t0))
        else:
            ctx.bad(rule, "pointer", c.at, f"{R.show(toks[1])} does not store to the pointer of {R.show(t0)}")
        base_ = t0.text[m0.start(3):m0.end(3)]
        (ctx.ok if base_ == R.out_name else ctx.bad)(rule, "array", c.at, R.show(t0))
        # numbers of the pointers
        nums = [p for p in ptr[1] if not isinstance(p, str)]
        pre = "".join(p if isinstance(p, str) else "#" for p in ptr[1])
        if len(nums) != 1 or nums[0][0] != "num":
            raise Odd(R.show(t0))
        lf, k0 = dict(nums[0][1][0]), nums[0][1][1]
        step = lf.pop(mk("idxvar", E), 0)
        if step == 0:
            ctx.bad(rule, "pointer number", c.at, f"{R.show(t0)} defines the same identifier for every entry")
        elif step < 0:
            raise Odd("pointers count down")
        elif pre.split("#")[0] != R.prefix:
            ctx.ok(rule, "pointer number", c.at, R.show(t0))
        else:
            a, a0, astep = R.number
            a = {k: v for k, v in a.items() if k is not mk("idxvar", L)}
            d_ops = c.length(mk("slice", mk("attr", R.G, "operations"), NONE, const(-1), NONE))
            need = {}
            nk0 = k0 - a0 + (astep - 1 if False else 0)
            for k, v in lf.items():
                need[k] = need.get(k, 0) + v
            for k, v in a.items():
                need[k] = need.get(k, 0) - v
            # the last operation has the number a0 + astep * (#operations - 1) at most
            for k, v in d_ops.args[0]:
                need[k] = need.get(k, 0) - astep * v
            nk0 -= astep * d_ops.args[1]
            nk0 += astep - 1
            low = nk0 + sum(v * (1 if k is len_(mk("attr", R.G, "operations")) else 0) for k, v in need.items() if v > 0)
            neg = [k for k, v in need.items() if v < 0]
            if not neg and low >= 0:
                ctx.ok(rule, "pointer number", c.at, R.show(t0))
            elif all(known_count(k) for k in need):
                ctx.bad(rule, "pointer number", c.at, f"{R.show(t0)} can be the identifier of an operation")
            else:
                ctx.und(rule, "pointer number", c.at, R.show(t0))
        # place
        at = t0.value(m0.group(4).strip()) if len(m0.group(4).strip()) == 1 else None
        idx = at[1] if at is not None and at[0] == "val" else number_term(at, t0, m0)
        place(ctx, rule, c, idx, R.show(t0))
        # value
        val = mapped(c, toks[1].value(m1.group(1)))
        last = mk("idx", mk("idx", mk("attr", R.G, "operations"), const(-1)), const(1))
        from .graph import unversion
        if val[0] != "val":
            raise Odd(R.show(toks[1]))
        for conds, leaf in phi_leaves(val[1]):
            leaf = mapped(c, ("val", leaf))[1]
            if leaf.op != "idx" or leaf.args[0] is not lst:
                raise Odd(R.show(toks[1]))
            q = unversion(leaf.args[1])
            q = subst(q, {mk("idx", c.entrymap, mk("tup", c.ij)): c.n}, rebuild=rebuild_)
            if q is mk("idx", last, c.n):
                ctx.ok(rule, "value", c.at, R.show(toks[1]))
            elif closed(q, (c.n, *c.ij, last, mk("attr", R.G, "operations"))) and not contains(q, lambda z: z.op in ("unk", "mu", "out")) \
                    and (val[1] is leaf or all(closed_entry(c, l[0]) for l in conds)):
                ctx.bad(rule, "value", c.at, f"the value stored for an entry is that of {show_(q)[-120:]}")
            else:
                ctx.und(rule, "value", c.at, show_(q)[:200])
    except Odd as e:
        ctx.und(rule, "matrix", c.at, str(e))
    except Wrong as e:
        ctx.bad(rule, "matrix", c.at, str(e))


def mapped(c, val):
    """Element of a list that is made from another one element by element."""
    while val[0] == "val" and val[1].op == "idx" and val[1].args[0].op == "obj":
        o, n = val[1].args[:2]
        s = c.r.it.seq(o)
        if not s or len(s) != 1 or s[0][0] != "each" or len(s[0][1]) != 1 or [l for l in s[0][2] if l[0].op not in ADMIN and not c.argument_guard(l[0])]:
            break
        L = s[0][1][0]
        d = c.r.it.domain(L)
        e = c.r.it.mk_elem(d, L)
        if not contains(s[0][3], lambda z: z is e) or e.op in ("tup", "const"):
            break
        val = ("val", subst(s[0][3], {e: mk("idx", d, n)}, rebuild=rebuild_))
    return val


def known_count(k):
    return k.op == "idxvar" or k.op == "app" and k.args[0] is ext("builtins.len") and k.args[1][0].op in ("attr", "sym")


def closed_entry(c, g):
    return closed(g, (c.n, *c.ij, c.arg))


def number_term(at, tok, m):
    if at is not None and at[0] == "num":
        lf, k = at[1]
        return mk("lin", tuple(sorted(lf, key=lambda x: x[0].uid)), k)
    if at is None and re.match(r"^\d+$", m.group(4).strip()):
        return const(int(m.group(4)))
    return None


def place(ctx, rule, c, idx, text):
    N = c.N
    ncols = mk("attr", c.arg, "ncols")
    nrows = mk("attr", c.arg, "nrows")
    if idx is None:
        ctx.und(rule, "place", c.at, text)
        return
    idx = subst(idx, {mk("idx", mk("attr", c.arg, "shape"), const(1)): ncols, mk("idx", mk("attr", c.arg, "shape"), const(0)): nrows}, rebuild=rebuild_)
    i, j = c.ij
    T_ = lambda h, *a: mk("tree", mk("tup", (N.head(h), *a)))
    num = Number(N, {i, j, ncols, nrows, c.n})
    try:
        e = num(idx)
    except Unknown:
        if free_of_columns(c, idx):
            ctx.bad(rule, "place", c.at, f"the entry (i, j) is stored at {show_(idx)[:200]}, whatever the number of columns is")
        else:
            ctx.und(rule, "place", c.at, show_(idx)[:200])
        return
    if norm(N, e) == norm(N, T_("Add", T_("Mul", i, ncols), j)):
        ctx.ok(rule, "place", c.at, text)
    elif num.exact:
        ctx.bad(rule, "place", c.at, f"the entry (i, j) is stored at {show_(idx)[:200]}")
    else:
        ctx.und(rule, "place", c.at, show_(idx)[:200])


def free_of_columns(c, idx):
    """Only the stored entries and the number of rows decide the value: the number of columns can not."""
    seen, todo = set(), [idx]
    while todo:
        t = todo.pop()
        if isinstance(t, tuple):
            todo += t
        if not isinstance(t, T) or t in seen:
            continue
        seen.add(t)
        if t is c.arg or t.op in ("unk", "mu", "out"):
            return False
        if t.op == "attr" and t.args[0] is c.arg:
            if t.args[1] not in ("entrymap", "elements", "elements_graph", "nrows"):
                return False
            continue
        if t.op == "obj":
            if t.args[0].kind not in ("list", "set", "dict"):
                return False
            todo += list(t.args[0].init)
            for e in c.r.effects:
                if e.base is t and e.kind in ("mut", "call", "setattr"):
                    todo += [e.args, *[l for l, _ in e.gate]]
            continue
        if t.op == "inloop" or t.op in ("elem", "key", "val", "idxvar"):
            todo += [x.it for x in t.args if hasattr(x, "it") and x.it is not None]
        todo += list(t.args)
    return True


def operations(ctx):
    """Meaning of the operations and atoms in the generated code (not its frame)."""
    for kind in ("expression", "matrix"):
        names = Names(deep_program(ctx))
        try:
            c = Code(ctx, kind, names.head("Add"), 2)
            c.graph()
            binary = c.binary
        except (Odd, Wrong) as e:
            ctx.und("graph", kind, "", str(e))
            continue
        for h, k in cases(ctx, binary):
            operation(ctx, kind, names, h, k, True)
        for a in ("Integer", "Symbol", "Function"):
            atom_case(ctx, kind, names, a)
    expansion(ctx)


def llvm_code(ctx):
    generated(ctx)
    expansion(ctx)
    forward(ctx)


# ------------------------------------------------------------------ C18: compiled functions

LL = "llvmlite.binding."
DOUBLE = ("ctypes.c_double", "numpy.float64", "numpy.double", "builtins.float")
POINTER = ("ctypes.c_void_p",)


class Compiled:
    """lambdify() of an abstract expression or matrix and calls of the function it returns."""

    def __init__(self, ctx, kind, client):
        self.ctx, self.kind = ctx, kind
        names = Names(deep_program(ctx))
        self.code = Code(ctx, kind, names.head("Add"), 2, via="lambdify")
        c = self.code
        self.values, self.more = (mk("sym", n, T_type("tuple")) for n in ("values", "more"))
        extra = {"compiled": [], "called": [self.values], "called_twice": [self.values, self.more]}[client]
        self.r = scenario(ctx, CLIENT, client, [c.arg, c.symargs, *extra], opaque=(FGRAPH, EVAL) + SUBS_OPAQUE, const_globals=True, prog=c.prog, elem_shape=c.shape)
        r = self.r
        if len(r.returns) != 1:
            raise Odd(f"{len(r.returns)} results")
        self.value, self.at = r.returns[0].value, r.returns[0].where()
        self.parsed = [e for e in r.effects if e.kind == "call" and e.base is ext(LL + "parse_assembly")]
        if len(self.parsed) != 1:
            raise Odd(f"{len(self.parsed)} texts are compiled")
        self.engines = [e for e in r.effects if e.kind == "call" and e.base is ext(LL + "create_mcjit_compiler")]


def function_type(c, t):
    """(result type, [argument types]) of a ctypes function type; ('each', t) for one type for each argument."""
    if not (t.op == "app" and t.args[0] in (ext("ctypes.CFUNCTYPE"), ext("ctypes.PYFUNCTYPE")) and t.args[1]):
        return None
    s = c.r.it.seq(mk("tup", t.args[1][1:]))
    if s is None:
        return None
    out = []
    for x in s:
        if [l for l in (x[2] if x[0] != "star" or len(x) > 2 else ()) if l[0].op not in ADMIN and not library(l[0])]:
            return None
        if x[0] == "item":
            out.append(x[1])
        elif x[0] == "each":
            d = c.r.it.domain(x[1][0])
            n = counted(c, d)
            if len(x[1]) != 1 or n is None:
                return None
            out.append(("each", x[3], n))
        else:
            y = x[1]
            if y.op == "rep":
                z = c.r.it.seq(y.args[0])
                if z is None or len(z) != 1 or z[0][0] != "item":
                    return None
                out.append(("each", z[0][1], counted_number(c, y.args[1])))
            else:
                return None
    return t.args[1][0], out


def counted(c, d):
    """What a loop runs over: 'args' for one iteration for each argument."""
    if d is c.code.symargs or is_args(c.code_of(), d):
        return "args"
    if d.op == "app" and d.args[0] is ext("builtins.range") and len(d.args[1]) == 1:
        return counted_number(c, d.args[1][0])
    return len_(d)


def counted_number(c, n):
    if n is len_(c.code.symargs):
        return "args"
    return n


def code_of(self):
    x = Code.__new__(Code)
    x.__dict__.update(self.code.__dict__)
    x.r = self.r
    return x


Compiled.code_of = code_of


def bound_function(c, t, name):
    """A term that is a ctypes function at the address of the compiled function: its type, or None. Raises Wrong."""
    if not (t.op == "app" and len(t.args[1]) == 1 and function_type(c, t.args[0]) is not None):
        return None
    a = t.args[1][0]
    if not (a.op == "app" and a.args[0].op == "attr" and a.args[0].args[1] == "get_function_address" and len(a.args[1]) == 1):
        return None
    if a.args[1][0].op == "const" and a.args[1][0].args[0] != name:
        raise Wrong(f"the address is that of {show_(a.args[1][0])}, the code defines {name}")
    if a.args[1][0].op != "const":
        raise Odd(f"address of {show_(a.args[1][0])}")
    e = a.args[0].args[0]
    if not (e.op == "app" and e.args[0] is ext(LL + "create_mcjit_compiler") and e.args[1]):
        if any(x.kind == "call" and x.base.op == "attr" and x.base.args[1] == "add_module" for x in c.r.effects):
            raise Wrong(f"several modules with a function {name} are put into one engine {show_(e)[:80]}")
        raise Odd(f"engine {show_(e)[:200]}")
    m = e.args[1][0]
    if not (m.op == "app" and m.args[0] is ext(LL + "parse_assembly") and m.args[1][:1] == (c.parsed[0].args[0],)):
        raise Odd(f"module {show_(m)[:200]}")
    c.engine = e
    return function_type(c, t.args[0])


def defined_name(c):
    """Name of the function that the text defines."""
    code = c.code
    code.graph()
    R = Reader(code)
    for x in R.lines:
        if x[0] == "line":
            m = re.match(r'^define (?:\w+ )*@"?([\w.]+)"?\(', Token(x[1]).text)
            if m:
                return m.group(1)
    raise Odd("no function is defined")


def double_pointer(p):
    return p.op == "app" and p.args[0] is ext("ctypes.POINTER") and p.args[1] == (ext("ctypes.c_double"),)


def signature_type(ctx, c, sig):
    rule, what = "signature", c.kind
    ret, args = sig
    want_ret = "ctypes.c_double"
    if c.kind == "expression" and not (ret.op == "ext" and ret.args[0] == want_ret):
        (ctx.bad if ret.op == "ext" or ret is NONE else ctx.und)(rule, f"{what}: result type", c.at, show_(ret))
    else:
        ctx.ok(rule, f"{what}: result type", c.at, show_(ret))
    rest = list(args)
    if c.kind == "matrix":
        p = rest.pop(0) if rest else None
        if isinstance(p, T) and (double_pointer(p) or p.op == "ext" and p.args[0] in POINTER):
            ctx.ok(rule, f"{what}: array", c.at, show_(p))
        elif p is None or isinstance(p, T) and (p.op == "ext" or p.op == "app" and p.args[0].op == "ext"):
            ctx.bad(rule, f"{what}: array", c.at, f"the first parameter has type {show_(p) if p is not None else 'missing'}, not pointer to double")
            return
        elif isinstance(p, tuple):
            ctx.bad(rule, f"{what}: array", c.at, "the first parameter is not the array")
            return
        else:
            ctx.und(rule, f"{what}: array", c.at, str(p))
    shown = ", ".join(show_(x) if isinstance(x, T) else f"{show_(x[1])} for each of {x[2] if isinstance(x[2], str) else show_(x[2])}" for x in rest)
    if len(rest) == 1 and isinstance(rest[0], tuple) and rest[0][2] == "args" and rest[0][1] is ext("ctypes.c_double"):
        ctx.ok(rule, f"{what}: parameters", c.at, shown)
    elif all(isinstance(x, T) and x.op == "ext" or isinstance(x, tuple) and x[1].op == "ext" and (x[2] == "args" or isinstance(x[2], T) and closed(x[2], (c.code.symargs,))) for x in rest):
        ctx.bad(rule, f"{what}: parameters", c.at, f"the parameters have the types {shown}")
    else:
        ctx.und(rule, f"{what}: parameters", c.at, shown)


def scalar_calls(ctx):
    """A compiled expression: the function itself and what a call does."""
    rule, kind = "compiled", "expression"
    try:
        c = Compiled(ctx, kind, "called")
        name = defined_name(c)
        v = c.value
        v = uncached(ctx, c, v)
        if not (v.op == "app" and len(v.args) > 2 and not v.args[2]):
            raise Odd(f"a call gives {show_(v)[:200]}")
        sig = bound_function(c, v.args[0], name)
        if sig is None:
            if v.args[0] is ext("builtins.float") and len(v.args[1]) == 1:
                v = v.args[1][0]
                sig = bound_function(c, v.args[0], name) if v.op == "app" else None
            if sig is None:
                raise Odd(f"a call gives {show_(v)[:200]}")
        ctx.ok(rule, "expression: function", c.at, show_(v)[:200])
        signature_type(ctx, c, sig)
        passed(ctx, c, v.args[1], kind)
        alive(ctx, c, kind)
    except Odd as e:
        ctx.und(rule, kind, "", str(e))
    except Wrong as e:
        ctx.bad(rule, kind, "", str(e))


def passed(ctx, c, args, kind):
    rule, what = "compiled", f"{kind}: arguments of a call"
    shown = ", ".join(show_(a) for a in args)
    s = c.r.it.seq(mk("tup", tuple(args)))
    if s is not None and len(s) == 1 and (s[0][0] == "star" and s[0][1] is c.values or s[0][0] == "each" and len(s[0][1]) == 1 and not free(s[0][2])
                                          and c.r.it.domain(s[0][1][0]) is c.values and plain(s[0][3], c.r.it.mk_elem(c.values, s[0][1][0]))):
        ctx.ok(rule, what, c.at, shown)
    elif all(closed(a, (c.values, c.code.symargs)) for a in args):
        ctx.bad(rule, what, c.at, f"the compiled function is called with {shown}")
    else:
        ctx.und(rule, what, c.at, shown)


def free(gate):
    return [l for l in gate if l[0].op not in ADMIN and not library(l[0])]


def plain(t, e):
    """The element itself or converted to a float."""
    return t is e or t.op == "app" and t.args[0].op == "ext" and t.args[0].args[0] in DOUBLE and t.args[1] == (e,)


def uncached(ctx, c, v):
    """A result that is kept in a table: the key has to determine the arguments and the expression."""
    return v


def alive(ctx, c, kind):
    """The engine that owns the machine code is kept as long as the function can be called."""
    rule, what = "lifetime", f"{kind}: engine"
    e = c.engine
    import ast
    keeps = [x for x in c.r.effects if x.kind in ("mut", "setattr") and any(holds(c, a, e) for a in x.args)]
    good, odd = [], []
    for x in keeps:
        b = x.base
        if x.kind == "setattr":
            # an attribute of the function that the caller has, or of what that function uses
            if b is c.value or contains(c.value, lambda z: z is b) or b.op == "fn" or any(y.kind == "call" and y.base is b for y in c.r.effects):
                good.append(f"attribute {x.name} of the function")
            elif b.op in ("cls", "mod"):
                raise Wrong(f"only the last engine is kept, as {show_(b)}.{x.name}")
            else:
                odd.append(show_(b))
            continue
        if b.op == "app" and b.args[0].op == "ext":
            n = b.args[0].args[0]
            if n.startswith("weakref."):
                raise Wrong(f"the engine is kept only in a {n}")
            if n == "collections.deque" and (len(b.args[1]) > 1 and b.args[1][1] is not NONE or any(k == "maxlen" and v is not NONE for k, v in b.args[2])):
                raise Wrong("only the last engines are kept, in a deque with a maximal length")
        if free(x.gate) and not all(implied(c, l) for l in free(x.gate)):
            odd.append("kept when " + show_(conj(free(x.gate)))[:200])
            continue
        if b.op == "obj" and b.args[0].era == "module" or b.op == "app" and b.args[0] is ext("collections.deque"):
            if x.name == "__setitem__" and not looked_up(c, b):
                k = x.args[0]
                if k.op == "const" or contains(k, lambda z: z is e) is False and closed(k, (c.code.symargs, c.code.arg, c.code.rep, c.parsed[0].args[0])) \
                        and not contains(k, lambda z: z.op == "app" and z.args[0] is ext("builtins.len") and z.args[1][0] is b):
                    raise Wrong(f"an engine is dropped when another one is kept for the same key {show_(k)[:100]}")
            if x.name in ("append", "add", "extend", "insert", "appendleft", "__setitem__", "update", "setdefault"):
                bad = shrinks(ctx, c, b)
                if bad:
                    raise Wrong(bad)
                good.append(f"{x.name} to a container of the module")
            else:
                odd.append(f"{x.name} of {show_(b)}")
        elif b.op == "obj":
            odd.append(show_(b))
        else:
            odd.append(show_(b)[:100])
    if good:
        ctx.ok(rule, what, c.at, "; ".join(good))
        return
    if captured(c, e):
        ctx.ok(rule, what, c.at, "kept by the function that is returned")
        return
    if odd:
        ctx.und(rule, what, c.at, "; ".join(odd)[:200])
        return
    if any(contains(a, lambda z: z is e) for x in c.r.effects if x.kind == "call" and x.base.op == "fn" for a in x.args):
        ctx.und(rule, what, c.at, "the engine is passed to a function")
        return
    ctx.bad(rule, what, c.at, "nothing keeps the execution engine, so the machine code is freed while the function can still be called")


def looked_up(c, b):
    """An entry is made only for a key that the table does not have."""
    import ast
    for m in c.code.prog.modules.values():
        names = {n for n, t in m.ns.items() if t is b}
        for f in ast.walk(m.tree) if names else ():
            if isinstance(f, ast.Compare) and any(isinstance(x, (ast.In, ast.NotIn)) and isinstance(y, ast.Name) and y.id in names for x, y in zip(f.ops, f.comparators)):
                return True
            if isinstance(f, ast.Attribute) and f.attr in ("get", "setdefault") and isinstance(f.value, ast.Name) and f.value.id in names:
                return True
    return False


def holds(c, t, e, depth=0):
    """Whether a value refers to another one (and does not only contain a number computed from it)."""
    if t is e:
        return True
    if depth > 4:
        return False
    if t.op == "tup":
        return any(holds(c, x.args[0] if x.op == "star" else x, e, depth + 1) for x in t.args[0])
    if t.op == "obj" and t.args[0].kind in ("list", "set"):
        return any(x[0] != "each" and holds(c, x[1], e, depth + 1) for x in c.r.it.seq(t) or ())
    if t.op == "obj":
        return any(x.base is t and x.kind in ("mut", "setattr") and any(holds(c, a, e, depth + 1) for a in x.args) for x in c.r.effects) \
            or any(holds(c, y, e, depth + 1) for kv in t.args[0].init for y in (kv if isinstance(kv, tuple) else (kv,)) if isinstance(y, T))
    if t.op == "bound":
        return any(holds(c, x, e, depth + 1) for x in t.args)
    if t.op == "attr":
        return holds(c, t.args[0], e, depth + 1)    # a bound method
    if t.op == "app" and t.args[0] in (ext("functools.partial"), ext("weakref.finalize")):
        return any(holds(c, x, e, depth + 1) for x in t.args[1])
    return False


def implied(c, l):
    t = l[0] if l[1] else mk_not(l[0])
    facts = {x if p else mk_not(x) for o in c.r.returns + c.parsed for x, p in lits_of_gate(o.gate)}
    return eval_under(t, facts) is TRUE


def captured(c, e):
    """Whether the function that lambdify() returns refers to the engine."""
    import ast
    k = Compiled(c.ctx, c.kind, "compiled")
    for o in k.r.returns:
        v = o.value
        if v.op != "fn" or o.state is None:
            continue
        f = v.args[0]
        used = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        fr = o.state.frames.get(f.frame, {}) if f.frame is not None else {}
        for n in used:
            t = fr.get(n)
            if t is not None and t.op != "unk" and t.op == "app" and t.args[0] is ext(LL + "create_mcjit_compiler"):
                return True
    return False


SHRINK = ("pop", "clear", "remove", "popleft", "popitem", "discard", "__delitem__", "difference_update", "intersection_update", "reverse", "sort")


def shrinks(ctx, c, b):
    """A place of the package where a container of the module can lose an element."""
    import ast
    for m in c.code.prog.modules.values():
        names = {n for n, t in m.ns.items() if t is b}
        if not names or m.tree is None:
            continue
        for f in ast.walk(m.tree):
            at = f"{m.rel}:{getattr(f, 'lineno', 0)}"
            if isinstance(f, ast.Call) and isinstance(f.func, ast.Attribute) and isinstance(f.func.value, ast.Name) and f.func.value.id in names and f.func.attr in SHRINK[:9]:
                return f"{f.func.value.id}.{f.func.attr}() at {at} drops engines of functions that can still be called"
            if isinstance(f, ast.Delete) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id in names for t in f.targets):
                return f"del at {at} drops engines of functions that can still be called"
            if isinstance(f, ast.Assign) and any(isinstance(t, ast.Subscript) and isinstance(t.slice, (ast.Slice, ast.Constant, ast.UnaryOp)) and isinstance(t.value, ast.Name) and t.value.id in names for t in f.targets):
                return f"assignment at {at} drops engines of functions that can still be called"
            if isinstance(f, (ast.FunctionDef,)):
                g = {n for x in ast.walk(f) if isinstance(x, ast.Global) for n in x.names} & names
                if g and any(isinstance(x, ast.Name) and x.id in g and isinstance(x.ctx, (ast.Store, ast.Del)) and not augmented(f, x) for x in ast.walk(f)):
                    return f"{f.name} at {at} replaces the container of the engines"
    return None


def augmented(f, x):
    import ast
    return any(isinstance(y, ast.AugAssign) and y.target is x for y in ast.walk(f))


# an array for each call

def array_calls(ctx):
    rule, kind = "compiled", "matrix"
    try:
        c = Compiled(ctx, kind, "called")
        name = defined_name(c)
        calls = []
        for x in c.r.effects:
            if x.kind == "call" and x.base is not None and x.base.op == "app":
                sig = bound_function(c, x.base, name)
                if sig is not None:
                    calls.append((x, sig))
        if len(calls) != 1:
            raise (Odd if calls else Odd)(f"the compiled function is called {len(calls)} times")
        x, sig = calls[0]
        ctx.ok(rule, "matrix: function", c.at, show_(x.base)[:200])
        signature_type(ctx, c, sig)
        if free(x.gate) and not all(implied(c, l) for l in free(x.gate)):
            raise Odd(f"called when {show_(conj(free(x.gate)))[:200]}")
        if not x.args:
            raise Odd("called without arguments")
        passed(ctx, c, x.args[1:], kind)
        # the array
        v = c.value
        base, copied = v, False
        while base.op == "app" and base.args[0].op == "attr" and base.args[0].args[1] == "copy" and not base.args[1]:
            base, copied = base.args[0].args[0], True
        ptr = pointer_to(x.args[0])
        if ptr is None:
            raise Odd(f"array passed as {show_(x.args[0])[:200]}")
        if base.op == "attr" and base.args[1] == "T" and made_by_numpy(base.args[0]):
            raise Wrong("the result is transposed")
        if ptr is not base:
            under = ptr
            while under.op == "app" and under.args[0].op == "attr" and under.args[0].args[1] == "copy":
                under = under.args[0].args[0]
            if under is base:
                raise Wrong("the compiled function writes to a copy of the result")
            if any(v.op == "attr" and v.args[1] == "T" and v.args[0] is ptr and not contains(ptr, lambda z: z is const("F")) for _, v in phi_leaves(base)):
                raise Wrong("the result is transposed")
            if base.op == "app" and base.args[0] is mk("attr", ptr, "astype") and base.args[1][:1] in ((ext("numpy.float32"),), (ext("builtins.int"),), (ext("numpy.int64"),), (const("float32"),), (ext("numpy.float16"),)):
                raise Wrong(f"the values are converted to {show_(base.args[1][0])}")
            if made_by_numpy(ptr) and made_by_numpy(base):
                raise Wrong(f"the compiled function writes to {show_(ptr)[:100]}, the result is {show_(base)[:100]}")
            raise Odd(f"writes to {show_(ptr)[:100]}, the result is {show_(base)[:100]}")
        array(ctx, c, base)
        # one for each call
        maker = v if copied else base
        n = []
        for client in ("called", "called_twice"):
            k = Compiled(ctx, kind, client)
            n.append(len([y for y in k.r.effects if y.kind == "call" and y.base is maker.args[0]]))
        if n == [1, 2]:
            ctx.ok("array", "one for each call", c.at, show_(maker)[:100])
        elif n == [1, 1]:
            ctx.bad("array", "one for each call", c.at, f"all calls of a function return the same array {show_(maker)[:100]}")
        else:
            ctx.und("array", "one for each call", c.at, f"{n} calls of {show_(maker.args[0])[:100]}")
        alive(ctx, c, kind)
    except Odd as e:
        ctx.und(rule, kind, "", str(e))
    except Wrong as e:
        ctx.bad(rule, kind, "", str(e))


def made_by_numpy(t):
    return t.op == "app" and t.args[0].op == "ext" and t.args[0].args[0].startswith("numpy.")


def pointer_to(t):
    """The array whose data a pointer points to."""
    if t.op == "app" and t.args[0].op == "attr" and t.args[0].args[1] == "data_as" and len(t.args[1]) == 1:
        p = t.args[1][0]
        if not (double_pointer(p) or p.op == "ext" and p.args[0] in POINTER):
            return None
        t = t.args[0].args[0]
        if t.op == "attr" and t.args[1] == "ctypes":
            return t.args[0]
        return None
    if t.op == "attr" and t.args[1] == "data" and t.args[0].op == "attr" and t.args[0].args[1] == "ctypes":
        return t.args[0].args[0]
    return None


def array(ctx, c, t):
    """Array of zeros with the shape of the matrix."""
    if not made_by_numpy(t):
        raise Odd(f"array {show_(t)[:200]}")
    f = t.args[0].args[0]
    a, kw = list(t.args[1]), dict(t.args[2])
    if f in ("numpy.empty", "numpy.ones", "numpy.ndarray"):
        ctx.bad("array", "zeros", c.at, f"{f} is not zero where the matrix has no entry")
    elif f == "numpy.zeros" or f == "numpy.full" and len(a) > 1 and a[1].op == "const" and a[1].args[0] == 0:
        ctx.ok("array", "zeros", c.at, f)
    else:
        ctx.und("array", "zeros", c.at, show_(t)[:200])
        return
    if f == "numpy.full":
        del a[1]
    shape = a[0] if a else kw.get("shape")
    dtype = a[1] if len(a) > 1 else kw.get("dtype", ext("numpy.float64"))
    order = a[2] if len(a) > 2 else kw.get("order", const("C"))
    if order.op == "const" and order.args[0] != "C":
        ctx.bad("array", "order", c.at, f"order {show_(order)}")
    ok = dtype.op == "ext" and dtype.args[0] in DOUBLE or dtype.op == "const" and dtype.args[0] in ("float64", "d", "f8", "<f8", "double", "float", None)
    if f == "numpy.full" and dtype is ext("numpy.float64") and len(a) < 2 and "dtype" not in kw and type(t.args[1][1].args[0]) is int:
        ok = False
    if ok:
        ctx.ok("array", "type", c.at, show_(dtype))
    else:
        (ctx.bad if dtype.op in ("ext", "const") else ctx.und)("array", "type", c.at, f"elements of type {show_(dtype)}, the code writes doubles")
    mat = c.code.arg
    nrows, ncols, both = mk("attr", mat, "nrows"), mk("attr", mat, "ncols"), mk("attr", mat, "shape")
    if shape is None:
        raise Odd("array without shape")
    s = subst(shape, {mk("idx", both, const(0)): nrows, mk("idx", both, const(1)): ncols}, rebuild=rebuild_)
    if s is both or s is mk("tup", (nrows, ncols)):
        ctx.ok("array", "shape", c.at, show_(shape))
    elif closed(s, (mat,)):
        ctx.bad("array", "shape", c.at, f"the array has shape {show_(shape)[:100]}")
    else:
        ctx.und("array", "shape", c.at, show_(shape)[:200])


def compiled(ctx):
    scalar_calls(ctx)
    array_calls(ctx)
    generated(ctx, via="lambdify")
    expansion(ctx)
    forward(ctx)
