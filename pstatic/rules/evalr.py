"""C12, C13: evaluation and registration of rules."""
from __future__ import annotations

from .lib import *  # noqa
from .lib import Canon, case, closed, exc_names, raised_class, scenario
from .build import Names
from .graph import FGRAPH, forward, one_call, unversion

EVAL = CORE + "evaluate.Evaluator"

USE = '''
from protosym.core.evaluate import Evaluator, Transformer
from protosym.core.sym import SymEvaluator

def forward(h1, f1, h2, f2, hn, fn, g, t, fa, t2, fb, ga, expr, values):
    ev = Evaluator()
    ev.add_op1(h1, f1)
    ev.add_op2(h2, f2)
    ev.add_opn(hn, fn)
    ev.add_op_generic(g)
    ev.add_atom(t, fa)
    ev.add_atom(t2, fb)
    ev.add_atom_generic(ga)
    return ev(expr, values)

def novalues(h1, f1, g, t, fa, ga, expr):
    ev = Evaluator()
    ev.add_op1(h1, f1)
    ev.add_op_generic(g)
    ev.add_atom(t, fa)
    ev.add_atom_generic(ga)
    return ev(expr)

def recursive(h1, f1, h2, f2, hn, fn, g, t, fa, t2, fb, ga, expr, values):
    ev = Evaluator()
    ev.add_op1(h1, f1)
    ev.add_op2(h2, f2)
    ev.add_opn(hn, fn)
    ev.add_op_generic(g)
    ev.add_atom(t, fa)
    ev.add_atom(t2, fb)
    ev.add_atom_generic(ga)
    return ev.eval_recursive(expr, values)

def again(h1, f1, f2, f3, f4, t, fa, fb, g, g2, ga, gb, expr, values):
    ev = Evaluator()
    ev.add_op1(h1, f1)
    ev.add_op2(h1, f2)
    ev.add_opn(h1, f3)
    ev.add_op1(h1, f4)
    ev.add_atom(t, fa)
    ev.add_atom(t, fb)
    ev.add_op_generic(g)
    ev.add_op_generic(g2)
    ev.add_atom_generic(ga)
    ev.add_atom_generic(gb)
    return ev(expr, values)

def empty(expr, values):
    ev = Evaluator()
    return ev(expr, values)

def some(h1, f1, t, fa, expr, values):
    ev = Evaluator()
    ev.add_op1(h1, f1)
    ev.add_atom(t, fa)
    return ev(expr, values)

def transform(expr, values):
    tr = Transformer()
    return tr(expr, values)

def transform_rules(h1, f1, t, fa, expr, values):
    tr = Transformer()
    tr.add_opn(h1, f1)
    tr.add_atom(t, fa)
    return tr(expr, values)

def sym(expr, values):
    ev = SymEvaluator('name')
    return ev(expr, values)
'''


def pair_text(pairs, head, make, arg):
    """Scenarios: a rule of each kind replaced by one of each kind for the same pattern."""
    out = []
    for i, a in enumerate(pairs):
        for j, b in enumerate(pairs):
            if KIND[i] == KIND[j]:
                out.append(f"def pair_{i}_{j}({head}h1, t, fa, fb, p, q, expr):\n    ev = {make}\n    ev{arg}{a.format(f='fa')}\n    ev{arg}{b.format(f='fb')}\n    return ev(expr)\n")
    return "\n".join(out)


def overrides(ctx, rule, label, text, args, names):
    """After two registrations for the same pattern the second function is the one used, with its own calling convention."""
    k = None
    for i in range(6):
        for j in range(6):
            if KIND[i] != KIND[j]:
                continue
            r = scenario(ctx, text, f"pair_{i}_{j}", args, opaque=(FGRAPH,))
            r.s = dict(zip(names.split(), args))
            k = Case(r, names)
            k.s = {n: (t.args[1] if t.op == "symw" else mk("attr", t, "atom_type") if n == "t" and t.args[1] is not None else t) for n, t in r.s.items()}
            c2 = f"{label}: a rule of kind {i + 1} replaced by one of kind {j + 1}"
            got = graph_stack(ctx, rule, c2, r, expr=k.s["expr"])
            if got is None:
                continue
            G, S, ap, at = got
            a, H, each = context(G, S)
            AT, val = mk("attr", mk("attr", a, "value"), "atom_type"), mk("attr", mk("attr", a, "value"), "value")
            f, args_ = k.s["fb"], mk("tup", (each,))
            which, x, key, hit, want = [("operations", H, "h1", "h1", mk("app", f, (each,), ())), ("operations", H, "h1", "h1", mk("app", f, (each,), ())),
                                        ("operations", H, "h1", "h1", mk("app", f, (args_,), ())), ("atoms", AT, "t", "t", mk("app", f, (val,), ())),
                                        ("operations", H, "h1", None, mk("app", f, (H, args_), ())), ("atoms", AT, "t", None, mk("app", f, (a,), ()))][j]
            facts = k.base | k.facts(x, (key,), hit)
            facts |= {mk_not(r.it.equal(k.s["p"], k.s["q"]))}
            p = parts(r, G, S, facts)
            if p is None or which not in p:
                ctx.und(rule, c2, at, show_(Canon(r.it)(S)))
                continue
            leaf_check(ctx, rule, c2, at, p[which], {want}, {G, S, a, H, *r.s.values(), *k.s.values()}, "value")




def syms(names):
    return [mk("sym", n, T_type("func") if n[0] in "fg" else T_type("dict") if n == "values" else None) for n in names.split()]


class Case:
    """Facts under which one rule applies."""

    def __init__(self, r, names):
        self.r, self.it = r, r.it
        self.s = dict(zip(names.split(), r.args))
        self.base = set()
        for n, t in self.s.items():
            if n[0] in "fg":
                self.base |= {r.it.truth(t), mk_not(r.it.equal(t, NONE))}
        if "values" in self.s:
            self.base.add(mk_not(self.it.equal(self.s["values"], NONE)))

    def facts(self, x, keys, hit):
        """Facts: x equals the key named hit and no other."""
        return {(lambda c: c if k == hit else mk_not(c))(self.it.equal(self.s[k], x)) for k in keys}


def norm_args(t):
    """f(*[...]) in one form."""
    if t.op == "app" and len(t.args[1]) == 1 and t.args[1][0].op == "star":
        a = t.args[1][0].args[0]
        while a.op == "tup" and len(a.args[0]) == 1 and a.args[0][0].op == "star":
            a = a.args[0][0].args[0]
        if a.op == "tup":
            return mk("app", t.args[0], a.args[0], ())
    if t.op == "tree":
        a = t.args[0]
        if a.op == "tup":
            out = []
            for x in a.args[0]:
                while x.op == "star" and x.args[0].op == "tup":
                    x = x.args[0]
                    if len(x.args[0]) == 1:
                        x = x.args[0][0]
                    else:
                        break
                out.extend(x.args[0] if x.op == "tup" else (x,))
            return mk("tree", mk("tup", tuple(out)))
    return mk("app", t.args[0], t.args[1], ()) if t.op == "app" and len(t.args) > 3 else t


def swallowed(g, want):
    """The literal of gate g that an exception was raised by the rule that had to be applied."""
    rules = {w.args[0] for w in want if w.op == "app" and w.args[0].op == "sym"}
    for c, p in g:
        if p and c.op == "raises" and len(c.args) > 2 and any(contains(b, lambda z: z in rules) for b in c.args[2]):
            return c
    return None


def leaf_check(ctx, rule, construct, at, v, want, leaves, what, extra=()):
    """All alternatives of value v must be the wanted one."""
    for g, leaf in phi_leaves(v):
        leaf = norm_args(unversion(leaf))
        cond = conj(g)
        when = "" if cond is TRUE else f" when {show(cond)}"
        if leaf in want:
            ctx.ok(rule, construct, at, f"{what}: {show_(leaf)}")
        elif leaf.op == "noreturn" or contains(leaf, lambda z: z.op == "noreturn"):
            ctx.bad(rule, construct, at, f"{what}: no value is found{when}")
        elif closed(leaf, leaves | set(want), extra) or app_of(leaf, leaves):
            if closed(cond, leaves | set(want), extra):
                ctx.bad(rule, construct, at, f"{what} is {show_(leaf)}{when} instead of {show_(sorted(want, key=lambda z: z.uid)[0])}")
            elif swallowed(g, want) and closed(conj([l for l in g if l[0].op != "raises"]), leaves | set(want), extra):
                ctx.bad(rule, construct, at, f"{what} is {show_(leaf)} when the rule raises {show_(swallowed(g, want).args[1][0])}")
            elif leaf.op == "app" and app_of(leaf, leaves) and g and all(c.op != "raises" or not p and len(c.args) > 2 and leaf.args[0] in c.args[2] for c, p in g) \
                    and closed(conj([l for l in g if l[0].op != "raises"]), leaves | set(want), extra):
                ctx.bad(rule, construct, at, f"{what} is {show_(leaf)} when that does not raise, instead of {show_(sorted(want, key=lambda z: z.uid)[0])}")
            else:
                ctx.und(rule, construct, at, f"{what} is {show_(leaf)}{when}")
        else:
            ctx.und(rule, construct, at, f"{what}: {show_(leaf)}{when}")


def app_of(t, leaves):
    """A call of one of the given functions on understood arguments."""
    return t.op == "app" and t.args[0] in leaves and closed(mk("tup", t.args[1]), leaves)


def graph_stack(ctx, rule, label, r, expr=None):
    """(graph, stack object, element of atoms, element of operations, value for an atom, value for an operation, where)"""
    G = one_call(ctx, r, FGRAPH)
    at = r.returns[0].where() if r.returns else ""
    if G is None or G.args[1] != (expr if expr is not None else r.s["expr"],):
        ctx.und(rule, label, at, "does not use forward_graph of the expression exactly once")
        return None
    if len(r.returns) != 1:
        ctx.und(rule, label, at, "returns in several places")
        return None
    v = r.returns[0].value
    if not (v.op == "idx" and v.args[0].op == "obj" and v.args[0].args[0].kind == "list"):
        ctx.und(rule, label, at, f"result {show_(v)}")
        return None
    if not is_const(v.args[1], -1):
        if v.args[1].op == "const":
            ctx.bad(rule, f"{label} result", at, f"the result is taken from position {show_(v.args[1])} of the values")
        else:
            ctx.und(rule, f"{label} result", at, show_(v))
        return None
    S = v.args[0]
    ap = [e for e in r.effects if e.base is S and e.kind == "mut"]
    return G, S, ap, at


def parts(r, G, S, facts):
    """Under the facts: (values of atoms, values of operations), or None."""
    cn = Canon(r.it, facts)
    c = cn(S)
    if c.op != "tup" or len(c.args[0]) not in (1, 2):
        return None
    out = {}
    for x in c.args[0]:
        if x.op == "star" and x.args[0] in (mk("attr", G, "atoms"),):
            out["atoms"] = mk("bel", x.args[0], 0)
        elif x.op == "each" and len(x.args[0]) == 1 and x.args[1] is TRUE and x.args[0][0].op == "attr" and x.args[0][0].args[0] is G \
                and x.args[0][0].args[1] in ("atoms", "operations"):
            out[x.args[0][0].args[1]] = x.args[2]
        else:
            return None
    if len(out) != len(c.args[0]) or len(out) == 2 and list(out) != ["atoms", "operations"]:
        return None
    return out


def context(G, S):
    a = mk("bel", mk("attr", G, "atoms"), 0)
    op = mk("bel", mk("attr", G, "operations"), 0)
    ind = mk("idx", op, const(1))
    each = mk("each", (ind,), TRUE, mk("idx", S, mk("bel", ind, 1)))
    return a, mk("idx", op, const(0)), each


def run_scenario(ctx, name, names, opaque=(FGRAPH,), text=USE):
    args = syms(names)
    r = scenario(ctx, text, name, args, opaque=opaque)
    r.s = dict(zip(names.split(), args))
    return r


def forward_eval(ctx, rule="evaluation"):
    names = "h1 f1 h2 f2 hn fn g t fa t2 fb ga expr values"
    r = run_scenario(ctx, "forward", names)
    label = "Evaluator()(expr, values)"
    k = Case(r, names)
    got = graph_stack(ctx, rule, label, r)
    if got is None:
        return
    G, S, ap, at = got
    a, H, each = context(G, S)
    s, it = k.s, r.it
    args = mk("tup", (each,))
    leaves = {G, S, a, H, *[t for t in s.values()]}
    ops = [("a head with a rule for one operand", "h1", mk("app", s["f1"], (each,), ())),
           ("a head with a rule for two operands", "h2", mk("app", s["f2"], (each,), ())),
           ("a head with a rule for any number of operands", "hn", mk("app", s["fn"], (args,), ())),
           ("a head without rule", None, mk("app", s["g"], (H, args), ()))]
    for what, hit, want in ops:
        p = parts(r, G, S, k.base | k.facts(H, ("h1", "h2", "hn"), hit))
        if p is None or "operations" not in p:
            ctx.und(rule, f"{label} operations", at, f"the values are {show_(Canon(it)(S))}")
            break
        leaf_check(ctx, rule, f"{label} {what}", where_app(ap, -1, at), p["operations"], {want}, leaves, "value of an operation")
    given = it.contains_(a, s["values"], r.returns[0].state)
    AT = mk("attr", mk("attr", a, "value"), "atom_type")
    val = mk("attr", mk("attr", a, "value"), "value")
    atoms = [("a supplied atom", True, h, mk("idx", s["values"], a)) for h in ("t", "t2", None)] + [
        ("an atom with a rule", False, "t", mk("app", s["fa"], (val,), ())),
        ("an atom with another rule", False, "t2", mk("app", s["fb"], (val,), ())),
        ("an atom without rule", False, None, mk("app", s["ga"], (a,), ()))]
    for what, have, hit, want in atoms:
        p = parts(r, G, S, k.base | k.facts(AT, ("t", "t2"), hit) | {given if have else mk_not(given)})
        if p is None or "atoms" not in p:
            ctx.und(rule, f"{label} atoms", at, f"the values are {show_(Canon(it)(S))}")
            break
        leaf_check(ctx, rule, f"{label} {what}", where_app(ap, 0, at), p["atoms"], {want}, leaves, "value of an atom")
    ctx.ok(rule, f"{label} result", at, "the value of the last operation")


def where_app(ap, i, at):
    ap = [e for e in ap if e.name == "append"]
    return ap[i].where() if ap else at


def last_rule(ctx, rule="evaluation"):
    """The rule registered last for a head, for an atom type and as generic rule is the one used."""
    names = "h1 f1 f2 f3 f4 t fa fb g g2 ga gb expr values"
    r = run_scenario(ctx, "again", names)
    label = "rules registered again"
    k = Case(r, names)
    got = graph_stack(ctx, rule, label, r)
    if got is None:
        return
    G, S, ap, at = got
    a, H, each = context(G, S)
    s = k.s
    leaves = {G, S, a, H, *s.values()}
    given = r.it.contains_(a, s["values"], r.returns[0].state)
    AT, val = mk("attr", mk("attr", a, "value"), "atom_type"), mk("attr", mk("attr", a, "value"), "value")
    args = mk("tup", (each,))
    for what, which, x, keys, hit, want in (
            ("for a head", "operations", H, ("h1",), "h1", mk("app", s["f4"], (each,), ())),
            ("generic for heads", "operations", H, ("h1",), None, mk("app", s["g2"], (H, args), ())),
            ("for an atom type", "atoms", AT, ("t",), "t", mk("app", s["fb"], (val,), ())),
            ("generic for atoms", "atoms", AT, ("t",), None, mk("app", s["gb"], (a,), ()))):
        p = parts(r, G, S, k.base | k.facts(x, keys, hit) | {mk_not(given)})
        if p is None or which not in p:
            ctx.und(rule, f"{label} {what}", at, show_(Canon(r.it)(S)))
            continue
        leaf_check(ctx, rule, f"{label} {what}", where_app(ap, 0 if which == "atoms" else -1, at), p[which], {want}, leaves, "value")


def novalues(ctx, rule="evaluation"):
    names = "h1 f1 g t fa ga expr"
    r = run_scenario(ctx, "novalues", names)
    label = "Evaluator()(expr)"
    k = Case(r, names)
    got = graph_stack(ctx, rule, label, r)
    if got is None:
        return
    G, S, ap, at = got
    a, H, each = context(G, S)
    s = k.s
    leaves = {G, S, a, H, *s.values()}
    AT, val = mk("attr", mk("attr", a, "value"), "atom_type"), mk("attr", mk("attr", a, "value"), "value")
    for what, hit, want in (("an atom with a rule", "t", mk("app", s["fa"], (val,), ())), ("an atom without rule", None, mk("app", s["ga"], (a,), ()))):
        p = parts(r, G, S, k.base | k.facts(AT, ("t",), hit))
        if p is None or "atoms" not in p:
            ctx.und(rule, f"{label} atoms", at, show_(Canon(r.it)(S)))
            return
        leaf_check(ctx, rule, f"{label} {what}", where_app(ap, 0, at), p["atoms"], {want}, leaves, "value of an atom")


def recursive_eval(ctx, rule="evaluation"):
    if method_of(ctx, "eval_recursive") is None:
        return
    names = "h1 f1 h2 f2 hn fn g t fa t2 fb ga expr values"
    r = run_scenario(ctx, "recursive", names)
    label = "Evaluator().eval_recursive"
    k = Case(r, names)
    s, it = k.s, r.it
    x = s["expr"]
    at = r.returns[0].where() if r.returns else ""
    v = Canon(it)(value_of(r))
    rec = next((z for z in subterms(v) if z.op == "app" and z.args[0].op == "fn" and z.args[0].args[0].name == "eval_recursive"), None)
    given = it.contains_(x, s["values"], r.returns[0].state)
    comp = it.truth(mk("attr", x, "children"))
    H = mk("idx", mk("attr", x, "children"), const(0))
    kids = mk("slice", mk("attr", x, "children"), const(1), NONE, NONE)
    AT, val = mk("attr", mk("attr", x, "value"), "atom_type"), mk("attr", mk("attr", x, "value"), "value")
    if rec is None:
        ctx.und(rule, label, at, show_(v))
        return
    each = mk("each", (kids,), TRUE, mk("app", rec.args[0], (rec.args[1][0], mk("bel", kids, 0), s["values"]), ()))
    args = mk("tup", (each,))
    leaves = {x, H, *s.values()}
    table = [("a supplied expression", {given}, {mk("idx", s["values"], x)}),
             ("an atom with a rule", {mk_not(given), mk_not(comp)} | k.facts(AT, ("t", "t2"), "t"), {mk("app", s["fa"], (val,), ())}),
             ("an atom without rule", {mk_not(given), mk_not(comp)} | k.facts(AT, ("t", "t2"), None), {mk("app", s["ga"], (x,), ())})]
    for what, hit, want in (("one operand", "h1", mk("app", s["f1"], (each,), ())), ("two operands", "h2", mk("app", s["f2"], (each,), ())),
                            ("any number of operands", "hn", mk("app", s["fn"], (args,), ())), ("no rule", None, mk("app", s["g"], (H, args), ()))):
        table.append((f"a head with {what}", {mk_not(given), comp} | k.facts(H, ("h1", "h2", "hn"), hit), {want}))
    for z in subterms(v):
        if z.op == "app" and z.args[0] is rec.args[0] and len(z.args[1]) == 3 and z.args[1][2].op == "obj" and z.args[1][2].args[0].kind == "dict":
            d = z.args[1][2]
            if not d.args[0].init and not any(e.base is d for e in r.effects):
                ctx.bad(rule, f"{label} operands", at, "the operands are evaluated without the values supplied")
                return
    for what, facts, want in table:
        vv = Canon(it, k.base | facts)(value_of(r))
        leaf_check(ctx, rule, f"{label} {what}", at, strip_pos(vv), want, leaves | {rec, rec.args[0]}, "value")


def strip_pos(t):
    """Recursive calls without their position in the log."""
    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T) or x.op in ("const", "obj", "fn") or not x.args:
            return x
        if x.op == "app" and x.args[0].op == "fn" and len(x.args) > 3:
            return mk("app", x.args[0], go(x.args[1]), go(x.args[2]))
        return mk(x.op, *[go(y) for y in x.args])
    return go(t)


def method_of(ctx, name):
    return ctx.prog.cls_term(EVAL).args[0].lookup(name)[0]


def no_default(ctx, rule="no-default"):
    """Without any rule every path to a value of an atom or an operation raises NoEvaluationRuleError."""
    for name, names in (("empty", "expr values"), ("some", "h1 f1 t fa expr values")):
        r = run_scenario(ctx, name, names)
        label = "an evaluator without rules" if name == "empty" else "an evaluator with some rules"
        k = Case(r, names)
        got = graph_stack(ctx, rule, label, r)
        if got is None:
            continue
        G, S, ap, at = got
        a, H, each = context(G, S)
        given = r.it.contains_(a, k.s["values"], r.returns[0].state)
        facts = k.base | {mk_not(given)}
        if name == "some":
            facts |= k.facts(H, ("h1",), None) | k.facts(mk("attr", mk("attr", a, "value"), "atom_type"), ("t",), None)
        leaves = {G, S, a, H, *k.s.values()}
        cn = Canon(r.it, facts)
        c = cn(S)
        segs = c.args[0] if c.op == "tup" else None
        if segs is None:
            ctx.und(rule, label, at, show_(c))
            continue
        for x in segs:
            dom = x.args[0][0] if x.op == "each" else x.args[0] if x.op == "star" else None
            which = dom.args[1] if dom is not None and dom.op == "attr" and dom.args[0] is G else None
            if which not in ("atoms", "operations"):
                ctx.und(rule, label, at, show_(x))
                continue
            if any(o.loops and cn(r.it.domain(o.loops[0])) is dom and cn.cond(cn(conj([l for l in o.gate if l[0].op not in ("inloop", "iterates")]), 1, {o.loops[0]: 0})) is TRUE
                   for o in r.raises):
                ctx.ok(rule, f"{label}: {which}", at, "always raises")
                continue
            v = x.args[2] if x.op == "each" else mk("bel", dom, 0)
            e = where_app(ap, 0 if which == "atoms" else -1, at)
            for g, leaf in phi_leaves(v):
                if leaf.op == "noreturn":
                    ctx.ok(rule, f"{label}: {which}", e, "raises")
                elif closed(leaf, leaves) and closed(conj(g), leaves):
                    ctx.bad(rule, f"{label}: {which}", e, f"the value {show_(leaf)} is made up" + (f" when {show(conj(g))}" if g else ""))
                else:
                    ctx.und(rule, f"{label}: {which}", e, show_(leaf))
        n = 0
        for o in r.raises:
            cls = raised_class(ctx.prog, o.value)
            if "NoEvaluationRuleError" in exc_names(cls):
                n += 1
                ctx.ok(rule, f"{label}: error", o.where(), show_(o.value))
            else:
                (ctx.und if cls is None else ctx.bad)(rule, f"{label}: error", o.where(), f"raises {show_(o.value)} instead of NoEvaluationRuleError")


def transformer(ctx, rule="transformer"):
    for name, names in (("transform", "expr values"), ("transform_rules", "h1 f1 t fa expr values")):
        r = run_scenario(ctx, name, names)
        label = "Transformer" if name == "transform" else "Transformer with rules"
        k = Case(r, names)
        got = graph_stack(ctx, rule, label, r)
        if got is None:
            continue
        G, S, ap, at = got
        a, H, each = context(G, S)
        given = r.it.contains_(a, k.s["values"], r.returns[0].state)
        facts = k.base | {mk_not(given)}
        leaves = {G, S, a, H, *k.s.values()}
        same = {tree(H, each), mk("app", H, (each,), ())}
        table = [("other heads", "operations", {H: None}, same), ("other atoms", "atoms", {}, {a})]
        if name == "transform_rules":
            table += [("a head with a rule", "operations", {H: "h1"}, {mk("app", k.s["f1"], (mk("tup", (each,)),), ())}),
                      ("an atom with a rule", "atoms", {a: "t"}, {mk("app", k.s["fa"], (mk("attr", mk("attr", a, "value"), "value"),), ())})]
        for what, which, hits, want in table:
            f = set(facts)
            if name == "transform_rules":
                f |= k.facts(H, ("h1",), hits.get(H)) | k.facts(mk("attr", mk("attr", a, "value"), "atom_type"), ("t",), hits.get(a))
            p = parts(r, G, S, f)
            if p is None or which not in p:
                ctx.und(rule, f"{label} {what}", at, show_(Canon(r.it)(S)))
                continue
            leaf_check(ctx, rule, f"{label} {what}", where_app(ap, 0 if which == "atoms" else -1, at), p[which], want, leaves, "result")


def sym_call(ctx, rule="evaluation"):
    """SymEvaluator: the tree of the expression and the values by tree, all of them, are passed on."""
    for which in ("__call__",):
        r = run_scenario(ctx, "sym", "expr values", opaque=(EVAL + ".__call__", EVAL + ".evaluate", EVAL + ".eval_forward"))
        label = "SymEvaluator()(expr, values)"
        x, V = r.s["expr"], r.s["values"]
        at = r.returns[0].where() if r.returns else ""
        isnone = r.it.equal(V, NONE)
        for facts, what in (({mk_not(isnone)}, "values"), ({isnone}, "no values")):
            for c, v, o in case(r, facts)[0]:
                if not (v.op == "app" and v.args[0].op == "fn" and v.args[0].args[0].cls is ctx.prog.cls_term(EVAL).args[0] and 2 <= len(v.args[1]) + len(v.args[2]) <= 3):
                    ctx.und(rule, label, at, show_(v))
                    continue
                a = list(v.args[1][1:]) + [y for _, y in v.args[2]]
                if a[0] is mk("attr", x, "rep"):
                    ctx.ok(rule, f"{label} expression", at, show_(a[0]))
                elif closed(a[0], {x, V}):
                    ctx.bad(rule, f"{label} expression", at, f"{show_(a[0])} is evaluated")
                else:
                    ctx.und(rule, f"{label} expression", at, show_(a[0]))
                d = a[1] if len(a) > 1 else NONE
                if what == "no values":
                    if d is NONE or d.op == "obj" and d.args[0].kind == "dict" and not d.args[0].init and not any(e.base is d for e in r.effects):
                        ctx.ok(rule, f"{label} {what}", at, "none are passed on")
                    elif closed(d, {x, V}):
                        ctx.bad(rule, f"{label} {what}", at, f"passes {show_(d)}")
                    else:
                        ctx.und(rule, f"{label} {what}", at, show_(d))
                    continue
                dict_items(ctx, rule, f"{label} {what}", at, r, d, V, facts)


def dict_items(ctx, rule, label, at, r, d, V, facts):
    """The dict d holds {key.rep: value} for every item of V."""
    if d is V:
        ctx.bad(rule, label, at, "the values are passed on by expression and not by tree")
        return
    if d.op == "app" and d.args[0] is ext("builtins.dict") and len(d.args[1]) == 1 or d.op != "obj" or d.args[0].kind != "dict":
        ctx.und(rule, label, at, show_(d))
        return
    puts = [e for e in r.effects if e.base is d and e.kind == "mut"]
    if d.args[0].init or not puts or any(e.name != "__setitem__" for e in puts):
        ctx.und(rule, label, at, show_(d))
        return
    for e in puts:
        cn = Canon(r.it, facts)
        if len(e.loops) != 1:
            ctx.und(rule, label, e.where(), "not filled by one loop")
            continue
        dom = r.it.domain(e.loops[0])
        env = {e.loops[0]: 0}
        key, val = unversion(cn(e.args[0], 1, env)), unversion(cn(e.args[1], 1, env))
        ks = [mk("bkey", V, 0), mk("bel", V, 0), mk("bel", mk("dictview", "keys", V), 0), mk("bel", cn(dom), 0)]
        if dom.op == "dictview" and dom.args[0] == "items":
            ks.append(mk("idx", mk("bel", dom, 0), const(0)))
        vs = [mk("bval", V, 0), mk("idx", mk("bel", dom, 0), const(1))] + [mk("idx", V, q) for q in ks]
        g = [l for l in e.gate if l[0].op not in ("inloop", "iterates") and cn.cond(conj([l])) is not TRUE]
        over = strip_seq(dom)
        over = over.args[1] if over.op == "dictview" else over
        if over.op == "phi" and over.args[0] is r.it.truth(V) and {x is V or x.op == "tup" and not x.args[0] for x in over.args[1:]} == {True}:
            over = V                # the values, or nothing at all where there are none
            vs += [mk("idx", V, q) for q in [mk("bel", cn(dom), 0)]]
        if over is not V:
            (ctx.bad if closed(dom, {V}) else ctx.und)(rule, label, e.where(), f"the values passed on are those of {show_(dom)}")
        elif g:
            c = cn(conj(g), 1, env)
            (ctx.bad if closed(c, {V}) else ctx.und)(rule, label, e.where(), f"a value is only passed on when {show(c)}")
        elif key in [mk("attr", q, "rep") for q in ks] and val in vs:
            ctx.ok(rule, label, e.where(), f"{show_(key)}: {show_(val)}")
        elif closed(mk("tup", (key, val)), {V}):
            ctx.bad(rule, label, e.where(), f"passes {show_(val)} for {show_(key)}")
        else:
            ctx.und(rule, label, e.where(), f"passes {show_(val)} for {show_(key)}")


def evaluation(ctx):
    names = "h1 t fa fb p q expr"
    overrides(ctx, "evaluation", "Evaluator", USE + pair_text(PAIRS, "", "Evaluator()", ".add_"), syms(names), names)
    forward_eval(ctx)
    last_rule(ctx)
    novalues(ctx)
    recursive_eval(ctx)
    no_default(ctx)
    transformer(ctx)
    sym_call(ctx)
    forward(ctx)


# ------------------------------------------------------------------ C13: registration

REG_HEAD = """
from protosym.core.sym import (SymEvaluator, SymDifferentiator, PyOp1, PyOp2, PyOpN, PyFunc1, AtomFunc, HeadOp,
                               AtomRule, HeadRule, WildCall, star)

def all_rules(ev_, h1, f1, h2, f2, hn, fn, g, t, fa, t2, fb, ga, p, q, expr):
    ev = SymEvaluator('name')
    ev[h1(p)] = PyOp1(f1)(p)
    ev[h2(p, q)] = PyOp2(f2)(p, q)
    ev[hn(star(p))] = PyOpN(fn)(p)
    ev[HeadRule(p, q)] = HeadOp(g)(p, q)
    ev[t[p]] = PyFunc1(fa)(p)
    ev[t2[p]] = PyFunc1(fb)(p)
    ev[AtomRule[p]] = AtomFunc(ga)(p)
    return ev(expr)

def replaced(ev_, h1, f1, f2, f3, f4, g, g2, t, fa, fb, ga, gb, p, q, expr):
    ev = SymEvaluator('name')
    ev[h1(p)] = PyOp1(f1)(p)
    ev[h1(star(p))] = PyOpN(f2)(p)
    ev[h1(p, q)] = PyOp2(f3)(p, q)
    ev[HeadRule(p, q)] = HeadOp(g)(p, q)
    ev[AtomRule[p]] = AtomFunc(ga)(p)
    ev[t[p]] = PyFunc1(fa)(p)
    ev[h1(q)] = PyOp1(f4)(q)
    ev[HeadRule(q, p)] = HeadOp(g2)(q, p)
    ev[AtomRule[q]] = AtomFunc(gb)(q)
    ev[t[q]] = PyFunc1(fb)(q)
    return ev(expr)
"""

PAIRS = ("op1(h1, {f})", "op2(h1, {f})", "opn(h1, {f})", "atom(t, {f})", "op_generic({f})", "atom_generic({f})")
SYM_PAIRS = ("[h1(p)] = PyOp1({f})(p)", "[h1(p, q)] = PyOp2({f})(p, q)", "[h1(star(p))] = PyOpN({f})(p)", "[t[p]] = PyFunc1({f})(p)",
             "[HeadRule(p, q)] = HeadOp({f})(p, q)", "[AtomRule[p]] = AtomFunc({f})(p)")
KIND = (0, 0, 0, 1, 2, 3)

PATTERNS = {"op0": "h()", "op1": "h(p)", "op2": "h(p, p2)", "star": "h(star(p))", "atom": "t[p]", "generic_atom": "AtomRule[p]", "generic_head": "HeadRule(p, p2)"}
CALLS = {"PyOp1": "PyOp1(f)(q)", "PyOp2": "PyOp2(f)(q, q2)", "PyOpN": "PyOpN(f)(q)", "PyFunc1": "PyFunc1(f)(q)", "AtomFunc": "AtomFunc(f)(q)",
         "HeadOp": "HeadOp(f)(q, q2)", "function": "len", "unwrapped": "WildCall(len, q)"}
MATCH = {("op1", "PyOp1"): 1, ("op2", "PyOp2"): 2, ("star", "PyOpN"): 1, ("atom", "PyFunc1"): 1, ("generic_atom", "AtomFunc"): 1, ("generic_head", "HeadOp"): 2,
         ("star", "PyOp1"): "star", ("op1", "PyOpN"): "starred"}


PARS = ("p",) + tuple(f"p{i}" for i in range(2, 50))


def reg_text(places=range(4)):
    out = [REG_HEAD]
    for a, pat in PATTERNS.items():
        for b, call in CALLS.items():
            out.append(f"def r_{a}_{b}(ev, h, p, p2, t, q, q2, f):\n    ev[{pat}] = {call}\n")
    for k in places:
        pat = f"h({', '.join(PARS[:k])})" if k else "h"
        out.append(f"def d{k}(diff, h, {', '.join(PARS[:max(k, 3)])}, q, r):\n    diff[{pat}, q] = r\n")
    out.append("def d_single(diff, h, p, p2, p3, q, r):\n    diff[h(p)] = r\n")
    out.append("def d_three(diff, h, p, p2, p3, q, r):\n    diff[h(p), q, q] = r\n")
    return "\n".join(out)


def expr_term(prog, n):
    return mk("symw", prog.cls_term(EXPR), mk("sym", n, T_type("inst", prog.cls_term(CORE + "tree.Tree"))))


def reg_args(prog, names):
    S = prog.cls_term(CORE + "sym.SymAtomType")
    out = []
    for n in names.split():
        if n == "ev":
            out.append(mk("sym", n, T_type("inst", prog.cls_term(CORE + "sym.SymEvaluator"))))
        elif n == "diff":
            out.append(mk("sym", n, T_type("inst", prog.cls_term(CORE + "sym.SymDifferentiator"))))
        elif n in ("t", "t2"):
            out.append(mk("sym", n, T_type("inst", S)))
        elif n[0] in "fg":
            out.append(mk("sym", n, T_type("func")))
        elif n == "ev_":
            out.append(NONE)
        else:
            out.append(expr_term(prog, n))
    return out


def outside(e):
    """The effect changes an object that existed before."""
    b = e.base
    return e.kind in ("mut", "setattr") and isinstance(b, T) and not (b.op == "obj" and b.args[0].era != "module")


def under(cn, gate):
    if any(c.op == "lret" and c.args[0].kind == "never" for c, _ in gate):
        return FALSE
    return cn.cond(conj([l for l in gate if l[0].op not in ("inloop", "iterates", "held", "lret", "broke")]))


def must_reject(ctx, rule, construct, r, facts, exc, leaves):
    cn = Canon(r.it, facts)
    good = True
    for o in r.returns:
        c = under(cn, o.gate)
        if c is FALSE:
            continue
        good = False
        w = next((e.where() for e in r.effects if outside(e)), o.where())
        (ctx.bad if closed(c, leaves) else ctx.und)(rule, construct, w, "the rule is accepted" + ("" if c is TRUE else f" when {show(c)}"))
    for e in r.effects:
        if outside(e):
            c = under(cn, e.gate)
            if c is not FALSE:
                good = False
                (ctx.bad if closed(c, leaves) else ctx.und)(rule, construct, e.where(), f"{show_(e.base)} is changed for a rule that has to be rejected" + ("" if c is TRUE else f" when {show(c)}"))
    seen = False
    for o in r.raises:
        c = under(cn, o.gate)
        if c is FALSE:
            continue
        cls = raised_class(ctx.prog, o.value)
        if exc in exc_names(cls):
            seen = True
        else:
            good = False
            (ctx.bad if closed(c, leaves) and cls is not None else ctx.und)(rule, construct, o.where(), f"raises {show_(o.value)} instead of {exc}")
    if good and seen:
        ctx.ok(rule, construct, where_of(r), f"raises {exc} and changes nothing")
    elif good:
        ctx.und(rule, construct, "", "no outcome")


def rejections(ctx, rule="reject"):
    prog = ctx.prog
    text = reg_text()
    names = "ev h p p2 t q q2 f"
    args = reg_args(prog, names)
    s = dict(zip(names.split(), args))
    tr = {k: v.args[1] for k, v in s.items() if v.op == "symw"}
    for a in PATTERNS:
        for b in CALLS:
            r = scenario(ctx, text, f"r_{a}_{b}", args)
            it = r.it
            e1, e2 = it.equal(tr["p"], tr["q"]), it.equal(tr["p2"], tr["q2"])
            m = MATCH.get((a, b))
            label = f"{PATTERNS[a]} = {CALLS[b]}"
            leaves = set(args) | set(tr.values())
            if m is None:
                sets = [({e1, e2}, ""), ({mk_not(e1), mk_not(e2)}, " with other operands")]
                if b == "PyOpN":
                    st = rep(it_star(r, s["q"]))
                    sets = [(set(), "")]
            elif m == 1:
                sets = [({mk_not(e1)}, " with other operands")]
            elif m == 2:
                sets = [({mk_not(e1), e2}, " with another first operand"), ({e1, mk_not(e2)}, " with another second operand"),
                        ({mk_not(e1), mk_not(e2), it.equal(tr["p"], tr["q2"]), it.equal(tr["p2"], tr["q"])}, " with exchanged operands")]
            elif m == "star":
                sets = [({mk_not(it.equal(rep(it_star(r, s["p"])), tr["q"]))}, " with other operands")]
            else:
                sets = [({mk_not(it.equal(tr["p"], rep(it_star(r, s["q"]))))}, " without star")]
            for facts, extra in sets:
                must_reject(ctx, rule, label + extra, r, facts, "BadRuleError", leaves)


def it_star(r, x):
    star_ = r.it.prog.find(CORE + "sym.Star")
    v = r.it.prog.modules[CORE + "sym"].ns.get("Star")
    return mk("symw", x.args[0], mk("tree", mk("tup", (v, rep(x)))))


def diff_registration(ctx, rule="derivative-rule"):
    prog = ctx.prog
    places = sizes(ctx, range(4))
    text = reg_text(places)
    SUBS = CORE + "tree.SubsFunc"
    opaque = (SUBS + ".__new__", SUBS + ".__init__")
    atom = expr_term(prog, "h")
    for n, k in [(f"d{k}", k) for k in places] + [("d_single", -1), ("d_three", -1)]:
        names = f"diff h {' '.join(PARS[:max(k, 3)])} q r"
        args = reg_args(prog, names)
        s = dict(zip(names.split(), args))
        tr = {k: v.args[1] for k, v in s.items() if v.op == "symw"}
        leaves = set(args) | set(tr.values())
        a2 = list(args)
        if n == "d0":
            N = Names(prog)
            a2[1] = mk("symw", prog.cls_term(EXPR), mk("treeatom", mk("atom", att(prog, "Symbol"), mk("sym", "name", T_type("str")))))
        r = scenario(ctx, text, n, a2, opaque=opaque)
        it = r.it
        pars = [tr[x] for x in PARS[:max(k, 0)]]
        eq = [it.equal(x, tr["q"]) for x in pars]
        if k <= 0:
            label = {"d0": "diff[atom, q] = r", "d_single": "diff[h(p)] = r", "d_three": "diff[h(p), q, q] = r"}[n]
            must_reject(ctx, rule, label, r, set(), "TypeError", leaves)
            continue
        label = f"diff[h({', '.join(PARS[:k])}), q] = r"
        must_reject(ctx, rule, label + " when q is no operand", r, {mk_not(e) for e in eq}, "TypeError", leaves)
        for i in range(k):
            for j in range(i) if k < 5 else {0, i - 1} - {i, -1}:
                must_reject(ctx, rule, f"{label} when operands {j + 1} and {i + 1} are q", r,
                            {eq[i], eq[j], it.equal(pars[i], pars[j])} | {mk_not(e) for m, e in enumerate(eq) if m not in (i, j)}, "TypeError", leaves)
            facts = {eq[i]} | {mk_not(e) for m, e in enumerate(eq) if m != i} | {mk_not(it.equal(pars[i], x)) for m, x in enumerate(pars) if m != i}
            cn = Canon(it, facts)
            c2 = f"{label} when operand {i + 1} is q"
            for o in r.raises:
                c = under(cn, o.gate)
                if c is not FALSE:
                    (ctx.bad if closed(c, leaves) else ctx.und)(rule, c2, o.where(), f"the rule is rejected ({show_(o.value)})")
            effs = [(e, under(cn, e.gate)) for e in r.effects if outside(e)]
            effs = [(e, c) for e, c in effs if c is not FALSE]
            if len(effs) == 1 and effs[0][1] is TRUE and effs[0][0].name == "setdefault":
                ctx.bad(rule, c2, effs[0][0].where(), "an earlier rule for the same operand is not replaced")
                continue
            if len(effs) != 1 or effs[0][1] is not TRUE or effs[0][0].name != "__setitem__":
                ctx.und(rule, c2, where_of(r), "registers " + "; ".join(f"{show_(e.base)}.{e.name} when {show(c)}" for e, c in effs))
                continue
            e = effs[0][0]
            key, v = cn(e.args[0]), cn(e.args[1])
            want = mk("tup", (tr["h"], const(i)))
            if key is want:
                ctx.ok(rule, c2, e.where(), f"registered for {show_(key)}")
            elif closed(key, leaves):
                ctx.bad(rule, c2, e.where(), f"registered for {show_(key)} instead of {show_(want)}")
            else:
                ctx.und(rule, c2, e.where(), show_(key))
            fa = None
            if v.op == "app" and v.args[0].op == "fn" and v.args[0].args[0].qual in opaque:
                fa = v.args[1][1:]
            elif v.op == "app" and v.args[0].op == "cls" and v.args[0].args[0].qual == SUBS:
                fa = v.args[1]
            if fa is None or len(fa) != 2:
                ctx.und(rule, c2 + " function", e.where(), show_(v))
                continue
            got = mk("tup", (fa[0], cn(fa[1])))
            wt = mk("tup", (tr["r"], mk("tup", tuple(pars))))
            if got is wt:
                ctx.ok(rule, c2 + " function", e.where(), show_(got))
            elif closed(got, leaves):
                ctx.bad(rule, c2 + " function", e.where(), f"the derivative is taken as {show_(got.args[0][0])} with parameters {show_(got.args[0][1])}")
            else:
                ctx.und(rule, c2 + " function", e.where(), show_(got))


def accepted(ctx, rule="accept"):
    """Well-formed rules are accepted and are used for exactly their pattern."""
    prog = ctx.prog
    for name, names in (("all_rules", "ev_ h1 f1 h2 f2 hn fn g t fa t2 fb ga p q expr"), ("replaced", "ev_ h1 f1 f2 f3 f4 g g2 t fa fb ga gb p q expr")):
        args = reg_args(prog, names)
        r = scenario(ctx, reg_text(), name, args, opaque=(FGRAPH,))
        r.s = dict(zip(names.split(), args))
        label = "rules" if name == "all_rules" else "rules registered again"
        s, it = r.s, r.it
        k = Case(r, names)
        k.s = {n: (t.args[1] if t.op == "symw" else mk("attr", t, "atom_type") if n in ("t", "t2") else t) for n, t in s.items()}
        facts0 = k.base | {mk_not(it.equal(k.s["p"], k.s["q"]))}
        cn = Canon(it, facts0)
        for o in r.raises:
            cls = raised_class(prog, o.value)
            c = under(cn, o.gate)
            if c is not FALSE and "BadRuleError" in exc_names(cls):
                (ctx.bad if closed(c, set(s.values()) | set(k.s.values())) else ctx.und)(rule, f"{label}: accepted", o.where(), "a well-formed rule is rejected" + ("" if c is TRUE else f" when {show(c)}"))
        got = graph_stack(ctx, rule, label, r, expr=k.s["expr"])
        if got is None:
            continue
        G, S, ap, at = got
        a, H, each = context(G, S)
        leaves = {G, S, a, H, *s.values(), *k.s.values()}
        app = mk("tup", (each,))
        AT, val = mk("attr", mk("attr", a, "value"), "atom_type"), mk("attr", mk("attr", a, "value"), "value")
        z = k.s
        if name == "all_rules":
            table = [("operations", H, ("h1", "h2", "hn"), "h1", mk("app", z["f1"], (each,), ())), ("operations", H, ("h1", "h2", "hn"), "h2", mk("app", z["f2"], (each,), ())),
                     ("operations", H, ("h1", "h2", "hn"), "hn", mk("app", z["fn"], (app,), ())), ("operations", H, ("h1", "h2", "hn"), None, mk("app", z["g"], (H, app), ())),
                     ("atoms", AT, ("t", "t2"), "t", mk("app", z["fa"], (val,), ())), ("atoms", AT, ("t", "t2"), "t2", mk("app", z["fb"], (val,), ())),
                     ("atoms", AT, ("t", "t2"), None, mk("app", z["ga"], (a,), ()))]
        else:
            table = [("operations", H, ("h1",), "h1", mk("app", z["f4"], (each,), ())), ("operations", H, ("h1",), None, mk("app", z["g2"], (H, app), ())),
                     ("atoms", AT, ("t",), "t", mk("app", z["fb"], (val,), ())), ("atoms", AT, ("t",), None, mk("app", z["gb"], (a,), ()))]
        for which, x, keys, hit, want in table:
            p = parts(r, G, S, facts0 | k.facts(x, keys, hit))
            if p is None or which not in p:
                ctx.und(rule, f"{label} {which}", at, show_(Canon(it)(S)))
                break
            leaf_check(ctx, rule, f"{label}: {which} {hit or 'generic'}", at, p[which], {want}, leaves, "value")


def registration(ctx):
    names = "ev_ h1 t fa fb p q expr"
    overrides(ctx, "accept", "SymEvaluator", REG_HEAD + pair_text(SYM_PAIRS, "ev_, ", "SymEvaluator('name')", ""), reg_args(ctx.prog, names), names)
    accepted(ctx)
    rejections(ctx)
    diff_registration(ctx)
