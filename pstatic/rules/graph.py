"""C10, C11, C15: sorting, forward graph and substitution."""
from __future__ import annotations

from .lib import *  # noqa
from .lib import ADMIN, Canon, rebuild_, case, closed, differ, exc_names, gate_under, raised_class, specialise, strip_seq, where_of

TREE = CORE + "tree."
SORT, SPLIT, FGRAPH = TREE + "topological_sort", TREE + "topological_split", TREE + "forward_graph"


def tree_sym(prog, name):
    return mk("sym", name, T_type("inst", prog.cls_term(TREE + "Tree")))


# ------------------------------------------------------------------ C10: the sort

def sort_modes(ctx, rule="sort", modes=((False, False), (False, True), (True, False), (True, True))):
    prog = ctx.prog
    f = prog.find(SORT)
    if f is None or f.op != "fn":
        raise AnalysisError("topological_sort not found")
    tr = T_type("inst", prog.cls_term(TREE + "Tree"))
    for heads, excl in modes:
        x = tree_sym(prog, "expression")
        ex = mk("sym", "exclude", T_type("setof", tr)) if excl else NONE
        kws = {"heads": const(heads), "exclude": ex}
        if not excl and not heads:
            kws = {}
        r = analyse_term(prog, f, [x], kws)
        ctx.note_run(r)
        facts = {mk_not(r.it.equal(ex, NONE))} if excl else set()
        sort_mode(ctx, rule, r, x, ex, heads, excl, facts)


def kids_of(c, heads):
    ch = mk("attr", c, "children")
    return ch if heads else mk("slice", ch, const(1), NONE, NONE)


def sort_mode(ctx, rule, r, x, ex, heads, excl, facts):
    label = f"topological_sort(heads={heads}, exclude={'set' if excl else 'None'})"
    prog = ctx.prog
    W0 = where_of(r)

    def und(what, text, at=W0):
        ctx.und(rule, f"{label} {what}", at, text)

    def bad(what, at, text):
        ctx.bad(rule, f"{label} {what}", at, text)

    def ok(what, at, text):
        ctx.ok(rule, f"{label} {what}", at, text)

    effs = []
    for e in r.effects:
        if e.kind != "mut":
            continue
        g = gate_under(e.gate, facts)
        if g is not None:
            effs.append((e, g, specialise(e.base, facts), tuple(specialise(a, facts) for a in e.args)))
    # the result list
    res = []
    for o in r.returns:
        g = gate_under(o.gate, facts)
        if g is not None:
            res.append((specialise(o.value, facts), g, o))
    main = [v for v, g, o in res if v.op == "obj" and v.args[0].kind == "list" and any(b is v and e.loops for e, _, b, _ in effs)]
    if len(set(main)) != 1:
        und("result", "the returned list is not built by the loop of the function itself")
        excluded_used(ctx, rule, label, r, ex, excl, W0)
        return
    R = main[0]
    for v, g, o in res:
        if v is R:
            continue
        if v.op == "obj" and not v.args[0].init and any(l[0].op == "contains" and l[0].args[1] is x and l[1] for l in g):
            ok("early return", o.where(), "nothing is listed for an excluded expression")
        else:
            und("early return", f"returns {show_(v)} when {show(conj(g))}", o.where())
    if R.args[0].init:
        und("result", "the result list starts with elements")
    emits = [(e, g, a) for e, g, b, a in effs if b is R]
    if any(e.name != "append" or not e.loops or len(a) != 1 for e, g, a in emits):
        und("emission", "the result is not only appended to")
        return
    # sets of seen expressions
    seen = {b for e, g, b, a in effs if b.op == "obj" and b.args[0].kind in ("set", "dict") and e.name in ("add", "__setitem__", "setdefault", "update")}
    for e, g, b, a in effs:
        for l in g:
            if l[0].op == "contains":
                q = specialise(l[0].args[0], facts)
                if q.op == "obj" and q.args[0].kind in ("set", "dict"):
                    seen.add(q)
    marks = [(e, g, a[0]) for e, g, b, a in effs if b in seen and e.name != "update" and a]
    stacks = {b for e, g, b, a in effs if b.op == "obj" and b.args[0].kind == "list" and b is not R and e.name in ("append", "extend", "insert")}
    for e, g, n in [(e, g, a[0]) for e, g, a in emits]:
        W, k = top_of(n)
        if W is None or W not in stacks:
            und("emission", f"emits {show_(n)}: the order of the traversal is not recognised", e.where())
            continue
        pushes = [(e2, g2, a2[0]) for e2, g2, b2, a2 in effs if b2 is W and e2.name == "append" and e2.loops and a2]
        if not pushes or any(b2 is W and e2.name in ("extend", "insert") for e2, g2, b2, a2 in effs):
            und("traversal", "pushes of operands are not recognised", e.where())
            continue
        comp = (lambda t: t if k is None else (t.args[0][k] if t.op == "tup" and len(t.args[0]) > k else None))
        # exhaustion
        exh = [l for l in g if (l[0].op == "broke" and not l[1]) or (l[0].op == "truth" and not l[1] and contains(l[0], lambda z: z is W))
               or (l[0].op == "exhausted" and l[1])]
        rest = [l for l in g if l not in exh and l[0].op not in ADMIN and not about(l[0], W, x, k)]
        rest = [l for l in rest if contains(l[0], lambda z: z is n or z is W)]
        if rest and all(plain(l[0], n, {n, *seen}) for l in rest):
            tested = [l for l in rest if l[0].op == "contains" and not l[1] and l[0].args[1] is n]
            if len(tested) != len(rest):
                bad("emission", e.where(), f"an expression is only listed when {show(conj([l for l in rest if l not in tested]))}")
                continue
        elif rest:
            und("emission", f"condition {show(conj(rest))}", e.where())
            continue
        if not exh:
            inner = [p for p in pushes if any(L in p[0].loops for L in e.loops)]
            if not [l for l in core_(g) if not about(l[0], W, x, k)] and inner and min(p[0].pos for p in inner) < e.pos:
                bad("order", e.where(), "an expression is listed although its operands have only just been put on the stack")
            elif e.pos < min(p[0].pos for p in inner or pushes) and not any(l[0].op in ("truth", "cmp", "all", "any") for l in g if contains(l[0], lambda z: z is W)):
                bad("order", e.where(), "an expression is listed before its operands were listed")
            else:
                und("order", "it is not recognised that all operands are listed before", e.where())
            continue
        inner = {L for l in exh if l[0].op == "broke" for p in pushes for L in p[0].loops if L is l[0].args[0] and L.kind == "while" and L.cond is not None}
        odd = [l for L in inner for l in lits(specialise(L.cond, facts)) if not (l[0].op == "truth" and l[1]) and not emptiness(l[0]) and not l[0].op == "const"]
        if odd:
            (bad if all(closed(l[0], {n, W, *seen, R}) for l in odd) else und)(
                *(("order", e.where(), f"the remaining operands are left out unless {show(conj(odd))}") if all(closed(l[0], {n, W, *seen, R}) for l in odd)
                  else ("order", f"operands are visited while {show(conj(odd))}", e.where())))
            continue
        ok("order", e.where(), "an expression is listed when all its operands have been visited")
        # pushes
        for pe, pg, pa in pushes:
            c = comp(pa)
            if c is None:
                und("push", f"pushes {show_(pa)}", pe.where())
                continue
            tests = [l for l in pg if l[0].op == "contains" and not l[1] and l[0].args[1] is c and specialise(l[0].args[0], facts) in seen]
            foreign = [l for l in pg if contains(l[0], lambda z: z is c) and l not in tests and l[0].op not in ADMIN]
            if not tests:
                if any(l[0].op == "contains" and contains(l[0].args[1], lambda z: z is c) for l in foreign) or not seen or not all(closed(l[0], {c, W, *seen}) for l in foreign):
                    und("push", f"visits {show_(c)} under {show(conj(foreign))}", pe.where())
                else:
                    bad("push", pe.where(), "an operand is visited without checking that it was not visited before")
                continue
            if foreign:
                if all(plain(l[0], c, {c, *seen}) for l in foreign):
                    bad("push", pe.where(), f"an operand is only visited when {show(conj(foreign))}")
                else:
                    und("push", f"condition {show(conj(foreign))}", pe.where())
                continue
            ok("push", pe.where(), "every operand not visited before is visited")
            S = specialise(tests[0][0].args[0], facts)
            good = False
            for me, mg, m in marks:
                same = (m is c and set(core_(mg)) - set(core_(pg)) == set()) or (m is n and set(core_(mg)) - set(core_(g)) == set())
                good = good or same
            mine = [m for m in marks if m[2] is c or m[2] is n]
            if good:
                ok("mark", mine[0][0].where(), "a visited expression is marked")
            elif mine and all(closed(l[0], {c, n, W, *seen}) for m in mine for l in core_(m[1])):
                extra = [l for l in core_(mine[0][1]) if l not in pg and l not in g]
                bad("mark", mine[0][0].where(), f"an expression is only marked as visited when {show(conj(extra))}")
            elif not marks:
                bad("mark", pe.where(), "visited expressions are never marked")
            else:
                und("mark", "marking of visited expressions not recognised", pe.where())
            # what is pushed with it
            ks = [t for t in (pa.args[0] if pa.op == "tup" else ()) if t is not c]
            operands(ctx, rule, label, pe.where(), ks, c, heads, facts)
            # where the child comes from
            if not contains(c, lambda z: z is W) and not (c.op in ("elem", "idx") and contains(c, lambda z: z is n)):
                und("child", f"{show_(c)} is not taken from the expression at the top", pe.where())
            # seen starts with the excluded ones
            init = [strip_seq(t.args[0]) if t.op == "star" else t for t in S.args[0].init] if S.args[0].kind == "set" else None
            upd = [a for e3, g3, b3, a in effs if b3 is S and e3.name == "update" and not e3.loops]
            if init is not None:
                init += [t for a in upd for t in a]
            if init is None:
                und("excluded", "the set of visited expressions is not recognised", pe.where())
            elif excl and ex in init and all(t in (ex, x) for t in init):
                ok("excluded", pe.where(), "excluded expressions count as visited")
            elif excl and ex not in init and closed(mk("tup", tuple(init)), {x}) and not any(
                    contains(l[0], lambda z: z is ex) for l in pg if l[0].op == "contains"):
                bad("excluded", pe.where(), "excluded expressions are visited")
            elif excl and any(t.op == "bin" and t.args[0] in "-&^" and contains_obj(t, ex) for t in init):
                bad("excluded", pe.where(), f"only {show_(mk('tup', tuple(init)))} is left out")
            elif not excl and all(t.op == "tup" and not t.args[0] or t is x for t in init):
                ok("excluded", pe.where(), "nothing counts as visited at the start")
            else:
                und("excluded", f"visited at the start: {show_(mk('tup', tuple(init)))}", pe.where())
        # the start
        start(ctx, rule, label, r, W, k, x, ex, excl, seen, heads, facts, e, g)
    early(ctx, rule, label, r, emits, facts, W0, {R, *seen, *stacks}, stacks)


def plain(c, n, leaves):
    """A condition on n alone (its structure, or membership in a known set)."""
    return closed(c, leaves) and not contains_leaf(c, leaves, lambda z: z.op in ADMIN or z.op in ("broke", "mu", "popped") or z.op == "obj" and z not in leaves)


def contains_leaf(t, leaves, pred):
    stack = [t]
    while stack:
        s = stack.pop()
        if isinstance(s, tuple):
            stack.extend(s)
        elif isinstance(s, T) and s not in leaves:
            if pred(s):
                return True
            stack.extend(s.args)
    return False


def contains_obj(t, x):
    """t mentions x, looking into the initial contents of fresh containers."""
    return any(s is x or s.op == "obj" and s is not t and any(contains(i, lambda z: z is x) for i in s.args[0].init if isinstance(i, T)) for s in subterms(t))


def core_(g):
    return [l for l in g if l[0].op not in ADMIN]


def top_of(n):
    """n is component k of the top of stack W: (W, k)."""
    k = None
    if n.op == "idx" and n.args[1].op == "const" and n.args[0].op in ("idx", "popped"):
        k, n = n.args[1].args[0], n.args[0]
    if n.op == "idx" and is_const(n.args[1], -1) and n.args[0].op == "obj":
        return n.args[0], k
    if n.op == "popped" and n.args[0].op == "obj" and not n.args[1]:
        return n.args[0], k
    return None, None


def about(c, W, x, k):
    """A condition that only asks whether the stack is empty or whether the whole expression is excluded."""
    if c.op == "truth" and c.args[0] is W:
        return True
    if emptiness(c, W):
        return True
    if c.op == "contains" and c.args[1] is x:
        return True
    return False


def emptiness(c, W=None):
    """A comparison of the length of a list with a number that only tells whether the list is empty."""
    if c.op != "cmp" or c.args[0] not in ("==", "<"):
        return False
    a, b = c.args[1:]
    for n, k, left in ((a, b, True), (b, a, False)):
        if n.op == "app" and n.args[0] is ext("builtins.len") and k.op == "const" and isinstance(k.args[0], int) and (W is None or n.args[1] == (W,)):
            k = k.args[0]
            holds = (lambda i: i == k) if c.args[0] == "==" else (lambda i: i < k) if left else (lambda i: k < i)
            return all(holds(i) != holds(0) for i in {1, 2, 3} | {j for j in (k - 1, k, k + 1) if j > 0})
    return False


def operands(ctx, rule, label, at, ks, c, heads, facts):
    want = kids_of(c, heads)
    got = [strip_seq(t) for t in ks]
    if want in got:
        ctx.ok(rule, f"{label} operands of {show(c, 2)}", at, show_(want))
        return
    ch = mk("attr", c, "children")
    near = [t for t in got if contains(t, lambda z: z is ch)]
    if near and closed(near[0], {c}):
        ctx.bad(rule, f"{label} operands", at, f"the operands visited are {show_(near[0])} instead of {show_(want)}")
    else:
        ctx.und(rule, f"{label} operands", at, "the operands to be visited are not recognised")


def start(ctx, rule, label, r, W, k, x, ex, excl, seen, heads, facts, e, g):
    o = W.args[0]
    init = [specialise(t, facts) for t in o.init]
    pushes = [specialise(q.args[0], facts) for q in r.effects if q.kind == "mut" and q.name == "append" and not q.loops and specialise(q.base, facts) is W]
    items = init + pushes
    if len(items) != 1:
        ctx.und(rule, f"{label} start", e.where(), "the traversal does not start with the expression alone")
        return
    t = items[0]
    c = t if k is None else (t.args[0][k] if t.op == "tup" and len(t.args[0]) > k else None)
    if c is not x:
        ctx.und(rule, f"{label} start", e.where(), f"starts with {show_(t)}")
        return
    operands(ctx, rule, label, e.where(), [y for y in t.args[0] if y is not c] if t.op == "tup" else [], x, heads, facts)
    tests = [l for l in g if l[0].op == "contains" and l[0].args[1] is x]
    others = [l for l in g if contains(l[0], lambda z: z is x) and l not in tests and not contains(l[0], lambda z: z is W)]
    anytest = tests or [l for q in r.effects for l in q.gate if l[0].op == "contains" and l[0].args[1] is x] or \
        [l for o2 in r.returns for l in o2.gate if l[0].op == "contains" and l[0].args[1] is x]
    if excl and not anytest:
        if any(l[0].op == "contains" and contains(l[0].args[0], lambda z: z is ex or z in seen) for q in r.effects for l in q.gate
               if l[0].op == "contains" and contains(l[0].args[1], lambda z: z is W)) and any(
                l[0].op == "contains" and l[0].args[1] is top for l in g for top in [e.args[0]]):
            ctx.ok(rule, f"{label} root", e.where(), "the expression itself is tested like any other")
        else:
            ctx.bad(rule, f"{label} root", e.where(), "the expression itself is listed even when it is excluded")
    elif others and closed(conj(others), {x, *seen}):
        ctx.bad(rule, f"{label} root", e.where(), f"nothing is listed unless {show(conj(others))}")
    elif others:
        ctx.und(rule, f"{label} root", e.where(), f"condition {show(conj(others))}")
    else:
        ctx.ok(rule, f"{label} root", e.where(), "the expression is visited unless it is excluded")


def early(ctx, rule, label, r, emits, facts, W0, known, stacks):
    """The loop runs until nothing is left."""
    loops = {L for e, g, a in emits for L in e.loops}
    for L in loops:
        if L.kind == "while" and L.cond is not None:
            cs = lits(specialise(L.cond, facts))
            cs = [l for l in cs if contains(l[0], lambda z: z in known or z.op in ("mu", "out"))]
            odd = [l for l in cs if not (l[0].op == "contains" and l[0].args[1].op == "sym") and not (l[0].op == "truth" and l[0].args[0] in stacks)
                   and not (emptiness(l[0]) and contains(l[0], lambda z: z in stacks))]
            if any(l[0].op == "truth" and contains(l[0], lambda z: z.op == "mu") for l in odd):
                ctx.und(rule, f"{label} end", W0, f"the traversal stops unless {show(conj(odd))}")
            elif odd and all(closed(l[0], known) or any(z.op == 'mu' for z in subterms(l[0])) for l in odd):
                ctx.bad(rule, f"{label} end", W0, f"the traversal stops unless {show(conj(odd))}")
            elif odd:
                ctx.und(rule, f"{label} end", W0, f"loop condition {show(conj(odd))}")
            else:
                ctx.ok(rule, f"{label} end", W0, "the traversal runs until the stack is empty")


def excluded_used(ctx, rule, label, r, ex, excl, W0):
    if not excl:
        return
    for e in r.effects:
        if any(contains(t, lambda z: z is ex) for t in list(e.args) + [e.base] + [l[0] for l in e.gate] if isinstance(t, T)):
            return
        if isinstance(e.base, T) and e.base.op == "obj" and any(contains(t, lambda z: z is ex) for t in e.base.args[0].init if isinstance(t, T)):
            return
    if not any(e.kind == "call" for e in r.effects):
        ctx.bad(rule, f"{label} excluded", W0, "excluded expressions have no influence on the result")


# ------------------------------------------------------------------ C10: the split

def one_call(ctx, r, qual):
    """The only call of an opaque function in a run: the application term, or None."""
    f = r.it.prog.find(qual)
    cs = [e for e in r.effects if e.kind == "call" and e.base is f]
    if len(cs) != 1:
        return None
    for t in all_terms(r):
        for s in subterms(t):
            if s.op == "app" and s.args[0] is f:
                return s
    return None


def all_terms(r):
    for e in r.effects:
        yield from (a for a in e.args if isinstance(a, T))
        yield from (l[0] for l in e.gate)
        if isinstance(e.base, T):
            yield e.base
            if e.base.op == "obj":
                yield from (t for t in e.base.args[0].init if isinstance(t, T))
        for L in e.loops:
            if L.it is not None:
                yield L.it
    for o in r.returns + r.raises:
        yield o.value
        yield from (l[0] for l in o.gate)


def split_rule(ctx, rule="split"):
    prog = ctx.prog
    r = ctx.run(SPLIT, opaque=(SORT,))
    x, ex = r.param("expr"), None
    S = one_call(ctx, r, SORT)
    W0 = where_of(r)
    ps = [p for p in r.fn.node.args.args + r.fn.node.args.kwonlyargs]
    x = mk("sym", ps[0].arg, None) if x is None else x
    if S is None:
        ctx.und(rule, "topological_split", W0, "does not use topological_sort exactly once")
        return
    kws = dict(S.args[2])
    args = S.args[1]
    exs = [s for s in subterms(mk("tup", tuple(kws.values()))) if s.op == "sym" and s.args[0] == "exclude"]
    okx = "exclude" in kws and strip_seq(kws["exclude"]).op == "sym" and strip_seq(kws["exclude"]).args[0] == "exclude"
    if args and args[0].op == "sym" and okx and is_const(kws.get("heads", FALSE), False):
        ctx.ok(rule, "topological_split sort", W0, show_(S))
    elif "exclude" not in kws or is_const(kws["exclude"], None):
        ctx.bad(rule, "topological_split sort", W0, "excluded expressions are not passed on to the sort")
    elif is_const(kws.get("heads", FALSE), True):
        ctx.bad(rule, "topological_split sort", W0, "heads are sorted as if they were operands")
    else:
        ctx.und(rule, "topological_split sort", W0, show_(S))
    cn = Canon(r.it)
    b = mk("bel", S, 0)
    ch = mk("attr", b, "children")
    comp = r.it.truth(ch)
    want = {
        "atoms": (("tup",), mk_not(comp), b),
        "heads": (("setof",), comp, mk("idx", ch, const(0))),
        "nodes": (("tup",), comp, b),
    }
    for o in r.returns:
        v = cn(o.value)
        if v.op != "tup" or len(v.args[0]) != 3:
            ctx.und(rule, "topological_split result", o.where(), show_(v))
            continue
        if [l for l in o.gate if l[0].op not in ADMIN]:
            ctx.und(rule, "topological_split result", o.where(), f"returned when {show(conj(o.gate))}")
        for (name, (ops, gate, val)), got in zip(want.items(), v.args[0]):
            w = (mk("each", (S,), gate, val),)
            if got.op in ops and got.args[0] == w:
                ctx.ok(rule, f"topological_split {name}", o.where(), show_(got))
            elif closed(got, {S}) or got.op in ("tup", "setof") and closed(mk("tup", got.args[0]), {S}):
                ctx.bad(rule, f"topological_split {name}", o.where(), f"{name} are {show_(got)} instead of {show_(mk('tup', w))}")
            else:
                ctx.und(rule, f"topological_split {name}", o.where(), show_(got))


def sorting(ctx):
    sort_modes(ctx)
    split_rule(ctx)


# ------------------------------------------------------------------ C11: the forward graph

def lin_of(t):
    """Linear form ({term: coefficient}, constant) of an integer term."""
    if t.op == "const" and type(t.args[0]) is int:
        return {}, t.args[0]
    if t.op == "lin":
        return dict(t.args[0]), t.args[1]
    if t.op == "bin" and t.args[0] in "+-":
        (a, c), (b, d) = lin_of(t.args[1]), lin_of(t.args[2])
        s = 1 if t.args[0] == "+" else -1
        for k, v in b.items():
            a[k] = a.get(k, 0) + s * v
        return {k: v for k, v in a.items() if v}, c + s * d
    return {t: 1}, 0


def len_(t):
    return mk("app", ext("builtins.len"), (t,), ())


def count_at(r, e, t):
    """The number of elements of a list of the function at effect e, as a linear form: one element per iteration of one loop, appended
    unconditionally. None when that is not so."""
    if not (t.op == "app" and t.args[0].op == "ext" and t.args[0].args[0] == "builtins.len" and len(t.args[1]) == 1):
        return None
    o = t.args[1][0]
    if o.op != "obj" or o.args[0].kind != "list":
        return None
    grow = [q for q in r.effects if q.kind == "mut" and q.base is o]
    init = list(o.args[0].init)
    base, c = {}, 0
    for x in init:
        if x.op == "star":
            base[len_(x.args[0])] = base.get(len_(x.args[0]), 0) + 1
        else:
            c += 1
    for q in grow:
        if q.name != "append" or [l for l in q.gate if l[0].op not in ADMIN] or len(q.loops) != 1:
            return None
        L = q.loops[0]
        if e.loops and e.loops[0] is L:
            base[mk("idxvar", L)] = base.get(mk("idxvar", L), 0) + 1
            if q.pos < e.pos:
                c += 1
        elif q.pos < e.pos:
            d = r.it.domain(L)
            base[len_(d)] = base.get(len_(d), 0) + 1
    return base, c


def position(r, e, t):
    """Linear form of a position with list lengths and loop indices resolved."""
    a, c = lin_of(t)
    out = {}
    for k, v in a.items():
        n = count_at(r, e, k)
        if n is None:
            out[k] = out.get(k, 0) + v
            continue
        for k2, v2 in n[0].items():
            out[k2] = out.get(k2, 0) + v * v2
        c += v * n[1]
    return {k: v for k, v in out.items() if v}, c


def pos_of_op(lf, atoms, L, canon):
    """lf is len(atoms) + index of loop L"""
    f, c = lf
    f = {canon(k) if k.op != "idxvar" else k: v for k, v in f.items()}
    return c == 0 and f == {len_(atoms): 1, mk("idxvar", L): 1}


def known_pos(lf, leaves):
    return all(closed(k, leaves) or k.op == "idxvar" for k in lf[0])


def entered(r, D, e, v):
    """len(D) in front of a write of D, when every iteration of every loop enters one new key: the entries of the loops before and the iterations of this one."""
    if not (v.op == "app" and v.args[0] is LEN and v.args[1] == (D,)) or D.args[0].init or len(e.loops) != 1:
        return None
    f = {mk("idxvar", e.loops[0]): 1}
    for q in r.effects:
        if q.base is not D or q.kind not in ("mut", "havoc") or q is e or q.kind == "havoc" and q.args and isinstance(q.args[0], T) and q.args[0].op == "inloop":
            continue
        if q.kind != "mut" or q.name != "__setitem__" or len(q.loops) != 1 or q.loops == e.loops or [l for l in q.gate if l[0].op not in ADMIN] or q.loops[0].it is None \
                or getattr(q.loops[0], "breaks", None):
            return None
        if q.pos < e.pos:
            d = len_(strip_order(Canon(r.it)(r.it.domain(q.loops[0]))))
            f[d] = f.get(d, 0) + 1
    return f, 0


def index_writes(ctx, rule, label, r, D, expected, leaves, distinct=False):
    """Every write into the index table D against expected: list of (name, key term, check(effect, value) -> bool).  Returns the names seen."""
    got = set()
    cn = Canon(r.it)
    for e in r.effects:
        if e.kind != "mut" or e.base is not D:
            continue
        if e.name == "update" and e.args and e.args[0].op == "obj" and e.args[0].args[0].kind == "dict":
            continue
        if e.name not in ("__setitem__", "setdefault") or len(e.args) != 2:
            ctx.und(rule, f"{label} index table", e.where(), f"{e.name}{show_(tuple(e.args))}")
            continue
        k, v = e.args
        for name, key, check in expected:
            if key(k, e):
                gate = [l for l in e.gate if l[0].op not in ADMIN]
                lf = distinct and entered(r, D, e, v) or position(r, e, v)
                same = [q for q in r.effects if q.kind == "mut" and q.base is D and q.name == e.name and q.loops == e.loops and len(q.args) == 2 and q.args[0] is k]
                if gate and covers(mk_or([conj(core_(q.gate)) for q in same])):
                    gate = []
                elif gate and not check(lf, e) and known_pos(lf, leaves) and not any(q.pos > e.pos and conj(tuple(q.gate) + tuple(e.gate)) is not FALSE for q in same):
                    gate = []
                if gate and not all(closed(l[0], leaves) for l in gate):
                    ctx.und(rule, f"{label} position of {name}", e.where(), f"recorded when {show(conj(gate))}")
                elif gate:
                    ctx.bad(rule, f"{label} position of {name}", e.where(), f"the position is only recorded when {show(conj(gate))}")
                elif check(lf, e):
                    ctx.ok(rule, f"{label} position of {name}", e.where(), show_(v))
                elif not distinct and (lf2 := entered(r, D, e, v)) is not None and check(lf2, e) and (len(lf2[0]) > 1 or name == "parameters"):
                    ctx.bad(rule, f"{label} position of {name}", e.where(), f"{name} are recorded at position {show_(v)}, which is less than the number of parameters when a parameter is given twice")
                elif known_pos(lf, leaves):
                    ctx.bad(rule, f"{label} position of {name}", e.where(), f"{name} are recorded at position {show_(v)}")
                else:
                    ctx.und(rule, f"{label} position of {name}", e.where(), f"position {show_(v)}")
                got.add(name)
                break
        else:
            if k.op == "elem" and k.args[0].op == "obj" and k.args[0].args[0].kind == "set" and contains(v, lambda z: z.op == "idxvar"):
                ctx.bad(rule, f"{label} index table", e.where(), f"positions are given in the iteration order of a set: {show_(k.args[0])}")
                continue
            of = k.args[0] if k.op in ("elem", "key") else None
            if of is not None and of.op == "app" and of.args[0].op == "ext" and of.args[0].args[0] in ("builtins.dict.fromkeys", "builtins.sorted", "builtins.set", "builtins.frozenset") \
                    and of.args[1] and strip_seq(of.args[1][0]).op == "sym" and len(e.loops) == 1 and v is mk("idxvar", e.loops[0]):
                ctx.bad(rule, f"{label} index table", e.where(), f"positions are counted in {show_(of)}, which is not in step with {show_(of.args[1][0])}"
                        + (" when a parameter is given twice" if of.args[0].args[0].endswith("fromkeys") else ""))
                continue
            ctx.und(rule, f"{label} index table", e.where(), f"entry {show_(k)}: {show_(v)}")
            got.add(None)
    return got


def fgraph_rule(ctx, rule="graph"):
    prog = ctx.prog
    r = ctx.run(FGRAPH, opaque=(SPLIT,))
    W0 = where_of(r)
    S = one_call(ctx, r, SPLIT)
    if S is None:
        ctx.und(rule, "forward_graph", W0, "does not use topological_split exactly once")
        return
    ps = r.fn.node.args.args
    if not (S.args[1] and S.args[1][0].op == "sym" and S.args[1][0].args[0] == ps[0].arg and not [1 for k, v in S.args[2] if not is_const(v, None)]
            and len(S.args[1]) == 1):
        (ctx.bad if closed(mk("tup", S.args[1]), ()) else ctx.und)(rule, "forward_graph argument", W0, f"sorts {show_(S)}")
        return
    A, H, N = (mk("idx", S, const(i)) for i in range(3))
    leaves = {A, H, N}
    cn = Canon(r.it)
    fields = {}
    for o in r.returns:
        if [l for l in o.gate if l[0].op not in ADMIN]:
            ctx.und(rule, "forward_graph result", o.where(), f"returned when {show(conj(o.gate))}")
        v = o.value
        if not (v.op == "obj" and v.args[0].kind == "inst"):
            ctx.und(rule, "forward_graph result", o.where(), show_(v))
            return
        for e in r.effects:
            if e.kind == "setattr" and e.base is v:
                fields[e.name] = (e.args[0], e)
    for name, want in (("atoms", A), ("heads", H)):
        v, e = fields.get(name, (None, None))
        if v is None:
            ctx.und(rule, f"forward_graph {name}", W0, "not found")
            continue
        got = strip_order(cn(v))
        if got is want:
            ctx.ok(rule, f"forward_graph {name}", e.where(), show_(got))
        elif closed(cn(v), leaves):
            ctx.bad(rule, f"forward_graph {name}", e.where(), f"{name} are {show_(cn(v))} instead of {show_(want)}")
        else:
            ctx.und(rule, f"forward_graph {name}", e.where(), show_(cn(v)))
    v, e = fields.get("operations", (None, None))
    if v is None:
        ctx.und(rule, "forward_graph operations", W0, "not found")
        return
    ops = unversion(cn(v))
    n = mk("bel", N, 0)
    c = mk("bel", mk("slice", mk("attr", n, "children"), const(1), NONE, NONE), 1)
    ds = {s.args[0] for s in subterms(ops) if s.op == "idx" and s.args[0].op == "obj" and s.args[0].args[0].kind == "dict"}
    D = next(iter(ds)) if len(ds) == 1 else None
    if D is None:
        lists = {s for s in subterms(ops) if s.op == "obj" and s.args[0].kind == "list"}
        moved = [q for q in r.effects if q.kind == "mut" and q.base in lists and q.name in ("sort", "reverse")]
        if moved:
            ctx.bad(rule, "forward_graph operations", moved[0].where(), f"the positions of the operands are rearranged by {moved[0].name}()")
            return
        f = ctx.und if not closed(ops, leaves) else ctx.bad
        f(rule, "forward_graph operations", e.where(), f"operations are {show_(ops)}: operands are not looked up in one table of positions")
        return
    want = mk("tup", (mk("each", (N,), TRUE, mk("tup", (
        mk("idx", mk("attr", n, "children"), const(0)),
        mk("tup", (mk("each", (mk("slice", mk("attr", n, "children"), const(1), NONE, NONE),), TRUE, mk("idx", D, c)),))))),))
    if ops is want:
        ctx.ok(rule, "forward_graph operations", e.where(), show_(ops))
    elif closed(ops, leaves | {D}):
        ctx.bad(rule, "forward_graph operations", e.where(), f"operations are {show_(ops)} instead of {show_(want)}")
    else:
        ctx.und(rule, "forward_graph operations", e.where(), show_(ops))
    def is_atom(k, e):
        return cn_key(r, k, e) is mk("bel", A, 0)

    def is_node(k, e):
        return cn_key(r, k, e) is mk("bel", N, 0)

    exp = [
        ("atoms", is_atom, lambda lf, e: lf[1] == 0 and len(e.loops) == 1 and lf[0] == {mk("idxvar", e.loops[0]): 1}),
        ("operations", is_node, lambda lf, e: len(e.loops) == 1 and pos_of_op(lf, A, e.loops[0], cn)),
    ]
    got = index_writes(ctx, rule, "forward_graph", r, D, exp, leaves, distinct=True)
    init = [x for x in D.args[0].init if not (x.op == "tup" and not x.args[0])]
    for name in ("atoms", "operations"):
        if name not in got and not init and not got & {None} and not [x for x in r.effects if x.base is D and x.kind in ("mut", "havoc", "call") and x.name not in ("__setitem__", "content")]:
            ctx.bad(rule, f"forward_graph position of {name}", W0, "no position is recorded")
        elif name not in got:
            ctx.und(rule, f"forward_graph position of {name}", W0, "recording of positions not recognised")
    # the lookup of an operand happens in the same loop, before or after its own entry: operands were entered in earlier iterations
    opl = [x for x in r.effects if x.kind == "mut" and x.base is v and x.loops]
    if opl and all(r.it.domain(x.loops[0]) is not N for x in opl) and closed(r.it.domain(opl[0].loops[0]), leaves):
        ctx.bad(rule, "forward_graph order", opl[0].where(), f"operations are made in the order of {show_(r.it.domain(opl[0].loops[0]))}")


def unversion(t):
    """Lookups in tables without the version of the table."""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T) or x.op in ("const", "obj", "sym"):
            return x
        r = memo.get(x)
        if r is None:
            memo[x] = x
            new = tuple(go(y) for y in x.args)
            r = mk("idx", new[0], new[1]) if x.op == "idx" else (x if new == x.args else mk(x.op, *new))
            memo[x] = r
        return r
    return go(t)


def strip_order(t):
    """list(x), [*x], tuple(x): the same elements in the same order."""
    while True:
        if t.op == "obj" and t.args[0].kind in ("list",) and len(t.args[0].init) == 1 and t.args[0].init[0].op == "star":
            t = t.args[0].init[0].args[0]
        elif t.op in ("tup", "setof") and len(t.args[0]) == 1 and t.args[0][0].op == "star":
            t = t.args[0][0].args[0]
        elif t.op == "seqof":
            t = t.args[0]
        else:
            return t


def cn_key(r, k, e):
    """The key written by effect e as an element of the (only) loop around it."""
    if len(e.loops) != 1:
        return k
    return Canon(r.it)(k, 1, {e.loops[0]: 0})


def forward(ctx):
    fgraph_rule(ctx)
    sort_modes(ctx, modes=((False, False),))
    split_rule(ctx)


# ------------------------------------------------------------------ C15: substitution

SUBS = TREE + "SubsFunc"


def lits_of(gate):
    return [l for l in gate if l[0].op not in ADMIN]


def is_kids(t, b):
    """t holds the children (head included) of b."""
    t = strip_seq(t)
    if t.op == "obj" and t.args[0].kind == "set" and len(t.args[0].init) == 1 and t.args[0].init[0].op == "star":
        t = strip_seq(t.args[0].init[0].args[0])
    if t.op == "setof" and len(t.args[0]) == 1 and t.args[0][0].op == "star":
        t = strip_seq(t.args[0][0].args[0])
    return t is mk("attr", b, "children")


def common(c):
    """c says whether two collections have an element in common: (x, y, polarity)."""
    if c.op == "truth" and c.args[0].op == "bin" and c.args[0].args[0] == "&":
        return (*c.args[0].args[1:], True)
    if c.op == "truth" and c.args[0].op == "setop" and c.args[0].args[0] == "intersection" and len(c.args[0].args[2]) == 1:
        return c.args[0].args[1], c.args[0].args[2][0], True
    if c.op == "truth" and c.args[0].op == "app" and c.args[0].args[0].op == "attr" and c.args[0].args[0].args[1] == "isdisjoint" and len(c.args[0].args[1]) == 1:
        return c.args[0].args[0].args[0], c.args[0].args[1][0], False
    return None


def meets(l, b):
    """The set H when literal l says that the children of b and H have an element in common: (H, polarity)."""
    c, pol = l
    xy = common(c)
    if xy is not None:
        x, y, p = xy
        if is_kids(x, b):
            return y, pol == p
        if is_kids(y, b):
            return x, pol == p
    if c.op in ("all", "any") and len(c.args) == 2 and is_kids(c.args[0], b):
        d = c.args[1]
        if c.op == "all" and d.op == "not" and d.args[0].op == "contains" and d.args[0].args[1].op in ("belem", "bel"):
            return d.args[0].args[0], not pol
        if c.op == "any" and d.op == "contains" and d.args[1].op in ("belem", "bel"):
            return d.args[0], pol
    return None


def some_kids(c, b):
    """A test for common elements that looks at a part of the children only."""
    xy = common(c)
    if xy is not None:
        for t in xy[:2]:
            t = strip_seq(t)
            if t.op == "obj" and t.args[0].kind == "set" and len(t.args[0].init) == 1 and t.args[0].init[0].op == "star":
                t = strip_seq(t.args[0].init[0].args[0])
            if t.op == "slice" and strip_seq(t.args[0]) is mk("attr", b, "children") and t.args[1] is not NONE:
                return True
    if c.op in ("all", "any"):
        t = strip_seq(c.args[0])
        return t.op == "slice" and strip_seq(t.args[0]) is mk("attr", b, "children") and t.args[1] is not NONE
    return False


def subs_rule(ctx, rule="substitution"):
    prog = ctx.prog
    C = prog.cls_term(SUBS)
    names = replay_rule(ctx, rule, C)
    compile_rule(ctx, rule, C, names)


def replay_rule(ctx, rule, C):
    """How a compiled substitution is applied: the names of the fields by their use."""
    prog = ctx.prog
    me = mk("sym", "self", T_type("inst", C))
    names = {}
    for meth, args in (("call", [mk("sym", "args", None)]), ("__call__", [mk("star", mk("sym", "args", None))])):
        m = C.args[0].lookup(meth)[0]
        if m is None:
            if meth == "__call__":
                raise AnalysisError("SubsFunc.__call__ not found")
            continue
        r = analyse_term(prog, mk("bound", me, m), args, {})
        ctx.note_run(r)
        label = f"SubsFunc.{meth}"
        W0 = f"{m.args[0].module.rel}:{m.args[0].node.lineno}"
        cn = Canon(r.it)
        n_ = len_(mk("sym", "args", None))
        for o in r.returns:
            v = cn(o.value)
            got = None
            if v.op == "idx" and v.args[1].op == "attr" and v.args[1].args[0] is me and o.value.op == "idx":
                got = stack_of(r, cn, me, o.value.args[0], v.args[0])
            elif v.op == "idx" and v.args[1].op == "const" and o.value.op == "idx":
                got = stack_of(r, cn, me, o.value.args[0], v.args[0])
                if got is not None:
                    ctx.bad(rule, f"{label} result", o.where(), f"the result is taken from position {show_(v.args[1])} whatever the expression is")
                    continue
            if got is None:
                if closed(v, {me}) and v.op != "phi" and not contains(v, lambda z: z.op == "each"):
                    ctx.bad(rule, f"{label} result", o.where(), f"the result is {show_(v)}")
                else:
                    ctx.und(rule, f"{label} result", o.where(), show_(v))
                continue
            A, O, verdict, text, order = got
            names.update(atoms=A, operations=O, result=v.args[1].args[1], order=order)
            ctx.decide(verdict, rule, f"{label} replay", o.where(), text)
            c = cn(conj(lits_of(o.gate)))
            c = unversion(c)
            if c.op == "cmp" and c.args[0] == "==" and n_ in c.args[1:] and (f := [x for x in c.args[1:] if x is not n_][0]).op == "attr" and f.args[0] is me:
                names["nargs"] = f.args[1]
                ctx.ok(rule, f"{label} number of arguments", o.where(), show_(c))
            elif closed(c, {me}) and c.op in ("cmp", "or", "and", "not") or c is TRUE:
                ctx.bad(rule, f"{label} number of arguments", o.where(), f"a result is returned when {show_(c)}")
            else:
                ctx.und(rule, f"{label} number of arguments", o.where(), show_(c))
        for o in r.raises:
            cls = raised_class(prog, o.value)
            if "TypeError" not in exc_names(cls):
                f = ctx.und if cls is None else ctx.bad
                f(rule, f"{label} number of arguments", o.where(), f"raises {show_(o.value)}")
    return names


def stack_of(r, cn, me, S, s):
    """The stack of a replay: [*args, *self.A, one node for each of self.O]: (A, O, verdict, text, order)"""
    if S.op != "obj" or s.op != "tup" or len(s.args[0]) != 3:
        return None
    first, second, third = s.args[0]
    order = "args"
    if first.op == "star" and first.args[0].op == "attr" and second.op == "star" and second.args[0].op == "sym":
        first, second, order = second, first, "atoms"
    if not (first.op == "star" and second.op == "star" and second.args[0].op == "attr" and second.args[0].args[0] is me):
        return None
    if third.op != "each" or len(third.args[0]) != 1 or third.args[0][0].op != "attr" or third.args[0][0].args[0] is not me:
        return None
    A, O = second.args[0].args[1], third.args[0][0].args[1]
    P = first.args[0]
    if P.op != "sym":
        if P.op in ("slice",) and closed(P, {me}):
            return A, O, False, f"the values used are {show_(P)}", order
        return None
    ind = mk("bel", mk("attr", me, O), 0)
    each = mk("each", (ind,), TRUE, mk("idx", S, mk("bel", ind, 1)))
    g, v = third.args[1], unversion(third.args[2])
    ok = {tree(each), mk("app", mk("idx", S, mk("idx", ind, const(0))), (mk("star", mk("slice", mk("tup", (each,)), const(1), NONE, NONE)),), ())}
    if g is TRUE and v in ok:
        return A, O, True, f"{show_(v)} for every operation", order
    if closed(mk("tup", (g, v)), {S, me}):
        return A, O, False, f"an operation makes {show_(v)}" + ("" if g is TRUE else f" when {show_(g)}"), order
    return A, O, None, f"an operation makes {show_(v)}", order


def compile_rule(ctx, rule, C, names):
    prog = ctx.prog
    x, P = mk("sym", "expr", None), mk("sym", "args", None)
    r = analyse_term(prog, C, [x, P], {}, opaque=(SORT,))
    ctx.note_run(r)
    m = C.args[0].lookup("__new__")[0] or C.args[0].lookup("__init__")[0]
    W0 = f"{m.args[0].module.rel}:{m.args[0].node.lineno}" if m is not None and m.op == "fn" else ""
    label = "SubsFunc"
    S = one_call(ctx, r, SORT)
    if S is None:
        ctx.und(rule, label, W0, "does not use topological_sort exactly once")
        return
    cn = Canon(r.it)
    kws = dict(S.args[2])
    if S.args[1] == (x,) and is_const(kws.get("heads", FALSE), True):
        ctx.ok(rule, f"{label} sort with heads", W0, show_(S))
    elif S.args[1] == (x,) and kws.get("heads", FALSE).op == "const":
        ctx.bad(rule, f"{label} sort with heads", W0, "expressions in head position are not sorted and so not replaced")
    else:
        ctx.und(rule, f"{label} sort with heads", W0, show_(S))
    e = cn(kws.get("exclude", NONE))
    if e is mk("setof", (mk("star", P),)) or strip_order(e) is P:
        ctx.ok(rule, f"{label} parameters excluded", W0, show_(e))
    elif closed(e, {P}):
        ctx.bad(rule, f"{label} parameters excluded", W0, f"excluded from the sort: {show_(e)} instead of the parameters")
    else:
        ctx.und(rule, f"{label} parameters excluded", W0, show_(e))
    fields = {}
    for o in r.returns:
        if lits_of(o.gate) or not (o.value.op == "obj" and o.value.args[0].kind == "inst"):
            ctx.und(rule, f"{label} result", o.where(), f"{show_(o.value)} when {show(conj(o.gate))}")
            return
        for q in r.effects:
            if q.kind == "setattr" and q.base is o.value:
                fields[q.name] = (q.args[0], q)
    need = ("nargs", "atoms", "operations", "result")
    if any(names.get(k) not in fields for k in need):
        ctx.und(rule, f"{label} fields", W0, f"fields {sorted(fields)} against uses {names}")
        return
    nargs, atoms, ops, res = (fields[names[k]] for k in need)
    # number of parameters
    if nargs[0] is len_(P):
        ctx.ok(rule, f"{label} number of parameters", nargs[1].where(), show_(nargs[0]))
    else:
        (ctx.bad if closed(nargs[0], {P}) else ctx.und)(rule, f"{label} number of parameters", nargs[1].where(), f"it is {show_(nargs[0])}")
    # the table of positions
    v = res[0]
    D = v.args[0] if v.op == "idx" else None
    if D is not None and D.op == "obj" and D.args[0].kind == "dict" and v.args[1] is x:
        ctx.ok(rule, f"{label} position of the result", res[1].where(), show_(v))
    else:
        if closed(unversion(cn(v)), {P, x, S}) or v.op in ("lin", "const"):
            ctx.bad(rule, f"{label} position of the result", res[1].where(), f"the result is taken from position {show_(v)}, not from that of the expression")
        else:
            ctx.und(rule, f"{label} position of the result", res[1].where(), show_(v))
        ds = {s.args[0] for q in r.effects for a in q.args if isinstance(a, T) for s in subterms(a) if s.op == "idx" and s.args[0].op == "obj" and s.args[0].args[0].kind == "dict"}
        D = next(iter(ds)) if len(ds) == 1 else None
        if D is None:
            return
    # operations: one list of positions of all children per node
    oplist = ops[0]
    apps = [q for q in r.effects if q.kind == "mut" and q.base is oplist and q.name == "append"]
    if oplist.op != "obj" or len(apps) != 1 or len(apps[0].loops) != 1 or lits_of(apps[0].gate) and not apps[0].loops:
        ctx.und(rule, f"{label} operations", ops[1].where(), show_(cn(oplist)))
        return
    q = apps[0]
    L = q.loops[0]
    N = L.it if L.it is not None else None
    while N is not None and N.op == "app" and N.args[0].op == "ext" and N.args[0].args[0] in ("builtins.enumerate", "builtins.list", "builtins.tuple") and N.args[1]:
        N = N.args[1][0]
    n = r.it.mk_elem(N, L) if N is not None else None
    got = unversion(Canon(r.it)(q.args[0], 1, {L: 0}))
    nb = Canon(r.it)(n, 1, {L: 0}) if n is not None else None
    if nb is None:
        ctx.und(rule, f"{label} operations", q.where(), "not made by a loop over the nodes")
        return
    ch = mk("attr", nb, "children")
    want = mk("tup", (mk("each", (ch,), TRUE, mk("idx", D, mk("bel", ch, 1))),))
    if lits_of(q.gate):
        ctx.und(rule, f"{label} operations", q.where(), f"made when {show(conj(lits_of(q.gate)))}")
    if got is want:
        ctx.ok(rule, f"{label} operations", q.where(), "the positions of all children in order")
    elif closed(got, {nb, D}):
        ctx.bad(rule, f"{label} operations", q.where(), f"an operation has the positions {show_(got)} instead of {show_(want)}")
    else:
        ctx.und(rule, f"{label} operations", q.where(), show_(got))
    # positions
    A = atoms[0]
    la = r.it.call_ext(ext("builtins.len"), [A], {}, None, None, None) if False else None

    def lens(lf, want_):
        f, c = lf
        f = {unversion(strip_len(k)): v for k, v in f.items()}
        return c == 0 and f == want_

    lenA = unversion(strip_len(len_(A)))

    def el(k, it):
        return k.op == "elem" and (k.args[0] is it or strip_seq(k.args[0]) is strip_seq(it)) or k.op == "key" and strip_seq(k.args[0]) is strip_seq(it)

    exp = [
        ("parameters", lambda k, e: el(k, P), lambda lf, e: len(e.loops) == 1 and lens(lf, {**({} if names["order"] == "args" else {lenA: 1}), mk("idxvar", e.loops[0]): 1})),
        ("atoms", lambda k, e: el(k, A), lambda lf, e: len(e.loops) == 1 and lens(lf, {**({len_(P): 1} if names["order"] == "args" else {}), mk("idxvar", e.loops[0]): 1})),
        ("nodes", lambda k, e: el(k, N), lambda lf, e: len(e.loops) == 1 and lens(lf, {len_(P): 1, lenA: 1, mk("idxvar", e.loops[0]): 1})),
    ]
    leaves = {A, P, N, S, lenA}
    tables = [D] + [q2.args[0] for q2 in r.effects if q2.kind == "mut" and q2.base is D and q2.name == "update" and q2.args and q2.args[0].op == "obj"]
    got = set()
    for t in tables:
        got |= index_writes(ctx, rule, label, r, t, exp, leaves)
    for name in ("parameters", "atoms", "nodes"):
        if name not in got:
            ctx.und(rule, f"{label} position of {name}", W0, "recording of positions not recognised")
    # which expressions are nodes
    nodes_rule(ctx, rule, label, r, S, x, P, N, A, atoms[1])


def strip_len(k):
    if k.op == "app" and k.args[0].op == "ext" and k.args[0].args[0] == "builtins.len":
        return mk("app", k.args[0], (strip_order(k.args[1][0]) if k.args[1][0].op != "obj" else k.args[1][0],), ())
    return k


def nodes_rule(ctx, rule, label, r, S, x, P, N, A, at):
    """Every expression of the sort that contains a parameter is rebuilt, every other one that is needed is kept as it is."""
    def over(e):
        return e.loops and (e.loops[-1].it is S or r.it.domain(e.loops[-1]) is S)

    def fills(X):
        """(effect, gate literals) of the ways expressions of the sort get into list X, through list comprehensions over other lists"""
        out = []
        for e in r.effects:
            if e.kind == "mut" and e.base is X and e.name in ("append", "add") and len(e.args) == 1 and e.loops:
                L = e.loops[-1]
                b = e.args[0]
                if over(e) and b is r.it.mk_elem(S, L):
                    out.append((e, [l for l in lits_of(e.gate)], [], b))
                elif b.op == "elem" and b.args[1] is L and b.args[0].op == "obj" and b.args[0] is not X:
                    for e2, g, f, b2 in fills(b.args[0]):
                        m = {b: b2}
                        out.append((e2, g, f + [(subst(l[0], m, rebuild=rebuild_), l[1]) for l in lits_of(e.gate)], b2))
                else:
                    return None
        return [o for o in out if o is not None]

    fn_ = fills(N) if N.op == "obj" else None
    if not fn_:
        ctx.und(rule, f"{label} nodes", at.where(), f"nodes are {show_(N)}")
        return
    node_conds = []
    for e, g, f, b in fn_:
        comp = r.it.truth(mk("attr", b, "children"))
        H, rest = None, []
        for l in g + f:
            if lit_term(l) is comp:
                continue
            mt = meets(l, b)
            if mt is not None and mt[1]:
                H = mt[0]
                continue
            rest.append(l)
        if rest:
            if all(plain(l[0], b, {b, P, x}) for l in rest) or all(some_kids(l[0], b) for l in rest):
                ctx.bad(rule, f"{label} nodes", e.where(), f"an expression containing a parameter is only rebuilt when {show(conj(rest))}")
            else:
                ctx.und(rule, f"{label} nodes", e.where(), f"condition {show(conj(rest))}")
            continue
        if H is None:
            ctx.ok(rule, f"{label} nodes", e.where(), "every compound expression is rebuilt")
            continue
        ctx.ok(rule, f"{label} nodes", e.where(), "every expression with a child that contains a parameter is rebuilt")
        node_conds.append((e, g, H, b))
        if H.op != "obj" or H.args[0].kind != "set":
            if closed(H, {P}):
                ctx.bad(rule, f"{label} containing", e.where(), f"only expressions with a child in {show_(H)} are rebuilt")
            else:
                ctx.und(rule, f"{label} containing", e.where(), show_(H))
            continue
        init = [strip_seq(t.args[0]) if t.op == "star" else t for t in H.args[0].init]
        upd = [q.args[0] for q in r.effects if q.kind == "mut" and q.base is H and q.name == "update" and not q.loops and not lits_of(q.gate)]
        init += [strip_seq(t) for t in upd]
        if any(strip_seq(t) is P or t.op == "obj" and [strip_seq(y.args[0]) for y in t.args[0].init if y.op == "star"] == [P] for t in init):
            ctx.ok(rule, f"{label} containing start", e.where(), "the parameters")
        elif all(closed(t, {x, P, S}) for t in init):
            ctx.bad(rule, f"{label} containing start", e.where(), "the parameters themselves do not count as containing a parameter")
        else:
            ctx.und(rule, f"{label} containing start", e.where(), show_(H))
        adds = [q for q in r.effects if q.kind == "mut" and q.base is H and q.name == "add" and q.args[0] is b]
        good = [q for q in adds if set(lits_of(q.gate)) <= set(g)]
        other = [q for q in r.effects if q.kind in ("mut", "call") and q.base is H and q not in adds and q.loops]
        if good:
            ctx.ok(rule, f"{label} containing", good[0].where(), "every rebuilt expression counts as containing a parameter")
        elif other:
            ctx.und(rule, f"{label} containing", other[0].where(), other[0].name)
        elif adds:
            extra = [l for l in lits_of(adds[0].gate) if l not in g]
            f = ctx.bad if all(plain(l[0], b, {b, P, x, H}) or count_test(l[0]) for l in extra) else ctx.und
            f(rule, f"{label} containing", adds[0].where(), f"a rebuilt expression only counts as containing a parameter when {show(conj(extra))}")
        else:
            ctx.bad(rule, f"{label} containing", e.where(), "only expressions whose own child is a parameter are rebuilt")
    # what is kept
    alts = []
    for g, leaf in phi_leaves(A):
        alts.append((list(g), leaf))
    bases = set()
    for g, leaf in alts:
        gl = [l for l in g]
        if leaf.op == "obj" and list(leaf.args[0].init) == [x] or leaf.op == "tup" and leaf.args[0] == (x,):
            if any(is_empty_nodes(l, N) for l in gl):
                ctx.ok(rule, f"{label} kept", at.where(), "the expression itself when nothing is rebuilt")
            elif closed(conj(gl), {N, x, P, S}):
                ctx.bad(rule, f"{label} kept", at.where(), f"only the expression itself is kept when {show(conj(gl))}")
            else:
                ctx.und(rule, f"{label} kept", at.where(), f"when {show(conj(gl))}")
            continue
        if leaf.op == "obj" and not leaf.args[0].init and any(is_empty_nodes(l, N) for l in gl) and not any(q.base is leaf for q in r.effects) \
                and any(l[0].op == "truth" and not l[1] and l[0].args[0].op == "obj" and l[0].args[0] is not N and fills(l[0].args[0]) for l in gl):
            ctx.ok(rule, f"{label} kept", at.where(), "nothing when there is nothing to keep or rebuild")
            continue
        fs = fills(leaf) if leaf.op == "obj" else None
        if not fs:
            ctx.und(rule, f"{label} kept", at.where(), show_(leaf))
            continue
        for e, g2, f, b in fs:
            kept_rule(ctx, rule, label, r, e, g2, f, b, gl, N, x, P, node_conds, len(alts) > 1)
        # every expression is in one of the two
        conds = [conj(g2) for e, g2, f, b in fs]
        b0 = fs[0][3]
        allc = mk_or([subst(c, {b: b0}, rebuild=rebuild_) for c, (e, g2, f, b) in zip(conds, fs)] +
                     [subst(conj(g2), {b: b0}, rebuild=rebuild_) for e, g2, f, b in fn_])
        if covers(allc):
            ctx.ok(rule, f"{label} every expression", fs[0][0].where(), "is kept or rebuilt")
        elif closed(allc, {P, x, b0, *[h for _, _, h, _ in node_conds]}):
            ctx.bad(rule, f"{label} every expression", fs[0][0].where(), f"an expression is only kept or rebuilt when {show(allc, 6)}")
        else:
            ctx.und(rule, f"{label} every expression", fs[0][0].where(), show(allc, 6))


def covers(c):
    """The condition holds for all truth values of its atoms (at most eight)."""
    atoms = []

    def collect(t):
        if t.op in ("and", "or"):
            for y in t.args[0]:
                collect(y)
        elif t.op == "not":
            collect(t.args[0])
        elif t.op != "const" and t not in atoms:
            atoms.append(t)
    collect(c)
    if len(atoms) > 8:
        return False

    def value(t, env):
        if t.op == "and":
            return all(value(y, env) for y in t.args[0])
        if t.op == "or":
            return any(value(y, env) for y in t.args[0])
        if t.op == "not":
            return not value(t.args[0], env)
        if t.op == "const":
            return bool(t.args[0])
        return env[t]
    for i in range(1 << len(atoms)):
        if not value(c, {a: bool(i >> k & 1) for k, a in enumerate(atoms)}):
            return False
    return True


def is_empty_nodes(l, N):
    return l[0].op == "truth" and l[0].args[0] is N and not l[1]


def kept_rule(ctx, rule, label, r, e, g, f, b, alt, N, x, P, node_conds, guarded):
    """Filters on what is kept: only expressions that are no child of a rebuilt one may be left out."""
    rest = []
    for l in f:
        if l[0].op == "contains" and l[1] and l[0].args[1] is b and l[0].args[0].op == "obj":
            K = l[0].args[0]
            ups = [q for q in r.effects if q.kind == "mut" and q.base is K]
            made = [(q, children_loop(r, q)) for q in ups]
            made = [(q, M) for q, M in made if M is not None]
            good = [q for q, M in made if any(set(lits_of(q.gate)) <= set(g2) or M.it is not None and r.it.domain(M) is N and not lits_of(q.gate) for _, g2, _, b2 in node_conds)]
            part = [(q, y) for q in ups if q.name in ("update", "__ior__") and q.args and q.loops for y in left_out(q.args[0], elem_of(r, q))]
            if not good and len(ups) == 1 and part:
                ctx.bad(rule, f"{label} pruning", part[0][0].where(), f"only {show_(part[0][1])} of a rebuilt expression are kept, not all of its children")
            elif not good:
                ctx.und(rule, f"{label} pruning", e.where(), "the set of children of rebuilt expressions is not recognised")
                if not ups:
                    ctx.bad(rule, f"{label} pruning", e.where(), "nothing is ever recorded as child of a rebuilt expression")
            else:
                ctx.ok(rule, f"{label} pruning", good[0].where(), "children of rebuilt expressions are kept")
            if guarded or any(is_empty_nodes((c, p), N) or c.op == "truth" and c.args[0] is N for c, p in alt + f):
                ctx.ok(rule, f"{label} pruning guard", e.where(), "not applied when nothing is rebuilt")
            else:
                ctx.bad(rule, f"{label} pruning guard", e.where(), "the expression itself is dropped when it contains no parameter")
            continue
        if l[0].op == "truth" and l[0].args[0] is N or l[0].op == "truth" and l[0].args[0].op == "obj" or l[0].op in ("or", "and") and not contains(l[0], lambda z: z is b):
            continue
        rest.append(l)
    if rest:
        ok_ = all(plain(l[0], b, {b, x, P}) for l in rest)
        (ctx.bad if ok_ else ctx.und)(rule, f"{label} kept", e.where(), f"an expression without parameter is only kept when {show(conj(rest))}")
    else:
        ctx.ok(rule, f"{label} kept", e.where(), show(conj(g), 5))


def children_loop(r, q):
    """The loop over expressions in which an effect adds all children of the expression to a set, or None."""
    if not q.loops or not q.args:
        return None
    if q.name in ("update", "__ior__") and is_kids(q.args[0], elem_of(r, q)):
        return q.loops[-1]
    if q.name == "add" and len(q.loops) > 1:
        L, M = q.loops[-1], q.loops[-2]
        if L.it is not None and M.it is not None and not getattr(L, "breaks", None) and is_kids(r.it.domain(L), r.it.mk_elem(M.it, M)) and q.args[0] is r.it.mk_elem(L.it, L):
            return M
    return None


def left_out(t, b):
    """Slices of the children of b that t may hold instead of the children."""
    out = []
    for _, y in phi_leaves(t):
        y = strip_seq(y)
        if y.op == "obj" and y.args[0].kind == "set" and len(y.args[0].init) == 1 and y.args[0].init[0].op == "star":
            y = strip_seq(y.args[0].init[0].args[0])
        if y.op == "slice" and y.args[0] is mk("attr", b, "children") and y.args[1].op == "const" and type(y.args[1].args[0]) is int and y.args[1].args[0] > 0:
            out.append(y)
    return out


def elem_of(r, q):
    L = q.loops[-1]
    return r.it.mk_elem(L.it, L) if L.it is not None else None


def count_test(t):
    """Whether a container has more or less than some number of elements: can be either."""
    return t.op == "cmp" and t.args[0] in ("<", "<=") and any(x.op == "app" and x.args[0] is ext("builtins.len") for x in t.args[1:]) \
        and any(x.op == "const" and type(x.args[0]) is int and x.args[0] > 1 for x in t.args[1:])


def substitution(ctx):
    subs_rule(ctx)
    expr_subst(ctx)
    sort_modes(ctx, modes=((True, True),))


def expr_subst(ctx, rule="expression-substitution"):
    """xreplace, as_function and calling the result use a compiled substitution of the expression, with parameters and values in step."""
    prog = ctx.prog
    E, F, C = prog.cls_term(EXPR), prog.cls_term(CAS + "expr.ExprFunction"), prog.cls_term(SUBS)
    opaque = (SUBS + ".__new__", SUBS + ".__init__", SUBS + ".__call__", SUBS + ".call")
    s = mk("sym", "self", T_type("inst", E))
    P = mk("sym", "args", None)
    reps = mk("sym", "reps", T_type("dict"))

    def run(cls, name, args, bels):
        m = cls.args[0].lookup(name)[0]
        if m is None:
            raise AnalysisError(f"{cls.args[0].name}.{name} not found")
        r = analyse_term(prog, m, args, {}, opaque=opaque)
        ctx.note_run(r)
        facts = {r.it.isinst(s, E)} | {r.it.isinst(b, E) for b in bels}
        return r, facts, f"{m.args[0].module.rel}:{m.args[0].node.lineno}"

    def all_conv(t):
        """Conditions about single operands (every operand is an expression here)."""
        return all(l[0].op in ("isinst", "inloop", "or", "iterates") for l in lits(t, True))

    def func_of(f):
        """(expression, parameters) of a compiled substitution."""
        if f.op == "app" and f.args[0].op == "fn" and f.args[0].args[0].qual == SUBS + ".__new__" and not f.args[2]:
            a = f.args[1][1:]
        elif f.op == "app" and f.args[0] is C and not f.args[2]:
            a = f.args[1]
        else:
            return None
        return a if len(a) == 2 else None

    def call_of(t):
        if t.op == "app" and t.args[0].op == "fn" and t.args[0].args[0].qual in (SUBS + ".__call__", SUBS + ".call") and not t.args[2]:
            a = t.args[1]
            if t.args[0].args[0].name == "call":
                return (a[0], a[1]) if len(a) == 2 else None
            return a[0], mk("tup", tuple(a[1:]))
        return None

    def seq_is(ctx_, cn, construct, at, got, want, doms, text):
        got = flat(got)
        if got.op == "tup" and len(got.args[0]) == 1 and got.args[0][0].op == "each" and len(got.args[0][0].args[0]) == 1:
            e = got.args[0][0]
            dom, g, v = e.args[0][0], e.args[1], e.args[2]
            if dom in doms and g is TRUE and v in [mk("attr", z, "rep") for z in doms[dom]]:
                ctx.ok(rule, construct, at, f"{text}: {show_(got)}")
                return
        if closed(got, set(doms) | {s, reps, P}):
            ctx.bad(rule, construct, at, f"{text} are {show_(got)} instead of {show_(want)}")
        else:
            ctx.und(rule, construct, at, f"{text}: {show_(got)}")

    def flat(t):
        if t.op == "tup" and len(t.args[0]) == 1 and t.args[0][0].op == "star" and t.args[0][0].args[0].op == "tup":
            return t.args[0][0].args[0]
        return t

    def bd(d):
        return mk("bel", d, 0)
    keys, vals, items = mk("dictview", "keys", reps), mk("dictview", "values", reps), mk("dictview", "items", reps)
    # xreplace
    kb = [bd(reps), bd(keys), mk("bkey", reps, 0)]
    vb = [bd(vals), mk("bval", reps, 0), mk("idx", reps, bd(reps)), mk("idx", reps, mk("bkey", reps, 0))]
    r, facts, W0 = run(E, "xreplace", [s, reps], kb + vb)
    rets, raises = case(r, facts)
    n = 0
    for c, v, o in rets:
        n += 1
        at = o.where()
        v = unversion(v)
        cl = call_of(v.args[1]) if v.op == "symw" else None
        fn_ = func_of(cl[0]) if cl else None
        if fn_ is None:
            if v is not s or c.op == "not" and c.args[0] is r.it.truth(reps):
                ctx.und(rule, "Expr.xreplace", at, show_(v))
            else:
                ctx.bad(rule, "Expr.xreplace", at, f"gives {show_(v)} without substituting" + ("" if c is TRUE else f" when {show(c)}"))
            continue
        size = {r.it.truth(x) for x in (reps, keys, vals, items)} | {r.it.truth(mk("app", ext("builtins.len"), (reps,), ()))}
        extra = [l for l in lits(c, True) if not all_conv(conj([l])) and l[0] not in size]
        if extra:
            ctx.und(rule, "Expr.xreplace", at, f"when {show(conj(extra))}")
        self_rule(fn_[0], "Expr.xreplace expression", at, ctx, rule, s)
        if any(l[0] in size and not l[1] for l in lits(c, True)) and mk("tup", ()) in (flat(fn_[1]), flat(cl[1])):        # nothing to replace
            none = [flat(fn_[1]), flat(cl[1])]
            ctx.decide(none == [mk("tup", ())] * 2 or None, rule, "Expr.xreplace parameters", at, "nothing to replace")
            continue
        seq_is(ctx, None, "Expr.xreplace parameters", at, fn_[1], mk("tup", (mk("each", (reps,), TRUE, mk("attr", bd(reps), "rep")),)),
               {reps: kb, keys: kb, items: kb}, "parameters")
        vd = {vals: vb}
        got = flat(cl[1])
        if got.op == "tup" and len(got.args[0]) == 1 and got.args[0][0].op == "each" and got.args[0][0].args[0][0] in (reps, keys, items):
            vd = {got.args[0][0].args[0][0]: vb} if got.args[0][0].args[2] in [mk("attr", b, "rep") for b in vb] else {}
        seq_is(ctx, None, "Expr.xreplace replacements", at, cl[1], mk("tup", (mk("each", (vals,), TRUE, mk("attr", bd(vals), "rep")),)), vd, "replacements")
    if not n:
        ctx.und(rule, "Expr.xreplace", W0, "no result")
    for e in r.effects:
        if e.kind == "call" and e.base.op == "fn" and e.base.args[0].name in ("__call__", "call") and e.loops and any(
                source_of(r, L) in (reps, keys, vals, items) for L in e.loops):
            ctx.bad(rule, "Expr.xreplace simultaneous", e.where(), "the replacements are made one after the other")
        elif e.kind == "call" and e.base.op == "attr" and e.base.args[1] in ("as_function", "xreplace") and e.base.args[0].op == "mu" \
                and source_of(r, e.base.args[0].args[0]) in (reps, keys, vals, items):
            ctx.bad(rule, "Expr.xreplace simultaneous", e.where(), "the replacements are made one after the other")
    # as_function
    r, facts, W0 = run(E, "as_function", [s, mk("star", P)], [bd(P)])
    cn = Canon(r.it, facts)
    fns = [e for e in r.effects if e.kind == "call" and e.base.op == "fn" and e.base.args[0].qual in opaque or e.kind == "call" and e.base is C]
    made = [e for e in fns if e.base is C or e.base.args[0].name in ("__new__", "__init__")]
    field = None
    for e in made:
        f = unversion(cn(mk("app", e.base, e.args, ())))
        f = func_of(f)
        if f is None:
            ctx.und(rule, "Expr.as_function", e.where(), show_(mk("tup", e.args)))
            continue
        self_rule(f[0], "Expr.as_function expression", e.where(), ctx, rule, s)
        seq_is(ctx, cn, "Expr.as_function parameters", e.where(), f[1], mk("tup", (mk("each", (P,), TRUE, mk("attr", bd(P), "rep")),)), {P: [bd(P)]}, "parameters")
    for q in r.effects:
        if q.kind == "setattr" and func_of(cn(q.args[0])) is not None:
            field = q.name
    if not made:
        ctx.und(rule, "Expr.as_function", W0, "no substitution is compiled")
    # calling it
    me = mk("sym", "self", T_type("inst", F))
    r, facts, W0 = run(F, "__call__", [me, mk("star", P)], [bd(P)])
    rets, raises = case(r, facts)
    for c, v, o in rets:
        v = unversion(v)
        cl = call_of(v.args[1]) if v.op == "symw" else None
        if cl is None or field is None or cl[0] is not mk("attr", me, field):
            ctx.und(rule, "ExprFunction.__call__", o.where(), show_(v))
            continue
        seq_is(ctx, None, "ExprFunction.__call__ values", o.where(), cl[1], mk("tup", (mk("each", (P,), TRUE, mk("attr", bd(P), "rep")),)), {P: [bd(P)]}, "values")


def source_of(r, L):
    """What a loop goes through, in whatever order."""
    t = strip_seq(r.it.domain(L))
    while t.op == "app" and t.args[0].op == "ext" and t.args[0].args[0] in ("builtins.sorted", "builtins.reversed", "builtins.list", "builtins.tuple") and t.args[1]:
        t = strip_seq(t.args[1][0])
    return t


def self_rule(t, construct, at, ctx, rule, s):
    want = mk("attr", s, "rep")
    if t is want:
        ctx.ok(rule, construct, at, show_(t))
    elif closed(t, {s}):
        ctx.bad(rule, construct, at, f"substitutes in {show_(t)} instead of {show_(want)}")
    else:
        ctx.und(rule, construct, at, show_(t))
