"""C22: what is imported when."""
from __future__ import annotations

import ast
import sys

from .lib import *  # noqa
from .lib import ADMIN, scenario, show_, where_of


def module_imports(m, prog):
    """[(target module, node, guarded by try/except ImportError, type checking only)] at import time; the same inside functions.
    Guarded is "given up" when the handler raises again, "asks" when the import depends on another condition."""
    top, inner = [], []
    optional = set()        # names bound by guarded imports

    def names(n):
        out = []
        if isinstance(n, ast.Import):
            out = [a.name for a in n.names]
        elif isinstance(n, ast.ImportFrom):
            base = n.module or ""
            if n.level:
                pk = m.name.split(".")
                if not m.path.endswith("__init__.py"):
                    pk = pk[:-1]
                pk = pk[:len(pk) - (n.level - 1)]
                base = ".".join(pk + ([n.module] if n.module else []))
            out = [base] + [f"{base}.{a.name}" for a in n.names if f"{base}.{a.name}" in prog.modules]
        return out

    def visit(body, guarded, tc, infn):
        for s in body:
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                for x in names(s):
                    (inner if infn else top).append((x, s, guarded, tc))
                if guarded:
                    optional.update((a.asname or a.name).split(".")[0] for a in s.names)
            elif isinstance(s, ast.If):
                t = is_tc(s.test)
                asks = any(isinstance(x, ast.Name) and x.id in optional for x in ast.walk(s.test))
                other = "asks" if not asks and not t and not is_main(s.test) else False
                visit(s.body, guarded or asks or other, tc or t or is_main(s.test), infn)
                visit(s.orelse, guarded or asks or (False if t else other), tc, infn)
            elif isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
                hs = [h for h in s.handlers if catches(h)]
                g = bool(hs) and ("given up" if any(isinstance(x, ast.Raise) for h in hs for x in h.body) else True)
                visit(s.body, guarded or g, tc, infn)
                for h in s.handlers:
                    visit(h.body, guarded, tc, infn)
                visit(s.orelse, guarded, tc, infn)
                visit(s.finalbody, guarded, tc, infn)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                visit(s.body, False, tc, True)
            elif isinstance(s, ast.ClassDef):
                visit(s.body, guarded, tc, infn)
            elif isinstance(s, (ast.With, ast.For, ast.While)):
                visit(s.body, guarded, tc, infn)
                visit(getattr(s, "orelse", []), guarded, tc, infn)

    visit(m.tree.body, False, False, False)
    return top, inner


def catches(h):
    ns = []
    if h.type is None:
        return True
    for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
        ns.append(t.id if isinstance(t, ast.Name) else getattr(t, "attr", ""))
    return any(n in ("ImportError", "ModuleNotFoundError", "Exception", "BaseException") for n in ns)


def is_main(t):
    return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == "__name__"


def is_tc(t):
    return isinstance(t, ast.Name) and t.id.lstrip("_") == "TYPE_CHECKING" or isinstance(t, ast.Attribute) and t.attr == "TYPE_CHECKING"


def closure(prog, start):
    """Modules of the package imported (at import time) by importing the given ones."""
    seen, stack = set(), list(start)
    while stack:
        n = stack.pop()
        if n in seen or n not in prog.modules:
            continue
        seen.add(n)
        parts = n.split(".")
        stack.extend(".".join(parts[:i]) for i in range(1, len(parts)))
        top, _ = module_imports(prog.modules[n], prog)
        stack.extend(x for x, _, g, tc in top if not tc and not (g is True and needs(prog, x)))
    return seen


def eager_modules(prog):
    return closure(prog, ["protosym", "protosym.core", "protosym.simplecas"])


# ------------------------------------------------------------------ C22

OPTIONAL = ("sympy", "numpy", "llvmlite")
MAY = {
    "simplecas.expr.Expr._sympy_": {"sympy"}, "simplecas.expr.Expr.to_sympy": {"sympy"}, "simplecas.expr.Expr.from_sympy": {"sympy"},
    "simplecas.matrix.Matrix.to_sympy": {"sympy"}, "simplecas.matrix.Matrix.from_sympy": {"sympy"},
    "simplecas.lambdification.lambdify": {"llvmlite", "numpy"},
}
# operations that need nothing, besides everything in protosym.core, the rules and the special methods
PLAIN = {
    "simplecas.expr": "expressify expressify_other diff bin_expand Expr._repr_latex_ Expr.xreplace Expr.as_function Expr.eval_repr Expr.eval_latex Expr.eval_f64 Expr.count_ops_tree "
                      "Expr.count_ops_graph Expr.diff Expr.bin_expand Expr.to_llvm_ir ExprFunction.call",
    "simplecas.matrix": "Matrix.tolist Matrix.binop Matrix.diff Matrix.to_llvm_ir",
}

CLIENT = '''
from protosym.simplecas import Matrix, lambdify, Symbol

def scalar(e, s):
    return lambdify([s], e)

def matrix(M, s):
    return lambdify([s], M)

def text(e, s):
    return e.to_llvm_ir([s])

def matrix_text(M, s):
    return M.to_llvm_ir([s])
'''


def foreign(name):
    """The package that an import needs besides the standard library (None: nothing)."""
    t = name.split(".")[0]
    return None if t in sys.stdlib_module_names or t == "protosym" or not t else t


def needs(prog, name, memo=None):
    """Packages that importing a module needs."""
    memo = {} if memo is None else memo
    if name in memo:
        return memo[name]
    memo[name] = out = set()
    f = foreign(name)
    if f:
        out.add(f)
    elif name in prog.modules:
        top, _ = module_imports(prog.modules[name], prog)
        for x, _, guarded, tc in top:
            if not tc and guarded in (False, "given up"):
                out |= needs(prog, x, memo)
        if "." in name:
            out |= needs(prog, name.rsplit(".", 1)[0], memo)
    return out


def uses(t):
    """Optional packages whose functions occur in a term."""
    return {s.args[0].split(".")[0] for s in subterms(t) if s.op == "ext" and isinstance(s.args[0], str) and s.args[0].split(".")[0] in OPTIONAL}


def kind(f):
    """'plain' (needs nothing), 'may' (uses optional packages), 'new' (not among the operations), 'part' (of others)"""
    q = f.short
    if q in MAY:
        return "may"
    mod, own = f.module.name.removeprefix("protosym."), q.removeprefix(f.module.name.removeprefix("protosym.") + ".")
    if "<lambda>" in q or "." in own and f.cls is None or f.name.startswith("_") and not (f.name.startswith("__") and f.name.endswith("__")):
        return "plain" if own in PLAIN.get(mod, "").split() else "part"
    if mod.startswith("core") or f.name.startswith("__") or own in PLAIN.get(mod, "").split():
        return "plain"
    return "new"


def only_where_used(ctx):
    prog = ctx.prog
    eager = eager_modules(prog)
    rule = "import-time"
    for name in sorted(eager):
        m = prog.modules[name]
        top, _ = module_imports(m, prog)
        for x, node, guarded, tc in top:
            n = {f for f in needs(prog, x)} if x not in eager else set()
            f = foreign(x)
            n = {f} if f else n
            where = f"{m.rel}:{node.lineno}"
            if tc or not n:
                ctx.ok(rule, f"{name} imports {x}", where, "for type checkers only" if tc else "standard library or this package")
            elif guarded is True and n & {"sympy", "numpy", "llvmlite"}:
                ctx.bad(rule, f"{name} imports {x}", where, f"importing {name} imports {', '.join(sorted(n))} whether or not it is used")
            elif guarded is True:
                ctx.ok(rule, f"{name} imports {x}", where, "does without when it is missing")
            elif guarded == "asks":
                ctx.und(rule, f"{name} imports {x}", where, "under a condition")
            else:
                ctx.bad(rule, f"{name} imports {x}", where, f"importing {name} needs {', '.join(sorted(n))}")
    it = prog.interp()
    for e in it.log[:it.base]:
        home = prog.during(e.pos)
        if home not in eager or e.kind == "import":
            continue
        for n in [dynamic(e)]:
            if n and not e.gate:
                ctx.bad(rule, f"{home} imports dynamically", e.where(), f"importing {home} needs {', '.join(sorted(n))}")
    helpers = set()
    rule = "operations"
    for r in ctx.everything():
        f = r.fn
        if f.module.name not in eager:
            if f.module.name.endswith("__main__"):
                continue
            ctx.ok("lazy", f.short, f"{f.module.rel}:{f.node.lineno}", f"in {f.module.name}, which is only imported where it is used")
            continue
        want, where, gates, used = set(), "", [], set()
        for e in r.effects:
            n = set()
            if e.kind == "import" and e.name not in eager:
                n = needs(prog, e.name)
                used |= n & uses_of(r)
            n |= dynamic(e)
            if n:
                want |= n
                where = where or e.where()
                gates.append((e, n))
        n = uses_of(r)
        if n - want:
            where = where or f"{f.module.rel}:{f.node.lineno}"
        want |= n
        k = kind(f)
        if k == "part":
            if want:
                helpers.add(f)
            continue
        extra = want - MAY.get(f.short, set())
        if not extra:
            ctx.ok(rule, f.short, f"{f.module.rel}:{f.node.lineno}", f"needs {', '.join(sorted(want)) or 'nothing'}")
        elif k == "new":
            ctx.und(rule, f.short, where, f"not one of the known operations, needs {', '.join(sorted(extra))}")
        else:
            mine = [e for e, n in gates if n & extra]
            asks = [l for e in mine for l in e.gate if l[0].op not in ADMIN and asks_module(l[0])]
            soft = mine and all(soft_import(prog, e) for e in mine) and not extra & n
            (ctx.und if asks or soft else ctx.bad)(rule, f.short, where, f"needs {', '.join(sorted(extra))}" + (" in some cases" if asks else ""))
    stored(ctx, eager, helpers)
    apart(ctx)


def uses_of(r):
    out = set()
    for o in r.returns:
        out |= uses(o.value)
    for e in r.effects:
        if e.kind != "import":
            for t in e.args:
                if isinstance(t, T):
                    out |= uses(t)
            if isinstance(e.base, T):
                out |= uses(e.base)
    return out


def soft_import(prog, e):
    """The import may fail without an error."""
    for m in prog.modules.values():
        if m.rel == e.where().split(":")[0]:
            return any(node.lineno == e.node.lineno and g is True for x, node, g, tc in module_imports(m, prog)[1])
    return False


def asks_module(t):
    """A condition on whether a package or an object of it is there."""
    return contains(t, lambda s: s.op == "attr" and s.args[1] in ("__module__", "modules", "_sympy_", "__array__", "__class__") or s.op == "hasattr"
                    or s.op == "ext" and s.args[0] in ("builtins.hasattr", "builtins.type", "builtins.getattr", "sys.modules", "importlib.util.find_spec"))


def dynamic(e):
    """Packages imported by a call of importlib or __import__."""
    f = e.base
    if e.kind == "call" and isinstance(f, T) and f.op == "ext" and f.args[0] in ("importlib.import_module", "builtins.__import__") and e.args and e.args[0].op == "const":
        n = foreign(str(e.args[0].args[0]))
        return {n} if n else set()
    if e.kind == "call" and isinstance(f, T) and f.op == "ext" and f.args[0] == "importlib.util.find_spec" and e.args and e.args[0].op == "const" and "." in str(e.args[0].args[0]):
        n = foreign(str(e.args[0].args[0]))     # looking for a part imports the whole
        return {n} if n else set()
    return set()


def stored(ctx, eager, helpers):
    """Functions that need packages must not be registered as rules, decorators or defaults of everything else."""
    prog = ctx.prog
    it = prog.interp()
    n = 0
    for e in it.log[:it.base]:
        home = prog.during(e.pos)
        if home not in eager or e.kind in ("import", "call") or any(l[0].op not in ADMIN for l in e.gate):
            continue
        for t in e.args:
            if not isinstance(t, T):
                continue
            n += 1
            for s in subterms(t):
                if s.op == "fn" and s.args[0] in helpers:
                    ctx.bad("rules", s.args[0].short, e.where(), f"registered as {show_(e.base)[:80] if e.base is not None else e.name}, needs a package that may be missing")
                elif s.op == "ext" and isinstance(s.args[0], str) and s.args[0].split(".")[0] in OPTIONAL and not (e.kind == "setglobal" or e.name == "__setitem__" and t is s and "." not in s.args[0]):
                    ctx.bad("rules", s.args[0], e.where(), f"used by {show_(e.base)[:80] if e.base is not None else e.name}, of a package that may be missing")
    ctx.ok("rules", "package", "", f"{n} values stored at import examined, {len(helpers)} functions of the package need optional ones")


def apart(ctx):
    """Compiling a scalar needs no NumPy, generating text needs nothing."""
    prog = ctx.prog
    ex, mat = (T_type("inst", prog.cls_term("protosym.simplecas." + q)) for q in ("expr.Expr", "matrix.Matrix"))
    s = mk("sym", "s", ex)
    for name, typ, allowed in (("scalar", ex, {"llvmlite"}), ("matrix", mat, {"llvmlite", "numpy"}), ("text", ex, set()), ("matrix_text", mat, set())):
        r = scenario(ctx, CLIENT, name, [mk("sym", "e", typ), s])
        eager = eager_modules(prog)
        extra = {}
        for e in r.effects:
            n = needs(prog, e.name) if e.kind == "import" and e.name not in eager else dynamic(e)
            for x in n - allowed:
                extra.setdefault(x, e)
        what = {"scalar": "lambdify of an expression", "matrix": "lambdify of a matrix", "text": "LLVM text of an expression", "matrix_text": "LLVM text of a matrix"}[name]
        for x, e in extra.items():
            (ctx.und if soft_import(prog, e) else ctx.bad)("separate", what, e.where(), f"needs {x}")
        if not extra:
            ctx.ok("separate", what, where_of(r), f"needs {', '.join(sorted(allowed)) or 'nothing'}")


def optional_packages(ctx):
    from . import effects
    only_where_used(ctx)
    effects.lazy_modules(ctx)
