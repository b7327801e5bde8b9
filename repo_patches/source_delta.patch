From b974c37d2bfe88095fb7d88588991ad92e597250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 01/11] fix: substitute the right argument when the whole
 expression is a parameter

SubsFunc(x, [x, y])(1, 2) returned 2: with nothing to rebuild the result was
the last argument rather than the one that replaces the expression.
---
 src/protosym/core/tree.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/protosym/core/tree.py b/src/protosym/core/tree.py
index b89365a..6cceb11 100644
--- a/src/protosym/core/tree.py
+++ b/src/protosym/core/tree.py
@@ -454,6 +454,7 @@ class SubsFunc:
     nargs: int
     atoms: list[Tree]
     operations: list[list[int]]
+    result: int
 
     def __new__(cls, expr: Tree, args: list[Tree]) -> SubsFunc:
         # A topological sort but exluding the args because they will be
@@ -506,6 +507,9 @@ class SubsFunc:
         obj.nargs = num_args
         obj.atoms = atoms
         obj.operations = operations
+        # The result is not always the last item on the stack: expr might
+        # itself be one of the args.
+        obj.result = indices[expr]
 
         return obj
 
@@ -522,7 +526,7 @@ class SubsFunc:
             children = [stack[i] for i in indices]
             stack.append(Tree(*children))
 
-        return stack[-1]
+        return stack[self.result]
 
 
 try:
-- 
2.43.0


From c822849610aa7fa86787de795c167a65fb2f517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 02/11] fix: use an explicit None value in forward evaluation

eval_forward ignored a value of None given for an atom although
eval_recursive uses it.
---
 src/protosym/core/evaluate.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/protosym/core/evaluate.py b/src/protosym/core/evaluate.py
index a961cdd..4c5e731 100644
--- a/src/protosym/core/evaluate.py
+++ b/src/protosym/core/evaluate.py
@@ -172,9 +172,8 @@ class Evaluator(Generic[_T]):
 
         # Convert all atoms to _T
         for atom in graph.atoms:
-            value_get = values.get(atom)
-            if value_get is not None:
-                value = value_get
+            if atom in values:
+                value = values[atom]
             else:
                 value = self.eval_atom(atom)
             stack.append(value)
-- 
2.43.0


From 6cb5473ae02762036ecdfdee1ae7de30cba23b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 03/11] fix: reject a Tree with neither value nor children

Tree() created a shared object that is neither an atom nor a compound
expression, and copy.copy() of a Tree filled it in with the children of the
original, giving a duplicate that is not the interned object.
---
 src/protosym/core/tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/protosym/core/tree.py b/src/protosym/core/tree.py
index 6cceb11..9751c7e 100644
--- a/src/protosym/core/tree.py
+++ b/src/protosym/core/tree.py
@@ -121,6 +121,9 @@ class Tree:
         if previous is not None:
             return previous
 
+        if not children:
+            raise TypeError("A compound Tree needs at least a head.")
+
         if not all(isinstance(child, Tree) for child in children):
             raise TypeError("All arguments should be Tree.")
 
-- 
2.43.0


From ec7ee8a685bdbe93ce798342211109a493131740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 04/11] fix: hold a lock when adding to the weak stores of
 unique objects

WeakValueDictionary.setdefault is written in Python and is not atomic, so
threads constructing the same expression at the same time could each get
their own copy.
---
 src/protosym/core/atom.py |  8 +++++++-
 src/protosym/core/sym.py  |  8 +++++++-
 src/protosym/core/tree.py | 11 +++++++++--
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/protosym/core/atom.py b/src/protosym/core/atom.py
index 1cc69de..b533e4b 100644
--- a/src/protosym/core/atom.py
+++ b/src/protosym/core/atom.py
@@ -5,6 +5,7 @@ This module defines the :class:`AtomType` and :class:`Atom` types.
 
 from __future__ import annotations
 
+from threading import RLock as _RLock
 from typing import TYPE_CHECKING as _TYPE_CHECKING
 from typing import Any, cast
 from typing import Generic as _Generic
@@ -29,6 +30,10 @@ _T = _TypeVar("_T", bound=AnyValue, covariant=True)
 #
 _all_atoms: _WeakDict[Any, Any] = _WeakDict()
 
+# WeakValueDictionary.setdefault is not atomic so this lock needs to be held
+# when adding to the store.
+_all_atoms_lock = _RLock()
+
 
 class AtomType(_Generic[_T]):
     """Identifier to distinguish different kinds of atoms.
@@ -169,7 +174,8 @@ class Atom(_Generic[_T]):
         # here then we will make sure to retrieve the object created there or
         # otherwise force the other thread to accept the value we have created
         # here.
-        obj = _all_atoms.setdefault(key, obj)
+        with _all_atoms_lock:
+            obj = _all_atoms.setdefault(key, obj)
 
         return obj
 
diff --git a/src/protosym/core/sym.py b/src/protosym/core/sym.py
index 6253994..979f9b5 100644
--- a/src/protosym/core/sym.py
+++ b/src/protosym/core/sym.py
@@ -10,6 +10,7 @@ by user-facing classes that derive from :class:`Sym`.
 
 from __future__ import annotations
 
+from threading import RLock as _RLock
 from typing import TYPE_CHECKING as _TYPE_CHECKING
 from typing import Any, Callable, Generic, Sequence, TypeVar, overload
 
@@ -133,6 +134,10 @@ class Sym:
 
     _all_expressions: _WeakDict[Any, Any] = _WeakDict()
 
+    # WeakValueDictionary.setdefault is not atomic so this lock needs to be
+    # held when adding to the store.
+    _all_expressions_lock = _RLock()
+
     rep: Tree
 
     def __new__(cls, tree_expr: Tree) -> Self:
@@ -153,7 +158,8 @@ class Sym:
         obj = super().__new__(cls)
         obj.rep = tree_expr
 
-        obj = cls._all_expressions.setdefault(key, obj)
+        with cls._all_expressions_lock:
+            obj = cls._all_expressions.setdefault(key, obj)
 
         return obj
 
diff --git a/src/protosym/core/tree.py b/src/protosym/core/tree.py
index 9751c7e..9666c5d 100644
--- a/src/protosym/core/tree.py
+++ b/src/protosym/core/tree.py
@@ -6,6 +6,7 @@ This module defines classes for representing expressions in top-down tree form.
 from __future__ import annotations
 
 from dataclasses import dataclass
+from threading import RLock as _RLock
 from typing import TYPE_CHECKING as _TYPE_CHECKING
 from weakref import WeakValueDictionary as _WeakDict
 
@@ -27,6 +28,10 @@ __all__ = [
 
 _all_trees: _WeakDict[AnyAtom | tuple[Tree, ...], Tree] = _WeakDict()
 
+# WeakValueDictionary.setdefault is not atomic so this lock needs to be held
+# when adding to the store.
+_all_trees_lock = _RLock()
+
 
 class Tree:
     """Base class for tree expressions.
@@ -130,7 +135,8 @@ class Tree:
         obj = object.__new__(cls)
         obj.children = children
 
-        obj = _all_trees.setdefault(children, obj)
+        with _all_trees_lock:
+            obj = _all_trees.setdefault(children, obj)
 
         return obj
 
@@ -148,7 +154,8 @@ class Tree:
         obj.value = value
         obj.children = ()
 
-        obj = _all_trees.setdefault(value, obj)
+        with _all_trees_lock:
+            obj = _all_trees.setdefault(value, obj)
 
         return obj
 
-- 
2.43.0


From 138245ce461359ba23c4d617f8dc6d59165e2f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 05/11] fix: print atoms of any type as LaTeX

eval_latex had no generic rule for atoms, unlike eval_repr, so displaying a
rule pattern with a Wild in it raised NoEvaluationRuleError.
---
 src/protosym/simplecas/functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/protosym/simplecas/functions.py b/src/protosym/simplecas/functions.py
index 0cf083f..6486f3f 100644
--- a/src/protosym/simplecas/functions.py
+++ b/src/protosym/simplecas/functions.py
@@ -88,6 +88,7 @@ latex_sin = PyOp1(lambda a: rf"\sin({a})")
 latex_cos = PyOp1(lambda a: rf"\cos({a})")
 
 eval_latex[HeadRule(a, b)] = repr_call(a, b)
+eval_latex[AtomRule[a]] = repr_atom(a)
 eval_latex[Integer[a]] = str_from_int(a)
 eval_latex[Symbol[a]] = str_from_str(a)
 eval_latex[Function[a]] = str_from_str(a)
-- 
2.43.0


From a6425ca77c921ba6e120e4c9beda6b956a544542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:08 +0000
Subject: [PATCH 06/11] fix: do not drop surplus operands when generating LLVM
 code

sin(x, y) was compiled as sin(x) and pow(x, y, z) as pow(x, y), although
eval_f64 rejects them.
---
 src/protosym/simplecas/lambdification.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/protosym/simplecas/lambdification.py b/src/protosym/simplecas/lambdification.py
index ea74f71..aa487ff 100644
--- a/src/protosym/simplecas/lambdification.py
+++ b/src/protosym/simplecas/lambdification.py
@@ -63,12 +63,12 @@ def _to_llvm_f64(symargs: list[Tree], expression: Tree) -> str:
             line = f"{identifier} = fadd double " + ", ".join(argids)
         elif func == Mul.rep:
             line = f"{identifier} = fmul double " + ", ".join(argids)
-        elif func == Pow.rep:
+        elif func == Pow.rep and len(argids) == 2:
             args = f"double {argids[0]}, double {argids[1]}"
             line = f"{identifier} = call double @llvm.pow.f64({args})"
-        elif func == sin.rep:
+        elif func == sin.rep and len(argids) == 1:
             line = f"{identifier} = call double @llvm.sin.f64(double {argids[0]})"
-        elif func == cos.rep:
+        elif func == cos.rep and len(argids) == 1:
             line = f"{identifier} = call double @llvm.cos.f64(double {argids[0]})"
         else:
             raise LLVMNotImplementedError("No LLVM rule for: " + repr(func))
@@ -180,12 +180,12 @@ def _to_llvm_f64_matrix(symargs: list[Tree], mat: Matrix) -> str:  # noqa [C901]
             line = f"{identifier} = fadd double " + ", ".join(argids)
         elif func == Mul.rep:
             line = f"{identifier} = fmul double " + ", ".join(argids)
-        elif func == Pow.rep:
+        elif func == Pow.rep and len(argids) == 2:
             args = f"double {argids[0]}, double {argids[1]}"
             line = f"{identifier} = call double @llvm.pow.f64({args})"
-        elif func == sin.rep:
+        elif func == sin.rep and len(argids) == 1:
             line = f"{identifier} = call double @llvm.sin.f64(double {argids[0]})"
-        elif func == cos.rep:
+        elif func == cos.rep and len(argids) == 1:
             line = f"{identifier} = call double @llvm.cos.f64(double {argids[0]})"
         else:
             raise LLVMNotImplementedError("No LLVM rule for: " + repr(func))
-- 
2.43.0


From a82207724e0203cc5e1a429b67f90b70d78fc969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 07/11] fix: keep LLVM argument names distinct from generated
 names

Symbols called _out or .0, or with quotes in their names, and arguments
printing alike gave LLVM IR with duplicate or malformed identifiers.
---
 src/protosym/simplecas/lambdification.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/protosym/simplecas/lambdification.py b/src/protosym/simplecas/lambdification.py
index aa487ff..8a075c1 100644
--- a/src/protosym/simplecas/lambdification.py
+++ b/src/protosym/simplecas/lambdification.py
@@ -32,13 +32,31 @@ declare double    @llvm.cos.f64(double %Val)
 """
 
 
+def _llvm_argnames(symargs: list[Tree]) -> dict[Tree, str]:
+    """Identifiers for the parameters of a generated function.
+
+    A symbol can have any name so this makes sure that it is quoted properly
+    and can not be the same as any of the other identifiers in the code like
+    ``%".0"`` or ``%"_out"``.
+    """
+    argnames = {}
+    for s in symargs:
+        name = str(s).replace("\\", r"\5C").replace('"', r"\22")
+        if not name or name.startswith((".", "_")):
+            name = "_." + name
+        argnames[s] = f'%"{name}"'
+    if len(set(argnames.values())) != len(symargs):
+        raise LLVMNotImplementedError("Arguments should have distinct names.")
+    return argnames
+
+
 def _to_llvm_f64(symargs: list[Tree], expression: Tree) -> str:
     """Code for LLVM IR function computing ``expression`` from ``symargs``."""
     expression = bin_expand(expression)
 
     graph = forward_graph(expression)
 
-    argnames = {s: f'%"{s}"' for s in symargs}
+    argnames = _llvm_argnames(symargs)
 
     identifiers = []
     for a in graph.atoms:
@@ -154,7 +172,7 @@ def _to_llvm_f64_matrix(symargs: list[Tree], mat: Matrix) -> str:  # noqa [C901]
 
     graph = forward_graph(elements_graph)
 
-    argnames = {s: f'%"{s}"' for s in symargs}
+    argnames = _llvm_argnames(symargs)
 
     identifiers = []
     for a in graph.atoms:
-- 
2.43.0


From d2a40c54a6010c87cc3ea16de1e4fe8a60094886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:54 +0000
Subject: [PATCH 08/11] fix: reject a differentiation rule for an atom with
 TypeError

---
 src/protosym/core/sym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protosym/core/sym.py b/src/protosym/core/sym.py
index 979f9b5..54d2211 100644
--- a/src/protosym/core/sym.py
+++ b/src/protosym/core/sym.py
@@ -657,10 +657,10 @@ class SymDifferentiator(Generic[T_sym]):
         dexpr_r = dexpr.rep
         sym_r = sym.rep
 
-        head = expr_r.children[0]
         args_lhs = expr_r.children[1:]
         if args_lhs.count(sym_r) != 1:
             raise TypeError("Multiple occurrences of wild symbol in pattern.")
+        head = expr_r.children[0]
         index = args_lhs.index(sym_r)
 
         rhsfunc = SubsFunc(dexpr_r, list(args_lhs))
-- 
2.43.0


From 624a05ffdea26ce43ce61f6712ef6dbd0cde9c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:21 +0000
Subject: [PATCH 09/11] fix: reject pow with other than two operands in
 to_sympy

sympy.Pow takes a third positional argument (evaluate) so a third operand of
pow was dropped silently.
---
 src/protosym/simplecas/sympy_conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protosym/simplecas/sympy_conversions.py b/src/protosym/simplecas/sympy_conversions.py
index e4a3289..2903662 100644
--- a/src/protosym/simplecas/sympy_conversions.py
+++ b/src/protosym/simplecas/sympy_conversions.py
@@ -35,7 +35,7 @@ sympy_symbol = PyFunc1[str, sympy.Basic](sympy.Symbol)
 sympy_function = PyFunc1[str, sympy.Basic](sympy.Function)  # pyright: ignore
 sympy_add = PyOpN[sympy.Basic](lambda a: sympy.Add(*a))
 sympy_mul = PyOpN[sympy.Basic](lambda a: sympy.Mul(*a))
-sympy_pow = PyOp2[sympy.Basic](sympy.Pow)
+sympy_pow = PyOp2[sympy.Basic](lambda b, e: sympy.Pow(b, e))
 sympy_sin = PyOp1[sympy.Basic](sympy.sin)  # pyright: ignore
 sympy_cos = PyOp1[sympy.Basic](sympy.cos)  # pyright: ignore
 sympy_tuple = PyOpN[sympy.Basic](lambda a: sympy.Tuple(*a))  # pyright: ignore
-- 
2.43.0


From 8d6ee296ceab77ac5d5151be130bd74d493e2ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:21 +0000
Subject: [PATCH 10/11] fix: convert empty tuples, calls without arguments and
 zero matrices from SymPy

---
 src/protosym/simplecas/sympy_conversions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/protosym/simplecas/sympy_conversions.py b/src/protosym/simplecas/sympy_conversions.py
index 2903662..68b37a5 100644
--- a/src/protosym/simplecas/sympy_conversions.py
+++ b/src/protosym/simplecas/sympy_conversions.py
@@ -90,7 +90,8 @@ def _from_sympy_cache(expr: sympy.Basic, cache: dict[sympy.Basic, Expr]) -> Expr
     ret = cache.get(expr)
     if ret is not None:
         return ret
-    elif expr.args:
+    elif expr.args or isinstance(expr, (sympy.Tuple, AppliedUndef)):
+        # A tuple or a call of a function can have no args.
         ret = _from_sympy_cache_args(expr, sympy, cache)
     elif isinstance(expr, sympy.Integer):
         ret = Integer(expr.p)  # pyright: ignore
-- 
2.43.0


From d82a5f6279381baeddfa556507933578e8174688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:38 +0000
Subject: [PATCH 11/11] fix: str() and repr() of a Tree do not recurse along
 the expression

---
 src/protosym/core/tree.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/protosym/core/tree.py b/src/protosym/core/tree.py
index 9666c5d..dc5b3bd 100644
--- a/src/protosym/core/tree.py
+++ b/src/protosym/core/tree.py
@@ -165,21 +165,29 @@ class Tree:
 
     def __repr__(self) -> str:
         """Show the verbose representaton."""
-        if self.children:
-            argstr = ", ".join(map(repr, self.children))
-            return f"Tree({argstr})"
-        else:
-            return f"Tr({self.value!r})"
+        texts: dict[Tree, str] = {}
+
+        for tree in topological_sort(self, heads=True):
+            if tree.children:
+                argstr = ", ".join([texts[child] for child in tree.children])
+                texts[tree] = f"Tree({argstr})"
+            else:
+                texts[tree] = f"Tr({tree.value!r})"
+
+        return texts[self]
 
     def __str__(self) -> str:
         """Show the pretty form."""
-        if self.children:
-            head = self.children[0]
-            args = self.children[1:]
-            argstr = ", ".join(map(str, args))
-            return f"{head}({argstr})"
-        else:
-            return str(self.value)
+        texts: dict[Tree, str] = {}
+
+        for tree in topological_sort(self, heads=True):
+            if tree.children:
+                head, *args = [texts[child] for child in tree.children]
+                texts[tree] = f"{head}({', '.join(args)})"
+            else:
+                texts[tree] = str(tree.value)
+
+        return texts[self]
 
 
 # Convenient shorthand for creating atoms
-- 
2.43.0

