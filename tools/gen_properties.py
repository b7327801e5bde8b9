#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the statements stay readable)."""
import json, os
A, D, E, T, S = ("src/protosym/core/" + n for n in
                 ("atom.py", "differentiate.py", "evaluate.py", "tree.py", "sym.py"))
X, F, L, M, C = ("src/protosym/simplecas/" + n for n in
                 ("expr.py", "functions.py", "lambdification.py", "matrix.py", "sympy_conversions.py"))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": list(files),
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Building from the same parts always gives the same object",
 "Constructing an atom, a tree or a symbolic expression from the same parts always returns the very same live object, and constructing it from different parts (another atom type or value, another wrapping class, head, operand or operand order) never does, whatever was built, dropped or collected in between. Values of one atom type that compare equal count as the same value. Equality and hashing of atom types, atoms, trees and expressions coincide with object identity.",
 ["inputs", "histories"], "all values, all operand sequences, all construction histories",
 "Identity is sampled on three or four pairs; a key that merges or splits only unusual parts (names of atom types, long operand lists, wrappers of different classes) is never met.",
 [A, T, S], [("Atom.__new__", A), ("Tree.__new__", T), ("Tree.atom", T), ("Sym.__new__", S)],
 [("_all_atoms", "intern table of atoms", A), ("_all_trees", "intern table of trees", T), ("Sym._all_expressions", "intern table of wrappers", S)],
 ["`is` / == / hash on constructed objects"])

prop("C02", "Concurrent construction still yields one shared object",
 "When several threads construct structurally identical atoms, trees or symbolic expressions at the same time, all of them receive one and the same object, and no thread ever sees one that is not fully initialised, under every interleaving.",
 ["schedules"], "all interleavings of any number of constructing threads",
 "No test starts a thread; the window between lookup and insertion is a few bytecodes wide.",
 [A, T, S], [("check-and-insert in Atom.__new__", A), ("check-and-insert in Tree.__new__ and Tree.atom", T), ("check-and-insert in Sym.__new__", S)],
 [("intern tables", "weak dictionaries shared by all threads", A)], ["identity of objects built by different threads"])

prop("C03", "Expressions are immutable",
 "Once an atom, tree or symbolic expression has been handed to a caller, its type, value, head and operands never change: no operation of the library, in any order, alters an existing expression, and every tree that can be obtained is well formed (an atom with a value, or a compound with at least a head).",
 ["inputs", "histories"], "all expressions, all sequences of library operations",
 "Tests look at an expression right after building it; none re-reads an old expression after many other operations.",
 [A, T, S, X], [("attribute writes only on the fresh object inside the constructors", A), ("Tree.__new__ rejects anything but a non-empty sequence of trees", T)],
 [("Atom.atom_type/value, Tree.children/value, Sym.rep", "the content of a node", T)], ["children/value/rep of existing objects"])

prop("C04", "Operations never modify what they are given",
 "Sorting, evaluating, substituting, differentiating, converting, printing, compiling, indexing and adding leave every object passed to them (operands, lists, sets, dictionaries, matrices, evaluators, substitution functions) exactly as it was, and a result shares no list or dictionary with an argument through which a later library call could change it.",
 ["inputs", "histories"], "all arguments of all public operations, reused any number of times",
 "Tests build fresh arguments for every call, so an argument damaged by a call is not looked at again.",
 [T, E, D, M, L, C, X], [("topological_sort copies exclude", T), ("SubsFunc.call builds a new stack", T), ("Matrix.binop copies elements and entrymap", M), ("Evaluator.eval_forward", E)],
 [], ["argument objects before and after each call"])

prop("C05", "Results do not depend on earlier calls",
 "The result of an operation is determined by its arguments and by the rules registered at the time of the call: no operation except explicit rule registration leaves anything behind that changes a later result, and a newly registered or replaced rule takes effect in the very next call.",
 ["histories"], "all sequences of operations and rule registrations",
 "Each test performs a handful of calls; stale caches only show when rules change, or different inputs collide, between two calls.",
 [D, E, S, X, C, L, M], [("rule tables are read at call time", E), ("diff rules are looked up at call time", D), ("from_sympy uses a cache local to the call", C)],
 [("Evaluator.atoms/operations, DiffProperties.diff_rules", "the rules", E)], ["result of the same call before and after other calls"])

prop("C06", "The library never keeps an unused expression alive",
 "Expressions are only weakly remembered: once the caller and the rules it registered no longer refer to an atom, tree, symbolic expression, matrix or intermediate result, nothing in the library holds a strong reference to it, however many expressions were built, evaluated, differentiated, converted or compiled.",
 ["histories"], "all histories of building and dropping expressions",
 "No test drops a reference and looks whether the object is gone.",
 [A, T, S, D, E, L, C], [("WeakValueDictionary intern tables", A), ("no module- or class-level strong container receives expressions", X)],
 [("intern tables", "must be weak in their values", T)], ["weak references to dropped expressions"])

prop("C07", "Building expressions is inert and keeps the written form",
 "Calling an expression and using +, -, *, /, ** (also reflected, unary + and -) builds exactly the documented node with the operands in the order written, for all operands: nothing is simplified, reordered, merged, flattened or dropped. Subtraction and division are represented as x + (-1*y) and x*y**(-1).",
 ["inputs"], "all operands of every operator and call",
 "Operators are tested on x, y and 2; a shortcut for 0, 1, equal operands or nested sums would go unnoticed.",
 [X, T, S], [("Expr.__add__ and the other operator methods", X), ("Expr.__call__", X), ("Tree.__call__", T)],
 [], ["head and args of the built expression"])

prop("C08", "Native operands are converted exactly or rejected",
 "Wherever native operands are accepted (operators, calls, substitution, matrix entries), an int is converted to the integer expression of exactly that value and an expression is used as it is; any other object is rejected with a TypeError (operators defer to the other operand first), never silently turned into or dropped from an expression.",
 ["inputs"], "all Python objects offered as operand, call argument, substitution key/value or matrix entry",
 "Tests try 1, 2, x, () and []; they cannot try every kind of object.",
 [X, M], [("expressify", X), ("expressify_other", X), ("Expr.__call__, ExprFunction, Matrix.__new__ pass every operand through expressify", X)],
 [], ["type and value of the operand in the result, or the exception"])

prop("C09", "Any nesting depth, and shared parts are processed once",
 "Building, sorting, evaluating, printing (str, repr, eval_repr, eval_latex), differentiating, substituting, op-counting, expanding, converting to SymPy and compiling symbolic expressions work for any nesting depth of operands (no recursion along the operands), and handle each distinct subexpression once however often it is shared, so that the work does not grow with the written size (apart from the length of the text itself when printing). Not meant are eval_recursive, which is documented as recursive, and the conversion from SymPy, whose own objects are built and walked recursively.",
 ["inputs"], "all expressions, however deep or however much shared",
 "A few tests use shared expressions of depth 100, below the recursion limit, and only for some operations.",
 [T, E, D, X, L], [("explicit stack in topological_sort", T), ("forward evaluation over the graph", E), ("diff_forward over the graph", D)],
 [], ["RecursionError, running time on deep or shared expressions"])

prop("C10", "Topological sort lists every subexpression once, children first",
 "For every expression the topological sort contains each distinct subexpression exactly once, every expression after all of its operands (and, when requested, its head), with the expression itself last; excluded expressions, and whatever is reachable only through them, are left out. Splitting keeps that order and separates atoms, heads and compound expressions without losing or duplicating any.",
 ["inputs"], "all expressions and all exclusion sets, with and without heads",
 "Four small expressions are sorted.",
 [T], [("topological_sort", T), ("topological_split", T)], [("seen", "the expressions already scheduled", T)], ["the returned lists"])

prop("C11", "The forward graph rebuilds exactly its expression",
 "Replaying the operations of a forward graph on its atoms yields the topological sort of the expression, ending with the expression itself: every operation refers to its operands, in order and with repetitions, by the position at which they were produced, and only to earlier positions.",
 ["inputs"], "all expressions, including bare atoms, calls without operands and repeated operands",
 "Two graphs are compared with literals.",
 [T], [("forward_graph", T), ("ForwardGraph", T)], [("indices", "position of each subexpression", T)], ["atoms and operations of the graph"])

prop("C12", "Evaluation applies the right rule to the right values",
 "A value supplied for an atom is always used, whatever that value is (zero, empty or None included); any other atom is evaluated by the rule of its atom type and every operation by the rule of its head applied to the values of its operands in order, falling back to the generic rule only when there is no specific one. Without any rule NoEvaluationRuleError is raised: no default is ever invented.",
 ["inputs", "configurations"], "all expressions, all value dictionaries, all sets of registered rules",
 "Values in tests are 1.0, 2.0 and -1.0, and rules are complete.",
 [E, S], [("Evaluator.eval_forward", E), ("Evaluator.eval_recursive", E), ("Evaluator.eval_atom", E), ("Evaluator.eval_operation", E), ("SymEvaluator.__call__", S), ("Transformer.__init__", E)],
 [("Evaluator.atoms, Evaluator.operations", "rule tables", E)], ["result or exception of the evaluator"])

prop("C13", "Only well-formed rules are registered, for exactly their pattern",
 "A rule is registered only if its pattern and its function call have the same operands and are of matching kind; otherwise BadRuleError (TypeError for derivative rules) is raised and the evaluator is left unchanged. An accepted rule is registered for exactly the head, atom type, operand position and calling convention of its pattern and overrides only an earlier rule for the same pattern.",
 ["inputs", "programs"], "all pattern/call pairs",
 "Ten bad pairs are tried; none checks that the evaluator is unchanged afterwards.",
 [S, E, D], [("SymEvaluator.__setitem__", S), ("SymEvaluator.add_op", S), ("SymDifferentiator.__setitem__", S), ("Evaluator.add_atom/add_op1/add_op2/add_opn", E), ("DiffProperties.add_diff_rule", D)],
 [], ["rule tables after the assignment, or the exception"])

prop("C14", "Differentiation follows the rules of calculus",
 "For every expression and symbol the derivative returned is the sum over the operands of the partial derivative times the operand's derivative: the sum rule, the product rule over all factors (repeated ones included), the chain rule with the rule registered for that head and operand position, and element-wise for distributive heads. The built-in rules are the derivatives of sin, cos and pow, repeated differentiation repeats exactly the given number of times, and a needed rule that is missing raises an error instead of being treated as zero.",
 ["inputs", "programs"], "all expressions, symbols, orders and registered rules",
 "A dozen derivatives are compared with literals.",
 [D, S, X], [("diff_forward", D), ("product_rule_forward", D), ("chain_rule_forward", D), ("SymDifferentiator.__call__", S), ("diff rules for sin, cos, pow, List", X)],
 [("DiffProperties", "zero, one, add, mul, distributive heads, rules", D)], ["the derivative expression"])

prop("C15", "Substitution is simultaneous and complete",
 "Replacing any set of subexpressions, atomic or compound, overlapping or nested, by any others replaces every occurrence (also in head position) simultaneously, each parameter by its own replacement whatever its position in the parameter list, and leaves everything else unchanged; a wrong number of replacements is a TypeError.",
 ["inputs"], "all expressions, parameter lists and replacement lists",
 "Five expressions with at most two parameters are tried; a parameter that is the whole expression is tried only as the sole parameter.",
 [T, X], [("SubsFunc.__new__", T), ("SubsFunc.call", T), ("ExprFunction", X), ("Expr.xreplace", X)],
 [("SubsFunc.atoms, SubsFunc.operations", "the compiled substitution", T)], ["the rebuilt expression"])

prop("C16", "Every back-end gives a head the same meaning",
 "Floating point evaluation, printing, LaTeX, conversion to and from SymPy, differentiation and scalar and matrix code generation all give the functions addition, multiplication, power, sine, cosine and the atoms integer and symbol the same mathematical meaning with operands in the same order, and whatever a back-end does not support (including a wrong number of operands) it rejects with an error instead of computing something else.",
 ["programs", "inputs"], "all heads and atom types in all back-ends, all operand counts",
 "Each back-end is tested on its own with a few expressions; none is compared with all the others.",
 [F, X, C, L], [("eval_f64, eval_repr, eval_latex rule tables", F), ("eval_to_sympy rules and _from_sympy_cache_args", C), ("_to_llvm_f64 and _to_llvm_f64_matrix", L)],
 [], ["results of the different back-ends on one expression"])

prop("C17", "Generated LLVM code is well formed and faithful",
 "For every expression or matrix and argument list, code generation either raises an error (LLVMNotImplementedError for anything it does not support) or returns a module in which every identifier is defined exactly once and before its use, every operation of the expression appears once with all its operands in order, integers appear as the exact bits of their double value, and the result returned (or stored) is the value of the expression (or of that matrix entry).",
 ["inputs"], "all expressions, matrices, symbol names and argument lists",
 "Two modules are compared with literals, with plain symbol names and binary operations.",
 [L, X], [("_to_llvm_f64", L), ("_to_llvm_f64_matrix", L), ("_double_to_hex", L), ("bin_expand before code generation", X)],
 [("identifiers, instructions", "value names parallel to the forward graph", L)], ["the IR text"])

prop("C18", "Compiled functions stay valid and follow their signature",
 "A function returned by lambdify takes its arguments in the order given, computes the same expression for as long as the caller keeps it (however many other functions are compiled or dropped afterwards), returns a fresh array of the matrix's shape with each entry in its own row and column on every call, and is independent of other compiled functions.",
 ["histories", "inputs"], "all argument lists and matrices, all later compilations and calls",
 "Tests call a function once or twice, right after compiling it.",
 [L, M], [("_exe_eng keeps every execution engine alive", L), ("_compile_llvm", L), ("_lambdify_llvm", L), ("_lambdify_llvm_matrix", L)],
 [("_exe_eng", "execution engines that own the machine code", L)], ["results of calling old compiled functions"])

prop("C19", "Matrix operations agree with element-wise algebra",
 "For all matrices, indexing, listing, adding, differentiating, printing and code generation agree on which entry is at row i, column j: entries equal to what was given, the element-wise sum or the element-wise derivative, zero where nothing is stored. Shape mismatches and out-of-range or non-integer indices raise errors.",
 ["inputs", "histories"], "all shapes, all sparsity patterns, all index pairs",
 "Matrices in tests are 1x1, 2x2 and 2x3 with few zero patterns.",
 [M, L, C], [("Matrix.__new__", M), ("Matrix.__getitem__", M), ("Matrix.tolist", M), ("Matrix.binop", M), ("Matrix.diff", M)],
 [("elements, entrymap", "non-zero entries and where they are", M)], ["M[i, j] and tolist() of results"])

prop("C20", "SymPy conversion maps every construct to its counterpart and back",
 "Conversion to SymPy and from SymPy are inverse to each other on integers, symbols (identified by their name), sums, products, powers, sine, cosine, tuples and named functions (up to the simplification that SymPy itself does when it builds an object), keep operand order and names, place matrix entries at the same row and column, never reuse conversions across calls, and raise NotImplementedError for any SymPy object that has no counterpart.",
 ["inputs", "histories"], "all convertible expressions and matrices, all unsupported SymPy objects",
 "Five expressions and one square matrix are converted.",
 [C, X, M], [("eval_to_sympy rule table", C), ("_from_sympy_cache", C), ("_from_sympy_cache_args", C), ("to_sympy_matrix, from_sympy_matrix", C)],
 [("cache", "conversions of one call", C)], ["converted expressions"])

prop("C21", "Printed form shows the structure unambiguously",
 "The printed text and the LaTeX form contain every operand in order, and group them as the expression does: different sums, products (of at least two operands), powers and calls over the same symbols, with identifiers as names, never print alike, because every compound operand is delimited wherever the surrounding operator could otherwise absorb part of it. Every expression whose functions are used with their number of operands can be printed.",
 ["inputs"], "all expressions",
 "About twenty strings are compared; power of a power or of a negative number is not among them.",
 [F, X, T], [("eval_repr rules", F), ("eval_latex rules", F), ("Tree.__str__, Tree.__repr__, Atom.__repr__", T)],
 [], ["str(), repr(), eval_latex()"])

prop("C22", "Optional dependencies are needed only where they are used",
 "Importing the package and building, printing, evaluating, differentiating and substituting expressions and generating LLVM text need nothing beyond the standard library: SymPy, NumPy and llvmlite are imported only by the operations that use them, and their absence cannot affect any other operation.",
 ["configurations"], "all combinations of installed optional packages",
 "The test environment has all of them installed.",
 ["src/protosym/simplecas/__init__.py", X, L, M, C], [("function-level imports in Expr.to_sympy, Expr.from_sympy, Matrix.to_sympy, _compile_llvm, _lambdify_llvm_matrix", X)],
 [], ["import of protosym.simplecas without the optional packages"])

prop("C23", "The same input gives the same output in every run",
 "The order of a topological sort, the operations of a forward graph, generated code, printed text, derivatives and substitutions depend only on the expression and the arguments, never on hash seeds, memory addresses, set iteration order, time or other processes.",
 ["configurations", "histories"], "all hash seeds and memory layouts",
 "Tests run with PYTHONHASHSEED=0 in one process.",
 [T, D, L, M, C], [("sets are used for membership only; lists and dicts give the order", T), ("sorted(mat.entrymap.items())", L)],
 [], ["outputs compared between processes"])

prop("C24", "Operation counts are exact",
 "count_ops_graph() is the number of distinct subexpressions of an expression (atoms included, heads not), and count_ops_tree() is the number of subexpressions counted with their multiplicity: 1 for every atom and 1 plus the counts of all operands for every operation, as exact integers however large.",
 ["inputs"], "all expressions, all heads, all operand counts",
 "One family of expressions (a power plus itself) is counted, so heads with other rules, more operands or repeated operands are not met.",
 [X, T, E], [("count_ops_tree rules", X), ("Expr.count_ops_graph", X), ("topological_sort", T)],
 [], ["count_ops_graph(), count_ops_tree()"])

prop("C25", "Binary expansion nests sums and products from the left and changes nothing else",
 "bin_expand() replaces, everywhere in an expression, every sum and every product of at least one operand by the nesting of binary sums (products) of the same operands in the same order from the left (the operand itself if there is only one), and leaves every atom, every other operation and every head as it was.",
 ["inputs"], "all expressions, all heads, all operand counts",
 "One sum of four atoms is expanded.",
 [X, E], [("bin_expand rules", X), ("Transformer fallback rules", E)],
 [], ["bin_expand()"])

prop("N01", "Compiled and interpreted results agree to rounding error",
 "For every expression and every floating point argument at which both are defined, the compiled function and eval_f64 agree within rounding error, and both approximate the exact mathematical value.",
 ["inputs"], "all expressions and all floats",
 "One point is compared.",
 [F, L], [("math.fsum/prod/pow against fadd/fmul/llvm.pow", L)], [], ["numerical results"])

prop("N02", "SymPy's own evaluation is idempotent on converted expressions",
 "Converting an expression to SymPy, letting SymPy evaluate it automatically, and converting back is stable from the second time on and never changes the mathematical value.",
 ["inputs"], "all expressions",
 "Five expressions are tried.",
 [C], [("automatic evaluation inside SymPy's constructors", C)], [], ["to_sympy(from_sympy(to_sympy(e)))"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
