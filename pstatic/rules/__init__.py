"""Properties and the rules that decide them."""
from . import backends, build, depth, diffr, effects, evalr, graph, identity, imports, llvmr, matrix, order, printing, sympyr

A_CORE = ["Python and the standard library behave as documented (WeakValueDictionary keeps an entry exactly as long as its value is alive, "
          "locks exclude each other)",
          "callers do not write to private attributes or module globals of the package themselves",
          "the analysed configuration is the pure Python one (the optional accelerator rust_protosym is absent)"]

CHECKS = {
    "C01": {
        "rules": [identity.interning, build.calls], "min": 15,
        "technique": "key-injectivity analysis of the constructors on a gated value-flow graph",
        "explanation": "Every constructor of atoms, trees and symbolic expressions is abstracted over all inputs. Obligations: each returned value is an "
                       "entry of the weak table under the construction key or the fresh object published under that key; the key contains every "
                       "identity-determining part, unprojected; the fields stored are those parts; no other code in the package writes, clears or "
                       "replaces a table; __eq__, __hash__ and relatives are not overridden; heads and constants are built once. Keys that are built "
                       "differently for different kinds of operands are compared kind by kind.",
    },
    "C02": {
        "rules": [identity.publication], "min": 10,
        "technique": "lock-region and publication-order analysis",
        "explanation": "For every write into a table shared by constructing threads: it happens inside a region of one lock shared by all writers, the "
                       "re-check and the insertion are in the same region, the value handed out is the one the table holds after the insertion, and "
                       "every field of the object is written before it is published. A lock that is chosen by a condition, by the object or from a list "
                       "of locks is the same lock only if equal keys choose the same one; a double-checked fast path is accepted, an insertion whose "
                       "re-check was made outside the region is not.",
    },
    "C03": {
        "rules": [identity.immutability], "min": 10,
        "technique": "who-may-write effect analysis",
        "explanation": "Every attribute write, deletion, setattr and __dict__ access of all functions of the package is collected; writes to node fields "
                       "are allowed only on the fresh object of a constructor before publication; constructors establish a well formed node (operands "
                       "checked, at least one child, atom value checked) on every path. A check that only some operands pass (any, the first one, after "
                       "the object was published) is no check.",
    },
    "C04": {
        "rules": [effects.no_argument_writes], "min": 60,
        "technique": "interprocedural mod/alias analysis by origin",
        "explanation": "Every public operation is abstracted with its callees inlined; each object it writes to (attribute, item, in-place method, "
                       "augmented assignment, escaping into an unknown callee) is traced to its origins. Writes to objects that come from an argument, "
                       "the receiver or another long-lived object are violations, unless the operation is the documented registration method. Results "
                       "that alias a mutable part of an argument are checked against all later writes. In-place operators (+=, |=, *=) count as writes "
                       "when the object may be mutable.",
    },
    "C05": {
        "rules": [effects.history], "min": 4,
        "technique": "hidden-state effect analysis",
        "explanation": "Collects all state that outlives a call (module globals, class attributes, attributes of long-lived objects, closures, mutable "
                       "defaults, caching decorators) and all writes to it outside module initialisation; only the intern tables, the documented rule "
                       "registrations and the keep-alive list of compiled code are allowed, and the rule tables must be read at the time of the call. "
                       "Counters and statistics that no result depends on are not history.",
    },
    "C06": {
        "rules": [effects.weak_memory], "min": 4,
        "technique": "escape analysis into long-lived containers",
        "explanation": "Every value stored into an object that outlives the call is classified by whether it can reach an expression node; only "
                       "weak-valued tables and documented rule registrations may hold one. Expressions held through exceptions, closures, lambdas, bound "
                       "methods and strong caches (lru_cache, dict tables) are followed.",
    },
    "C07": {
        "rules": [build.building], "min": 40,
        "technique": "value-flow analysis of the constructors and operators against the documented node",
        "explanation": "For symbolic operands, the term returned by every operator, by calling an expression, a tree or an atom type and by "
                       "head/args is computed over all paths and compared with the documented node: same head, same operands in the written "
                       "order, no condition under which another node is returned; constants and heads are evaluated from the module "
                       "initialisers.",
    },
    "C08": {
        "rules": [build.conversions], "min": 25,
        "technique": "case analysis of the operand conversion on the value-flow graph",
        "explanation": "Each operator, expressify, calls, substitution and matrix construction are abstracted for an operand that is an expression, an "
                       "int, and neither: the first is used as it is, the second becomes Integer of the same value, the third gives NotImplemented "
                       "(operators) or a TypeError, unconditionally. Conversions that leave out an operand or accept another type (float, str, bytes) are told apart.",
    },
    "C09": {
        "rules": [depth.any_depth], "min": 120,
        "technique": "recursion and repeated-work analysis of the call contexts of every documented entry",
        "explanation": "For every documented entry the calls that are reached (callees inlined) are enumerated. A call chain that returns to one of its functions "
                       "with operands of its argument is recursion along the expression; so is a text, hash or comparison of a node that takes that of its operands, "
                       "and functions that recurse along what they are given (copy.deepcopy, pickle, eval). A traversal that starts inside a loop over subexpressions for "
                       "an element of them, a text of any subexpression outside of printing, and a work list that takes operands without a test whether they were met "
                       "handle shared parts repeatedly. That the one traversal handles each subexpression once is decided by the rules of C10 (included).",
        "assumptions": A_CORE + ["from_sympy() and eval_recursive() are not meant: SymPy recurses itself, and the second is documented as recursive",
                                 "Python frees nested objects without recursion"],
    },
    "C10": {
        "rules": [graph.sorting], "min": 8,
        "technique": "inductive step analysis of the work-list sort on the value-flow graph",
        "explanation": "The sort is abstracted per iteration of its work list: which nodes are seeded, under which condition a node is "
                       "expanded, emitted and marked, in which order its children are put on the stack, and what is excluded in each mode. "
                       "Together with the classification made by topological_split this gives: every required node once, children before "
                       "parents, nothing else.",
    },
    "C11": {
        "rules": [graph.forward], "min": 7,
        "technique": "canonical form of the constructed lists and symbolic position tracking",
        "explanation": "The atoms and operations of a forward graph are brought into a normal form over the classification made by topological_split; "
                       "every write into the table of positions is matched with the place at which the value is produced (as a linear form over list "
                       "lengths and loop counters). The order of the operations is the order of the sort, which is decided by the rules of C10 "
                       "(included). Lists of positions that are sorted, reversed, deduplicated or filtered are no longer the operands in order.",
    },
    "C12": {
        "rules": [evalr.evaluation], "min": 25,
        "technique": "case-split symbolic value analysis of client scenarios (rule tables as phi choices) composed with the graph replay analysis",
        "explanation": "A client that registers a rule of every kind (free symbols for heads, atom types and functions) and evaluates a free expression "
                       "is analysed with the evaluator inlined. For every case (which table key equals the head or atom type, whether a value was "
                       "supplied) the value stored for an atom and for an operation must be the call of exactly the rule that applies, on the values of "
                       "the operands in order; the result is the value of the whole expression; missing rules raise. Recursive evaluation is decided by "
                       "one unfolding with the recursive calls as hypothesis, the forward one by the replay rules of C11 (included). Each ordered pair "
                       "of kinds of rule is tried for replacement. Rules that are tried before the supplied values, that are asked for a supplied atom, "
                       "and rules kept from an earlier call are violations.",
    },
    "C13": {
        "rules": [evalr.registration], "min": 60,
        "technique": "exhaustive case analysis of pattern and call kinds by symbolic inlining with effect tracking",
        "explanation": "Each of the 7 kinds of pattern is assigned each of the 8 kinds of call with free operands; for equal, different and "
                       "exchanged operands the outcome is decided: BadRuleError with no write to anything that existed before, or exactly the "
                       "table entry of that pattern. Derivative rules: the same for every position and repetition of the symbol among up to three "
                       "operands, with the key, function and parameter list written. Well-formed rules are followed into evaluation to "
                       "show the calling convention; each ordered pair of kinds of rule is tried for replacement.",
    },
    "C14": {
        "rules": [diffr.differentiation], "min": 250,
        "technique": "inductive step analysis on the value-flow graph, polynomial normal form of the derivative, case analysis of operands",
        "explanation": "The differentiation of an operation at an arbitrary place of an arbitrary graph is abstracted with free operands (0 to 5) whose "
                       "derivatives are 0, 1 or anything else. The term built for the derivative is brought into a polynomial normal form and compared "
                       "with the sum, product and chain rule; a missing rule must raise. The facts that the code asks for (equal operands, equal "
                       "derivatives) are split into cases. The built-in rules (sin, cos, pow, List, Add, Mul) are read from the module initialisation "
                       "and followed through the same analysis; the derivative of an atom, the place the result is read from, the n-th derivative (as a "
                       "loop, and for n = 0..3), the registration of rules, the forward graph (C11) and the substitution that applies the rules (C15) "
                       "are included. Every integer that the source compares a number of operands with adds the numbers around it to the ones that are "
                       "tried (up to 40 operands).",
    },
    "C16": {
        "rules": [backends.meaning, llvmr.operations], "min": 200,
        "technique": "symbolic inlining of each back-end over an abstract operation, reading of the resulting terms and texts as expressions",
        "explanation": "eval_f64(), eval_repr(), eval_latex() and to_sympy() are analysed with the rule tables built at import, for an operation at an "
                       "arbitrary place of an arbitrary graph with free operand values (all six heads of the package and another function, 0 to 4 "
                       "operands) and for an atom of each type with a free value. What is computed (arithmetic of Python, SymPy objects, or text that is "
                       "parsed) is read as an expression and compared, as polynomial with functions as indeterminates, with the operation itself; "
                       "unsupported heads, atoms and numbers of operands must raise. str(), repr() and SymPy's hook are the same operations; the "
                       "built-in derivative rules are compared with calculus. Scalar and matrix LLVM code: the instruction written for an abstract "
                       "operation is the same operation on the same operands, an integer is the bits of its double value, anything else is rejected. "
                       "Every integer in the source that a number of operands is compared with adds the numbers around it to the ones that are tried; "
                       "differences between two readings that no normal form decides are searched for a witness with small constants (which can only "
                       "refute).",
    },
    "C17": {
        "rules": [llvmr.llvm_code], "min": 60,
        "technique": "symbolic inlining of the code generator over an abstract operation, reading of the text templates as LLVM instructions",
        "explanation": "Expr.to_llvm_ir and Matrix.to_llvm_ir are analysed for an operation (every head, 0 to 4 operands) at an arbitrary place of an "
                       "arbitrary forward graph, atoms of each type and free arguments. The text that is returned is kept as a template with loops; its "
                       "lines are read as instructions: opcode or intrinsic, operands as positions of the graph, identifiers as linear forms in "
                       "iteration counts. Decided: meaning and order of the operands, one identifier per operation, different for all operations, "
                       "entries and arguments (prefixes, quoting, duplicates), the table of identifiers in step with the graph, all operations in order, "
                       "declarations, parameters in the order given, the value returned or stored, the place of a matrix entry; everything else raises "
                       "LLVMNotImplementedError. The forward graph and the binary expansion are decided by the rules of C11 and C25. Prefixes, quoting "
                       "and escapes of identifiers are read from the pieces of the text: no name of a user may meet a generated one.",
    },
    "C18": {
        "rules": [llvmr.compiled], "min": 70,
        "technique": "symbolic inlining of lambdify() and of calls of its result; ownership of the execution engine; template reading of the compiled text",
        "explanation": "lambdify() of an arbitrary expression or matrix and arbitrary arguments is inlined down to the calls of llvmlite, ctypes and "
                       "numpy; the function it returns is called once and twice with arbitrary values. Decided: the text that is compiled is the code of "
                       "C17 (all its rules, on this path); the engine is made from that module alone and is stored where nothing removes it "
                       "(module-level container that only grows, attribute or closure of the function); the address is that of the function the text "
                       "defines; one c_double for each argument, in order, after the pointer of a matrix; an array of zeros with the shape of the "
                       "matrix, made anew in every call, is passed to the code and returned. Arguments and signature may be rearranged only by the same "
                       "permutation.",
        "assumptions": A_CORE + ["llvmlite, ctypes and numpy behave as documented"],
    },
    "C19": {
        "rules": [matrix.matrices_agree], "min": 90,
        "technique": "representation-invariant analysis: matching of the writes to the entry map and the list of entries on the value-flow graph",
        "explanation": "A matrix is a list of entries and a map from places to positions in it. For Matrix(rows), M + N and M.diff(s) with arbitrary "
                       "matrices the fields of the result are computed as terms: every write to the map is matched with the entry stored at the position "
                       "it records (as a linear form in list lengths), under the condition under which both happen, and the entry is compared with the "
                       "one given, the sum or the derivative; the shape, the list expression and the errors for ragged rows and different shapes are "
                       "compared. M[i, j], tolist() and the printed text are decided for a stored and a missing entry and for every kind of wrong index. "
                       "The derivative of a list (rules of C14), the forward graph (C11) and the places of entries in generated code and in the arrays "
                       "of compiled functions (C17, C18) are included. Entries that share one position, in the same or in different matrices, and values "
                       "that are chosen by place are told apart.",
    },
    "C20": {
        "rules": [sympyr.conversions], "min": 60,
        "technique": "symbolic inlining of the conversion over kinds of SymPy objects, induction over the recursive call, matching of matrix writes",
        "explanation": "from_sympy is inlined for an arbitrary object; its recursive call is the induction hypothesis. For every kind of SymPy object "
                       "(sums, products, powers, sine, cosine, tuples, named functions with 0 to 4 operands, integers, symbols, and 16 kinds without a "
                       "counterpart) the conditions on class, flags and operands are decided, and the result is compared: head, name or value, every "
                       "operand converted once and in order, NotImplementedError for the others. The table of converted objects is a new one in every "
                       "call, keyed by the object, and holds the conversion of its key; nothing is kept between calls. to_sympy is decided for every "
                       "head with 0 to 4 operands and every type of atom, over the forward graph (rules of C11). Matrices: every entry is written at the "
                       "row and column it has, from the position recorded for it, and the shapes agree. Every integer in the source that a number of "
                       "operands is compared with adds the numbers around it to the ones that are tried.",
        "assumptions": A_CORE + ["SymPy's classes, flags (is_Add, ...), args and todok() are as documented; the simplification that SymPy does itself is not part of the property"],
    },
    "C21": {
        "rules": [printing.printed], "min": 500,
        "technique": "symbolic inlining of the printing rules to text templates, reading of every nesting of templates with a precedence grammar",
        "explanation": "The text that eval_repr() and eval_latex() write for an operation is extracted, with free operand texts, for every head of the package and "
                       "another function with 0 to 4 operands, and for atoms of each type. The templates are nested in each other, every operation as every operand of "
                       "every other (and of operations in those), and each text is read with the usual precedences (n-ary sums and products as written side by side): "
                       "it must show the expression that was nested, and no two expressions may give the same text. str() and repr() of core trees and atoms write "
                       "head, operands and values in order and delimited, by induction over the operands. The forward graph that is printed is that of the expression (rules of C11).",
    },
    "C22": {
        "rules": [imports.optional_packages], "min": 150,
        "technique": "import graph, effect analysis of imports per operation",
        "explanation": "Every import that is executed when the package is imported (all modules reachable from protosym, protosym.core and "
                       "protosym.simplecas, class bodies and branches included) is of the standard library or the package, for type checkers only, or "
                       "guarded by a handler that goes on without it. For every function and method of the package, with all calls into the package "
                       "inlined, the imports it executes and the functions of optional packages it uses are collected: only the SymPy conversions and "
                       "lambdify may need any, lambdify of an expression no NumPy, the text generators nothing; nothing registered as a rule needs any. "
                       "Modules imported on demand leave the others unchanged. Imports behind find_spec, importlib and try/except are included; a soft "
                       "import at import time is accepted only if the package works without it.",
    },
    "C23": {
        "rules": [order.same_output], "min": 100,
        "technique": "dataflow of arbitrary order, addresses, hashes, time and chance into results; hidden-state effect analysis",
        "explanation": "For every function, method, closure and lambda: loops over sets (literals, set(), set operations on keys, typed parameters and "
                       "fields, set.pop() work lists) and the lists and dictionaries that are filled in them or made of them are found, and every "
                       "returned value and stored attribute is searched for uses of that order: list(), join, operands, first or popped elements, "
                       "positions, accumulated values that do not commute, sort keys made of id() or hash(). Consumers that do not see the order "
                       "(membership, len, sorted, any, all, sets) and sets of integers are allowed. id() and hash() must not reach texts or comparisons "
                       "of size, objects without a text of their own must not be formatted, and clocks, random numbers and process ids must not reach "
                       "results. No state that outlives a call is read (rules of C05). Settings of the surroundings (environment variables, locale, "
                       "decimal context, recursion limit, working directory, argv) must not reach results either.",
        "assumptions": A_CORE + ["a weak table is only used to find the object of a value (C01, C02)", "the order of the arguments of SymPy objects is SymPy's"],
    },
    "C24": {
        "rules": [backends.counting], "min": 10,
        "technique": "symbolic inlining of the counting evaluator over an abstract operation, linear forms",
        "explanation": "count_ops_tree() gives 1 for an atom of each type and 1 plus the sum of the operands' counts for an operation with 0 to 4 operands; "
                       "count_ops_graph() is the length of the topological sort without heads (or of both parts of the forward graph), which are decided "
                       "by the rules of C10 and C11.",
    },
    "C25": {
        "rules": [backends.expanding], "min": 15,
        "technique": "symbolic inlining of the transformer over an abstract operation",
        "explanation": "For sums and products of 1 to 6 free operands the tree that bin_expand() builds is the nesting of binary operations from the left "
                       "with the same head; every other operation is rebuilt from the same head and operands, atoms stay the same object. The forward graph "
                       "it relies on is decided by the rules of C11.",
    },
    "C15": {
        "rules": [graph.substitution], "min": 10,
        "technique": "symbolic position tracking in the compiled substitution and inductive replay analysis",
        "explanation": "A compiled substitution is a list of kept expressions and a list of operations on positions. Decided: the positions recorded for "
                       "parameters, kept expressions and rebuilt ones are where the replay puts them; every expression that contains a parameter is "
                       "rebuilt from all its children (head included), every other needed one is kept; parameters are excluded from the sort; the result "
                       "is read at the position of the expression; the number of arguments is checked; xreplace, as_function and the call pass "
                       "parameters and replacements in step, all at once. A parameter that is given twice, that is an operation, the whole expression or "
                       "contains another parameter is included.",
    },
}
for _c in CHECKS.values():
    _c.setdefault("assumptions", A_CORE)
