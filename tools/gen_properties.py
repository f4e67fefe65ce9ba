#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

C = "src/protosym/core/"
S = "src/protosym/simplecas/"

p("P01", "Structurally equal expressions are one expression, whichever thread built them",
  "At any moment, any two live atoms, trees or user-level expressions that were built the same way (same kind of atom with the same value, or equal heads applied to equal arguments) compare equal and have equal hashes, and for user-level expressions are the same object; any two built differently (different kind, value, user-level class, argument order or nesting) compare unequal. This holds whatever threads built them, however their constructions interleaved with each other, with the dropping of equal expressions, with garbage collection and with constructions that failed or were interrupted part way.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of any number of threads constructing, dropping and re-constructing overlapping expressions; all garbage-collection instants; all interruptions of a construction",
  "The tests build expressions on one thread and compare a few of them (the identity assertions are even commented out); no test runs two constructions concurrently, drops an expression while it is being looked up, or interrupts one.",
  [C+"atom.py", C+"tree.py", C+"sym.py"],
  [("store of live atoms", "weak map (kind, value) -> the atom", C+"atom.py"), ("store of live trees", "weak map atom or children -> the tree", C+"tree.py"), ("store of live user-level expressions", "weak map (class, tree) -> the expression", C+"sym.py")],
  [("look up, else create and atomically publish", C+"atom.py Atom.__new__, "+C+"tree.py Tree.__new__/Tree.atom, "+C+"sym.py Sym.__new__")],
  ["results of every construction", "== / hash() / is between all held objects"])

p("P02", "Expressions, matrices and caller-supplied containers never change",
  "Once obtained, an expression (its head, arguments, atom kind and value, printed form) and a matrix (its shape and entries) stay exactly as they were for as long as they are held, whatever other operations any thread runs on them, successfully or not. No operation modifies a list, dict, set, expression or matrix passed to it, and later changes by the caller to a container it passed in or was handed back do not alter any expression, matrix, substitution function or later result.",
  ["histories", "schedules", "inputs"],
  "all sequences and interleavings of library operations applied to shared expressions, matrices, substitution functions and caller-owned containers",
  "Tests look at a result right after computing it and never re-examine operands, arguments or earlier results after further operations, other threads' operations or failures.",
  [C+"tree.py", C+"evaluate.py", S+"expr.py", S+"matrix.py"],
  [("children / value", "contents of a tree node", C+"tree.py"), ("elements, entry map", "contents of a matrix", S+"matrix.py"), ("recorded operations of a substitution function", "reused by every call", C+"tree.py")],
  [("operations build new nodes; containers are copied at the boundary", C+"tree.py SubsFunc, topological_sort; "+S+"matrix.py binop, diff, tolist")],
  ["snapshots of every held object after every operation"])

p("P03", "Expressions no longer used are reclaimed; nothing else keeps them alive",
  "The library keeps an expression alive only while the caller, an enclosing live expression, or a registered rule or reusable function mentioning it does: once those are gone (and cyclic garbage has been collected) every one of its nodes that nothing else uses is freed, so memory does not grow with the number of expressions ever built, looked up, evaluated, differentiated, substituted, printed or converted. This also holds after operations that failed, and regardless of the order in which threads drop shared subexpressions.",
  ["histories", "schedules", "fault_sequences"],
  "all histories of building, using and dropping expressions in several threads, including failing operations",
  "No test ever drops an expression and looks at what remains; a strong reference left behind is invisible to result-checking tests.",
  [C+"atom.py", C+"tree.py", C+"sym.py", C+"evaluate.py", C+"differentiate.py"],
  [("global stores", "hold their entries weakly", C+"atom.py, "+C+"tree.py, "+C+"sym.py")],
  [("weak-valued stores", C+"atom.py, "+C+"tree.py, "+C+"sym.py"), ("per-call working lists only", C+"evaluate.py, "+C+"differentiate.py")],
  ["the set of live expression objects at quiescent points, compared with what the held objects reach"])

p("P04", "Evaluation gives the bottom-up result, applying each rule once per subexpression",
  "Evaluating an expression returns what applying the registered rules bottom-up to its arguments gives: explicitly supplied values are used for the atoms they are supplied for (whatever the value is), otherwise the rule for the atom's kind or head, otherwise the generic fallback, otherwise a no-rule error. Each distinct compound subexpression has its rule applied exactly once per evaluation, after its arguments' rules, with the arguments in order; an exception raised by a rule reaches the caller unchanged. This holds for any number of threads sharing one evaluator, for rules that themselves evaluate or build expressions, and after evaluations that failed or were interrupted.",
  ["schedules", "inputs", "fault_sequences"],
  "all expressions (shared, nested, nullary, compound heads), rule tables and value assignments, under all interleavings of evaluations sharing evaluators, re-entrant rules and failing rules",
  "Tests evaluate a handful of small expressions on one thread with float values; none counts rule applications, shares an evaluator, re-enters it, makes a rule fail part way, or supplies unusual values.",
  [C+"evaluate.py", C+"sym.py", S+"functions.py", S+"expr.py"],
  [("rule tables", "atom rules, head rules, two fallbacks", C+"evaluate.py")],
  [("forward evaluation over the expression graph", C+"evaluate.py eval_forward"), ("per-call value stack", C+"evaluate.py")],
  ["value returned", "log of rule invocations"])

p("P05", "Rule registration is all-or-nothing, isolated, and seen by later operations",
  "A registered evaluation, transformation or differentiation rule is used by every operation that starts after its registration completed (until it is replaced), an operation overlapping a registration uses either the old or the new rule for each lookup, and the latest completed registration for the same kind, head or argument position wins. A registration that is rejected as malformed, fails or is interrupted leaves the rules as they were, or as if it had completed if it was interrupted; it never removes or alters another rule. Rules of one evaluator or differentiator never influence another.",
  ["schedules", "histories", "fault_sequences"],
  "all histories of registrations (valid, malformed, interrupted) and uses of several evaluators and differentiators from several threads",
  "Tests register all rules up front on one thread and only check that malformed rules raise; none registers during or between evaluations, replaces rules, or checks the tables after a rejection.",
  [C+"sym.py", C+"evaluate.py", C+"differentiate.py"],
  [("rule tables of an evaluator", "one entry per atom kind, per head, plus fallbacks", C+"evaluate.py"), ("rule table of a differentiator", "one entry per (head, argument position)", C+"differentiate.py")],
  [("validate first, then one table store", C+"sym.py SymEvaluator.__setitem__, SymDifferentiator.__setitem__")],
  ["which version of each rule every evaluation used, with global event stamps"])

p("P06", "Substitution is simultaneous, exact and repeatable",
  "Substituting for one or more subexpressions replaces, outermost first and simultaneously, every occurrence of each of them (as an argument, as a head, or as the whole expression) by its replacement and leaves everything else as built; replacements are never themselves substituted into. A reusable substitution function gives the answer for its own arguments on every call, in argument order, from any number of threads at once, after calls that failed, and rejects a wrong number of arguments.",
  ["inputs", "schedules", "histories"],
  "all expressions, target lists and replacement lists, under all interleavings of calls sharing a substitution function, dropping of intermediate expressions, and failed or interrupted calls",
  "Tests cover about a dozen fixed substitutions, each called once on one thread; several overlapping targets, a target that is the whole expression among several targets, repeated calls and sharing are not reached.",
  [C+"tree.py", S+"expr.py"],
  [("recorded operations and fixed subexpressions", "reused by every call", C+"tree.py SubsFunc")],
  [("topological sort without the targets, then replay on a fresh stack", C+"tree.py SubsFunc"), ("user-level wrappers", S+"expr.py xreplace, as_function, ExprFunction")],
  ["structure of the result against a recursive reference substitution"])

p("P07", "Differentiation obeys the registered rules and the sum, product and chain rules",
  "The derivative of an expression with respect to a symbol is algebraically what the constant, sum, product and chain rules and the registered partial derivatives give (elementwise through heads registered as distributive), and the n-th derivative is the same expression as differentiating n times. The answer for an expression is the same expression every time it is asked for, in any thread, whatever else is being built, dropped, differentiated or interrupted, and asking never changes what other derivatives are.",
  ["inputs", "schedules", "histories"],
  "all expressions over sums, products, powers, registered functions of one or more arguments and distributive heads, all orders, under all interleavings with other clients of the same differentiator",
  "Tests differentiate about fifteen small expressions once, on one thread; products of several factors, multi-argument rules, rules whose right-hand side is an argument, shared subexpressions under concurrent reclamation and interruptions are not reached.",
  [C+"differentiate.py", C+"sym.py", S+"expr.py"],
  [("rule table and distributive heads", "shared by all clients", C+"differentiate.py")],
  [("forward accumulation over the expression graph", C+"differentiate.py diff_forward, product_rule_forward, chain_rule_forward")],
  ["derivative evaluated exactly in a finite field with random functions for the heads, against dual numbers"])

p("P08", "Traversals list each distinct subexpression once, children first, and rebuild",
  "Listing an expression's subexpressions gives each distinct one reachable through arguments (and heads when asked) exactly once, never before any of its arguments, ending with the expression itself, and omits excluded ones together with whatever is reachable only through them. Its split form separates atoms, heads and compound nodes consistently with that listing, and replaying its forward graph from its atoms rebuilds every subexpression and finally the same expression. This holds in any thread while other threads build, drop and traverse overlapping expressions.",
  ["inputs", "schedules"],
  "all expression graphs (shared, deep, wide, nullary, compound heads) and exclusion sets, under all interleavings with other clients and reclamation",
  "Tests traverse four small expressions; sharing patterns, exclusion sets, compound heads, repeated arguments and concurrent use are sampled by none.",
  [C+"tree.py"],
  [("per-call stack and seen-set", "traversal state", C+"tree.py topological_sort")],
  [("iterative depth-first walk", C+"tree.py topological_sort, topological_split, forward_graph")],
  ["the returned lists, checked for completeness, uniqueness, order and rebuild"])

p("P09", "Compiled functions compute their expression for as long as they are held",
  "A function compiled from an expression or matrix returns, for every argument list, the value (or array of values, zeros included) that the expression or its entries have for those arguments up to floating-point rounding, with arguments bound in the order listed. It keeps doing so for as long as it is held: after the expression is dropped, after other functions are compiled, called or dropped, after compilations that failed on unsupported expressions or were interrupted, after garbage collection, and from any thread; each call of a compiled matrix returns its own array.",
  ["histories", "schedules", "inputs"],
  "all histories of compiling, calling, dropping and failing to compile several functions from several threads, for all supported expressions and matrices over symbols of any name",
  "Tests compile a few functions and call each once immediately; no test holds one function across another compilation, a failure, a collection or a thread.",
  [S+"lambdification.py", S+"matrix.py"],
  [("compiled modules kept alive", "machine code behind every compiled function", S+"lambdification.py")],
  [("one module and engine per function, kept alive", S+"lambdification.py _compile_llvm"), ("fresh output array per call", S+"lambdification.py _lambdify_llvm_matrix")],
  ["values returned against a reference evaluator"])

p("P10", "Matrix operations agree with the dense elementwise definition",
  "Building, indexing, listing, printing, adding and differentiating matrices agree entry by entry with the same operations on plain nested lists of expressions, absent entries being zero: adding combines the two entries where both are present, keeps the present one otherwise, and never affects its operands. Malformed shapes, mismatched shapes, unsupported entries and out-of-range or malformed indices are rejected without effect. This holds when several threads operate on shared matrices and when operations fail or are interrupted.",
  ["inputs", "histories", "schedules"],
  "all matrices (sparse, empty-of-nonzeros, repeated entries), chains of operations on shared matrices, interleavings and interruptions",
  "Tests use 1x1 to 2x3 matrices once each on one thread, and never look at operands or chained results again.",
  [S+"matrix.py"],
  [("elements, element graph, entry map", "sparse storage", S+"matrix.py")],
  [("copy-then-merge of sparse entries", S+"matrix.py binop"), ("differentiate the element list as one expression", S+"matrix.py diff")],
  ["every entry of every held matrix against a dense model"])

p("P11", "SymPy conversion preserves meaning and round-trips, from first use on",
  "Converting a supported expression or matrix to SymPy gives a SymPy object with the same value and symbols, and converting a SymPy object made of supported pieces (integers, plain symbols, sums, products, powers, sines, cosines, tuples and undefined functions not named like one of these) to this library and back gives the same SymPy object, including empty function calls and matrices with only zeros; unsupported SymPy objects are rejected. This holds from any thread and from the very first conversion in a process, including when that first use was interrupted or its import failed and is retried, and when several threads perform it at once.",
  ["inputs", "schedules", "fault_sequences"],
  "all supported expressions and matrices; all interleavings of first and later conversions; import failures and interruptions during the first conversion",
  "Tests convert six fixed expressions after a successful first import on one thread; a failed or interrupted first use, concurrent first uses and zero matrices or nullary calls are not reached.",
  [S+"sympy_conversions.py", S+"expr.py", S+"matrix.py"],
  [("conversion rule table", "built when the conversion module is first imported", S+"sympy_conversions.py")],
  [("lazy import on first conversion", S+"expr.py to_sympy/from_sympy, "+S+"matrix.py"), ("recursive conversion with a per-call cache", S+"sympy_conversions.py")],
  ["numeric value of both sides; SymPy equality of the round trip"])

p("P12", "Every operation finishes: no deadlock, no depth limit, no blow-up on sharing",
  "Building, listing, evaluating, transforming, differentiating, substituting, counting, compiling to code, and dropping an expression all finish, without error, within a number of steps proportional to the number of its distinct subexpressions and their arguments, however deeply nested (beyond the interpreter's recursion limit) and however heavily shared it is. No interleaving of any number of threads, and no operation that failed or was interrupted earlier, can leave another operation blocked or running forever.",
  ["schedules", "inputs", "fault_sequences"],
  "deep chains, wide nodes and exponentially shared graphs; all interleavings; all earlier failures and interruptions",
  "Tests check counts for a few shared expressions and never nest deeper than the recursion limit, run threads, or continue after an interruption.",
  [C+"tree.py", C+"evaluate.py", C+"differentiate.py", C+"sym.py", S+"lambdification.py"],
  [("seen-set and explicit stack", "bound the walk", C+"tree.py topological_sort")],
  [("iterative walk visiting each distinct node once", C+"tree.py"), ("forward evaluation / accumulation", C+"evaluate.py, "+C+"differentiate.py")],
  ["executed-instruction count of each operation; blocked clients"])

p("P13", "A failed or interrupted operation leaves no trace",
  "If an operation is cut short at any instant by an interrupt, by memory or recursion exhaustion, or by an exception from caller-supplied code, then either it raises that error or it returns the correct result, never anything else. Afterwards every expression, matrix, rule and reusable function behaves as if the failed operation had never been attempted, and repeating the operation gives the correct result.",
  ["crash_points", "fault_sequences", "schedules"],
  "every operation of the library, cut short at every instant it can be, once or repeatedly, alone or with other threads in mid-operation",
  "No test interrupts anything; the space is (operation) x (instant) x (kind of failure) x (what the other threads are doing).",
  [C+"atom.py", C+"tree.py", C+"sym.py", C+"evaluate.py", C+"differentiate.py", S+"expr.py", S+"matrix.py", S+"lambdification.py"],
  [("global stores", "must never hold a half-made object", C+"atom.py, "+C+"tree.py, "+C+"sym.py"), ("rule tables", "change in one step", C+"evaluate.py, "+C+"differentiate.py")],
  [("objects are completed before they are published", C+"atom.py, "+C+"tree.py, "+C+"sym.py"), ("working state is per call", "all operations")],
  ["outcome of the cut-short operation; a battery of operations afterwards"])

p("P14", "Printed forms and operation counts depend on structure alone, and are right",
  "The plain, raw and LaTeX forms of an expression are the documented rendering of its structure (sums, products, powers, sine and cosine, calls of other heads, atoms by value), its graph operation count is the number of its distinct subexpressions and its tree operation count counts them with multiplicity. Each is the same every time it is asked for, in any thread, whatever is concurrently built, dropped, printed or interrupted.",
  ["inputs", "schedules", "histories"],
  "all expressions; all interleavings with other printing, counting, building and dropping; all interruptions",
  "Tests print and count about thirty fixed expressions on one thread; interplay with other clients, histories and unusual structure (nullary and compound heads, big or negative integers, large sharing) is not reached.",
  [S+"functions.py", S+"expr.py", C+"tree.py", C+"sym.py", C+"atom.py"],
  [("printing and counting rule tables", "module-level, shared", S+"functions.py, "+S+"expr.py")],
  [("evaluators over the expression graph", S+"functions.py, "+S+"expr.py")],
  ["strings and counts against a reference renderer and counter"])

p("P15", "Operators and constructors build exactly the expression that was written",
  "Arithmetic operators, calls, atom constructors, negation, n-ary sums and products and conversion of Python integers build exactly the documented inert form of what was written (same head, same operands in the same order, subtraction and division through multiplication by or power of minus one) with no simplification, re-ordering or flattening; rebuilding an expression from its own head and arguments gives back the same expression. Expanding n-ary sums and products to binary ones left-associates them and changes nothing else. Unsupported operands are refused with a type error and no effect; all of this in any thread and after any failed or interrupted construction.",
  ["inputs", "schedules", "fault_sequences"],
  "all operand structures and integer values; all interleavings of constructions of overlapping expressions; all failures",
  "Tests check two dozen fixed constructions on one thread; nested n-ary expansion, big and negative integers, reflected operators on compound operands and concurrent construction are not reached.",
  [S+"expr.py", C+"sym.py", C+"tree.py", C+"evaluate.py"],
  [("well-known heads and constants", "module-level expressions compared by identity", S+"expr.py")],
  [("operators delegate to head calls", S+"expr.py"), ("expansion by a transformer", S+"expr.py bin_expand")],
  ["structure of every result against the documented form"])

p("P16", "Results depend only on the inputs, not on other threads, history or layout",
  "What a client of the library observes from its own calls (printed forms, numbers, counts, subexpression order, generated code, converted objects, errors) is the same whether it runs alone in a fresh process, or after and interleaved with any other clients' operations, garbage collections and failures that do not register rules it uses, and whatever the hash seed and memory layout of the process. In particular an atom holds the value it was created with, not an equal but distinguishable one that some other client created.",
  ["histories", "schedules", "configurations"],
  "all client programs, all other clients and histories, all hash seeds and memory layouts",
  "A test sees one history under one hash seed; a dependence on what else is alive, on address reuse or on set order needs two executions to be compared.",
  [C+"atom.py", C+"tree.py", C+"sym.py", C+"evaluate.py", C+"differentiate.py", S+"expr.py", S+"lambdification.py", S+"matrix.py"],
  [("global stores", "the only state shared between unrelated clients", C+"atom.py, "+C+"tree.py, "+C+"sym.py"), ("sets of nodes", "address-ordered, must not leak into results", C+"tree.py")],
  [("stores are keyed by structure", C+"atom.py, "+C+"tree.py, "+C+"sym.py"), ("results are built from ordered lists, not sets", C+"tree.py")],
  ["transcript of a client run alone against its transcript among others"])

p("P17", "Printed forms are unambiguous",
  "Two different expressions over ordinary names never have the same plain printed form, so what is displayed identifies the expression (grouping of nested powers included).",
  ["inputs"], "all pairs of expressions",
  "Tests print fixed expressions one by one and never compare the forms of different expressions.",
  [S+"functions.py"], [], [("rendering rules", S+"functions.py")], ["plain printed form"])

p("P19", "Floating-point evaluation is as accurate as its elementary operations",
  "Evaluating an expression in 64-bit floating point has an error of the order of the rounding of its individual operations.",
  ["inputs"], "all expressions and float inputs",
  "Tests compare a few values with fixed constants.",
  [S+"functions.py"], [], [("float rules", S+"functions.py")], ["float result"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as fh:
    for q in P:
        fh.write(json.dumps(q) + "\n")
print(len(P), "properties")
