#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Scoring lifecycle: outputs, counters, emit, fold, merge, begin/end",
 "For every sequence of begin / action / end / merge calls an engine delivers exactly what its method (map, emit, fold) prescribes: a map action returns its value, an emit action hands each emitted value to the consumer once and in program order, and a fold action sees the previous tally (initially the declared zero) and its result becomes the next tally. actionsStarted counts every attempted action whose input was accepted, actionsFinished only the ones that completed, and both are readable by the document with those values. A failed action leaves the tally and every later result as if that action had not contributed.",
 ["histories", "programs"], "all finite sequences of lifecycle calls, over documents of each method, including failing actions at any position",
 "The tests run a handful of fixed call sequences; the guarantee quantifies over every interleaving of successful and failing calls.",
 ["titus/genpy.py", "titus/pfaast.py"],
 [("generated action/begin/end/merge functions", "titus/genpy.py: PFAEngine.fromAst, GeneratePython.*.CommandContext"), ("counters and tally update", "titus/genpy.py: PFAEngine.fromAst (action closures)")],
 ["PFAEngine.begin/action/end/merge return values", "emit callback", "PFAEngine.actionsStarted/actionsFinished/tally"],
 [("tally", "running fold value", "titus/genpy.py PFAEngine"), ("actionsStarted/actionsFinished", "per-instance counters", "titus/genpy.py PFAEngine")])

prop("C02", "An action that fails leaves rollback cells and pools untouched",
 "Whenever an action ends in an error, at whatever point of its evaluation and however many state updates it has already made, every cell and pool declared with rollback holds exactly the value it had before the action, including pool items that were created, changed or deleted. State declared without rollback keeps precisely the updates made before the failure, and subsequent actions continue from that state.",
 ["crash_points", "histories"], "every failure point inside an action x every mix of rollback/non-rollback cells and pools x every update history before it",
 "Tests fail at one fixed point of one document; atomicity is a statement about every possible failure point and update history.",
 ["titus/genpy.py"],
 [("backup/restore around action", "titus/genpy.py: PFAEngine.fromAst action, Cell/Pool.maybeSaveBackup/maybeRestoreBackup")],
 ["PFAEngine.snapshot", "results of later actions"],
 [("cell/pool value and backup", "persistent storage with optional backup", "titus/genpy.py Cell, Pool")])

prop("C03", "Values are immutable and engine instances are isolated",
 "A value bound by a document, stored in a cell or pool, passed to a function or returned from an engine never changes afterwards, whatever later expressions, updates, library calls or actions do: an update always produces a new value. Inputs handed to an engine are never modified by it, and instances built from one document share nothing but the state explicitly declared shared.",
 ["programs", "histories"], "all programs that alias values between symbols, cells, pools, inputs and outputs and then update one of them; all interleavings of actions over several instances",
 "Aliasing only shows after a later update through another name; tests look at one result at a time.",
 ["titus/genpy.py", "titus/util.py", "titus/pfaast.py", "titus/lib/array.py", "titus/lib/map.py"],
 [("copy-on-update of paths", "titus/genpy.py: ExecutionState/update, Cell.update, Pool.update"), ("library functions build new values", "titus/lib/*.py")],
 ["action results held by the caller", "input objects held by the caller", "cells/pools via snapshot and cell-get"])

prop("C04", "A snapshot is an equivalent document",
 "At any point of an engine's life its snapshot is a loadable document whose cells and pools hold exactly the current state, and an engine built from that snapshot responds to every further input with the same outputs, errors and state as the original engine would (a snapshot carries cells and pools only: action counters and a fold engine's tally start afresh). Taking a snapshot does not disturb the running engine.",
 ["histories"], "every reachable engine state and every continuation",
 "Tests snapshot one or two simple states; equivalence concerns all values (unions, records, binary data) and all continuations.",
 ["titus/genpy.py", "titus/pfaast.py"],
 [("snapshot assembly", "titus/genpy.py: PFAEngine.snapshot, Cell/Pool toJson"), ("document serialisation", "titus/pfaast.py toJson")],
 ["PFAEngine.snapshot().toJson()", "continuation results"])

prop("C05", "Shared cells and pools update atomically under concurrency",
 "When several engine instances that share cells or pools run actions concurrently, every update takes effect atomically: no update is lost, each updater sees the value left by the preceding one, and readers see only values that some update produced. An update that fails leaves the shared value unchanged, and no sequence of successes and failures can leave the shared state locked, so every instance can always finish its action.",
 ["schedules", "fault_sequences"], "every interleaving of lock/read/compute/write steps of 2-3 instances, with updaters that may fail",
 "The unit tests are single threaded or rely on the operating system's scheduler; the property is about every schedule and every failing updater.",
 ["titus/genpy.py"],
 [("lock per shared cell", "titus/genpy.py: Cell.update"), ("lock per pool and per item", "titus/genpy.py: Pool.update"), ("pool deletion", "titus/genpy.py: pooldel code")],
 ["final shared values", "results of the actions", "whether every thread finishes"],
 [("Cell.lock, Pool.locklock, Pool.locks", "mutual exclusion for shared state", "titus/genpy.py")])

prop("C06", "Documents that could deadlock or recurse into state are rejected",
 "A document is rejected at load time exactly when some cell-to or pool-to updater can, through any chain of user functions (directly, by reference, by inline function, or through a library call's callback), reach another cell or pool modification. The call-graph queries on an engine (who calls whom, call depth, recursion, side effects) agree with the document's true static call graph.",
 ["programs"], "all call graphs over user functions, direct calls, references, inline functions and state accesses",
 "Tests check a few named graphs; the property is about reachability in every graph, including cycles.",
 ["titus/genpy.py", "titus/pfaast.py"],
 [("deadlock check", "titus/genpy.py: PFAEngine.fromAst / checkForDeadlock"), ("call graph collection", "titus/pfaast.py: AstContext.calls"), ("callGraph queries", "titus/genpy.py: calledBy, callDepth, isRecursive, hasSideEffects")],
 ["PFAEngine.fromJson acceptance", "calledBy/callDepth/isRecursive/hasRecursiveFunctions/hasSideEffects"])

prop("C07", "Expressions and control flow evaluate as the PFA language defines",
 "For every well-typed expression the engine computes the value PFA assigns to it: sequencing, let/set, if and cond, while, do-until, for, foreach, for key-value, cast-cases, upcast, ifnotnull, new/do blocks, user functions (including recursion), function references with fill, dynamic calls, and short-circuit logic. Each subexpression is evaluated once, in order, and only if its turn comes.",
 ["programs", "inputs"], "all programs composed from the special forms and core functions to bounded depth, on all inputs",
 "Tests give one or two examples per form; interactions of nested forms, evaluation order and repetition counts are a statement about every composition.",
 ["titus/pfaast.py", "titus/genpy.py", "titus/lib/core.py"],
 [("code generation per form", "titus/genpy.py: GeneratePythonBasic.__call__"), ("runtime helpers doBlock, cond, ifThenElse, loops, cast", "titus/genpy.py")],
 ["action results, emitted values, log calls and final state"])

prop("C08", "Path access and update: exact element, exact result, exact error",
 "Reading through a path (attr, cell, pool) yields the element at that path, and updating through a path yields a value that differs from the original in exactly that element. A path that runs off an array or names a missing key raises the documented runtime error with the documented code, for reads and for updates, at every depth and for every kind of container.",
 ["inputs", "programs"], "all nestings of arrays, maps and records, all in-range, boundary, negative and missing indices",
 "Tests check a few paths of depth one to three with valid indices.",
 ["titus/genpy.py", "titus/pfaast.py"],
 [("get/update helpers", "titus/genpy.py: get, update"), ("path type resolution", "titus/pfaast.py: HasPath.walkPath")],
 ["action results", "PFARuntimeException code"])

prop("C09", "Errors surface exactly once and try catches exactly what it names",
 "A user error carries its message and code out of the engine; a library or access failure carries its documented code; evaluation stops there and nothing after it takes effect. try returns the body's value when nothing fails, yields null for a failure matched by its filter (or any runtime failure when unfiltered), and lets every other failure through unchanged, at any nesting.",
 ["programs", "fault_sequences"], "all nestings of try, filters (messages, codes) and failing expressions, at every evaluation position",
 "The tests cover a few flat examples; propagation through nested loops, functions, and updaters is universal.",
 ["titus/genpy.py", "titus/errors.py", "titus/pfaast.py"],
 [("tryCatch", "titus/genpy.py: ExecutionState / tryCatch"), ("error raising", "titus/errors.py: PFARuntimeException, PFAUserException")],
 ["exception type, message and code from action()", "results of try"])

prop("C10", "Lexical scoping and assignment rules hold for every program",
 "A symbol can be used only where it is in scope, cannot be declared again by let while visible (names bound by cast cases, ifnotnull, loops and inline-function parameters have their own scope), cannot be assigned unless declared in an assignable scope with a compatible type, and function bodies see only what PFA lets them see (user functions: their parameters; inline functions: the enclosing symbols read-only; nested blocks: enclosing symbols read-write unless sealed). Programs that break a rule are rejected at load; programs that respect them run with each name denoting its innermost declaration.",
 ["programs"], "all programs over nested scopes and let/set/use placements",
 "Tests cover each rule once; the rules interact with every scope-creating form.",
 ["titus/pfaast.py", "titus/genpy.py", "titus/util.py"],
 [("SymbolTable", "titus/pfaast.py: SymbolTable"), ("DynamicScope", "titus/util.py: DynamicScope")],
 ["PFAEngine.fromJson acceptance", "action results"])

prop("C11", "Accepted programs are type-sound; ill-typed programs are rejected",
 "A document is accepted exactly when PFA's typing rules derive a type for every expression that the declared types accept (function arguments, let/set, cell and pool values, return and output types). The type the engine derives is the one the rules give, and every value actually produced by an accepted document conforms to the declared output type.",
 ["programs"], "all typed and near-miss ill-typed programs over the type language",
 "The tests assert a finite list of acceptances and rejections.",
 ["titus/pfaast.py", "titus/signature.py", "titus/datatype.py"],
 [("per-form walk", "titus/pfaast.py: *.walk"), ("signature matching", "titus/signature.py: Sig.accepts")],
 ["PFAEngine.fromJson acceptance or PFASemanticException", "type of action results"])

prop("C12", "Type acceptance is a preorder and the broadest type is a least bound",
 "Type acceptance is reflexive and transitive, promotes int to long to float to double and nothing else among primitives, is covariant in containers and contravariant in function parameters, accepts a member or sub-union into a union, and identifies named types by full name. The common type computed for a set of candidate types accepts every candidate, and is the narrowest promotion among primitives.",
 ["inputs"], "all pairs, triples and sets of types to bounded depth",
 "Laws over pairs and triples of an infinite type language cannot be sampled by hand-written examples.",
 ["titus/datatype.py", "titus/signature.py"],
 [("accepts", "titus/datatype.py: *.accepts"), ("broadestType", "titus/signature.py: LabelData.broadestType")],
 ["Type.accepts, LabelData.broadestType, JSON form of types"])

prop("C13", "A call resolves to the first live signature that fits, with exact types",
 "A library call is accepted exactly when some signature of the function that is alive in the document's version fits the argument types, and the first such signature in declaration order determines the parameter and result types, with each wildcard standing for the broadest of everything matched against it. A signature is usable from its birth version until its death version and is reported as deprecated in between as declared.",
 ["inputs", "configurations"], "all signatures over the pattern language x argument types x document versions",
 "Tests try selected signatures; resolution is a matching problem over the whole pattern language.",
 ["titus/signature.py", "titus/P.py", "titus/fcn.py"],
 [("Sig.accepts/Sigs.accepts", "titus/signature.py"), ("Lifespan, PFAVersion", "titus/signature.py")],
 ["Sig.accepts result (parameter and return types)", "document acceptance under a version option"])

prop("C14", "Data crossing the engine boundary is validated and converted faithfully",
 "Input data and embedded JSON values are accepted exactly when they denote a value of the declared type, and the value seen by the document is that value (numbers promoted as the type demands, union values selected by their tag, binary data decoded, record fields matched by name and other fields ignored). Input data may also leave union tags out where only one branch fits, and the engine may read numbers and booleans written as text and numpy scalars; embedded numbers standing for integers lose their fraction. Other data is refused with an error before any scoring happens, and output values encode to JSON that decodes to the same value.",
 ["inputs"], "all types of bounded depth x all conforming and non-conforming data",
 "The tests decode a handful of well-formed values.",
 ["titus/datatype.py", "titus/reader.py", "titus/genpy.py"],
 [("checkData", "titus/datatype.py: checkData"), ("jsonDecoder/jsonEncoder", "titus/datatype.py")],
 ["PFAEngine.action on raw data", "checkData, jsonDecoder, jsonEncoder"])

prop("C15", "The ordering used by comparisons and sorts is a total order",
 "For every type that does not contain maps, the comparison behind cmp, ==, !=, <, <=, >, >=, min, max and every sorting or extremum function is one total order: reflexive, antisymmetric, transitive and consistent across all of these operators. It orders numbers by value, strings and bytes lexicographically, containers element by element with shorter prefixes first, records field by field in declaration order, enums by declaration position, booleans false before true and unions by position of the branch.",
 ["inputs"], "all pairs and triples of values of every type to bounded depth",
 "Order laws quantify over triples of values; tests compare literals.",
 ["titus/datatype.py", "titus/lib/core.py", "titus/lib/array.py"],
 [("compare/jsonNodeCompare", "titus/datatype.py: compare"), ("operators", "titus/lib/core.py")],
 ["results of cmp and comparison operators", "a.sort, a.min, a.max etc."])

prop("C16", "Integer arithmetic is exact or raises an overflow error",
 "Integer + - * unary minus, //, %, %%, ** and the bit operations on int and long return the mathematically exact result whenever it is representable in the result type and otherwise raise the documented overflow (or division by zero) error, never a wrapped, rounded or out-of-range number.",
 ["inputs"], "all pairs of 32-bit and 64-bit operands, in particular all boundary neighbourhoods",
 "Tests cover one overflow per operator; exactness fails at isolated operands.",
 ["titus/lib/core.py", "titus/lib/pfamath.py"],
 [("operators with range checks", "titus/lib/core.py")],
 ["action results and error codes"])

prop("C17", "Array library functions equal their definitions on every input",
 "Every array function returns what its PFA definition says for every array and argument (including empty arrays, negative and out-of-range indices, duplicates and ties), raises its documented error exactly on the documented conditions, and calls function arguments with the documented arguments in order.",
 ["inputs"], "all arrays to bounded length over small domains x all indices x callbacks",
 "Tests call each function on one or two arrays; edge indices, ties and error conditions are universally quantified.",
 ["titus/lib/array.py"], [("array functions", "titus/lib/array.py")], ["action results and error codes"])

prop("C18", "Map library functions equal their definitions on every input",
 "Every map function returns what its PFA definition says for every map and argument, independently of the order in which keys were inserted, raises its documented error exactly on the documented conditions, and never invents or loses a key.",
 ["inputs"], "all maps over small key/value domains, all insertion orders, all callbacks",
 "Tests use one map and one insertion order per function.",
 ["titus/lib/map.py"], [("map functions", "titus/lib/map.py")], ["action results and error codes"])

prop("C19", "String and bytes functions equal their definitions on every input",
 "Every string function (indexing, slicing, padding, searching, splitting, joining, replacing, trimming, case) and every bytes encode/decode/predicate function returns what its PFA definition says for every argument, treating negative and out-of-range indices and empty strings as documented, and raises its documented error exactly on the documented conditions.",
 ["inputs"], "all strings over a small alphabet including non-ASCII and all index pairs",
 "Tests pick a few indices of one phrase.",
 ["titus/lib/pfastring.py", "titus/lib/bytes.py"], [("string functions", "titus/lib/pfastring.py"), ("bytes functions", "titus/lib/bytes.py")], ["action results and error codes"])

prop("C20", "Casts, fanouts, enum, fixed, parsing and rounding are exact at boundaries",
 "Numeric casts (signed/unsigned widths, to int/long/float/double), fanouts, enum and fixed conversions, number/bool parsing and the rounding, sign and threshold functions return the exact value for every input in their domain and raise the documented error for every input outside it.",
 ["inputs"], "all boundary neighbourhoods of each width and every malformed string of bounded length",
 "Tests show one value on each side of some boundaries.",
 ["titus/lib/cast.py", "titus/lib/enum.py", "titus/lib/fixed.py", "titus/lib/parse.py", "titus/lib/pfamath.py"], [("cast functions", "titus/lib/cast.py")], ["action results and error codes"])

prop("C21", "Streaming statistics equal the batch definition of the whole history",
 "Feeding any sequence of weighted observations one at a time through the counting, mean, variance, covariance, histogram, top-N, moving-window, exponential, Holt-Winters, CUSUM and trigger functions yields after every step the value defined directly on the sequence seen so far. The state carried between calls is never modified in place and is independent of how the sequence is split across calls.",
 ["histories", "inputs"], "all observation sequences over small exact domains",
 "Tests feed one fixed sequence; the recurrence must match the closed form for all of them.",
 ["titus/lib/stat/sample.py", "titus/lib/stat/change.py"], [("update functions", "titus/lib/stat/sample.py")], ["action results"])

prop("C22", "Tree, cluster and neighbour scoring follow the model definition",
 "Scoring with a decision tree takes exactly the branch its predicate selects until a leaf is reached (with the documented treatment of missing values and errors); cluster and neighbour functions pick the closest by the given metric, with deterministic handling of ties, empty models and k out of range.",
 ["inputs"], "all small trees, cluster sets, codebooks and datums",
 "Tests score one model with a few datums.",
 ["titus/lib/model/tree.py", "titus/lib/model/cluster.py", "titus/lib/model/neighbor.py"], [("simpleTest/simpleTree", "titus/lib/model/tree.py"), ("closest/kNN", "titus/lib/model/cluster.py, neighbor.py")], ["action results and error codes"])

prop("C23", "Reading and writing a document preserves its meaning",
 "Any document that loads can be written back as JSON and read again (from text, parsed structure, YAML or an in-memory AST) as an equal document that behaves identically, and writing is stable: a second round trip changes nothing. Structurally malformed documents are rejected with a syntax error instead of being silently reinterpreted.",
 ["programs"], "all documents over every AST node kind, and all single-field corruptions of them",
 "Tests parse fixed texts; round-trip is a law over the whole AST.",
 ["titus/reader.py", "titus/pfaast.py"], [("jsonToAst/yamlToAst", "titus/reader.py"), ("toJson/jsonNode", "titus/pfaast.py")], ["ast equality", "engine behaviour of the re-read document"])

prop("C24", "PrettyPFA means the document it abbreviates",
 "Every PrettyPFA program converts to a PFA document with the meaning its surface syntax shows: operator precedence and associativity, literals, blocks, control forms, function definitions, paths, cells, pools and substitutions. Writing any expression tree in PrettyPFA with or without redundant parentheses gives the same document.",
 ["programs"], "all operator expressions and statement forms to bounded depth",
 "Tests compare selected snippets.",
 ["titus/prettypfa.py"], [("grammar and conversion", "titus/prettypfa.py")], ["prettypfa.jsonNode(text)", "engine behaviour"])

prop("C25", "pack and unpack are exact inverses over every binary format",
 "Packing values with a binary format and unpacking the result with the same format returns the same values, byte for byte as the format declares (widths, signedness, endianness, padding, delimiters, lengths); data that does not match the format takes the else branch, and values that do not fit raise the documented error.",
 ["inputs", "programs"], "all format lists over the declared field kinds x boundary values x truncated/extended byte strings",
 "Tests exercise one format at a time with one value.",
 ["titus/pfaast.py", "titus/genpy.py"], [("BinaryFormatter", "titus/pfaast.py/genpy.py"), ("pack/unpack runtime", "titus/genpy.py")], ["action results and error codes"])

prop("C26", "A chain of engines equals running the engines one after another",
 "The single document built by chaining several map or emit documents produces, for every input sequence, exactly the outputs obtained by feeding each engine's outputs into the next: per action, in order, including what begin and end blocks of all steps do and emit, and failing with the same error. Cells, pools, functions, types and embedded values of different steps never interfere, however they are named; the implicit symbols (name, metadata, version, action counters) are those of the chained engine. All ways to build the chain (engine, ast, json) agree, and steps whose types do not fit, or that fold, are refused.",
 ["programs", "histories"], "all chains of length 1-4 over map and emit steps with state, named types and user functions, and chains that must be refused",
 "Tests chain a few fixed pairs.",
 ["titus/producer/chain.py"], [("engine/ast/json builders", "titus/producer/chain.py")], ["outputs, emissions, logs and state of the chained engine vs the steps wired one after another"])

prop("C27", "Seeded engines are reproducible",
 "An engine whose document or options fix a random seed gives the same outputs for the same inputs every time it is built, distinct instances built together get distinct but reproducible streams, and no other source of randomness or process state influences results. Random sampling functions only return members of the declared range or collection, without replacement where declared.",
 ["histories", "configurations"], "all seeds, instance counts and call sequences",
 "Tests check one seed.",
 ["titus/genpy.py", "titus/lib/rand.py"], [("randseed chain", "titus/genpy.py: PFAEngine.fromAst"), ("rand functions", "titus/lib/rand.py")], ["action results across rebuilt engines"])

prop("C28", "Options resolve with host overriding document, and timeouts stop actions",
 "Engine options take the host's value when the host supplies one, else the document's, else the default, and malformed options are refused. A configured timeout stops a runaway begin, action or end with a timeout error, after which rollback state is restored and the engine is still usable.",
 ["configurations", "programs"], "all combinations of host and document options; every looping construct",
 "Tests read options in one configuration.",
 ["titus/options.py", "titus/genpy.py"], [("EngineOptions", "titus/options.py"), ("checkTime", "titus/genpy.py: ExecutionState.checkTime")], ["EngineOptions attributes", "PFATimeoutException from action()"])

prop("C29", "Exact numeric library: linear algebra, metrics, interpolation, regression",
 "Linear-algebra, metric, link-free regression, interpolation, kernel and imputation functions return the exact mathematical value on inputs where that value is exactly representable, for both array and map representations, and raise the documented error for misaligned, empty or ragged inputs.",
 ["inputs"], "all small integer/dyadic vectors and matrices in both representations",
 "Tests check a few worked examples in one representation.",
 ["titus/lib/la.py", "titus/lib/metric.py", "titus/lib/interp.py", "titus/lib/kernel.py", "titus/lib/impute.py", "titus/lib/model/reg.py"], [("la functions", "titus/lib/la.py"), ("metric functions", "titus/lib/metric.py")], ["action results and error codes"])

prop("C30", "Calendar and regular-expression functions agree with their definitions",
 "Calendar field extraction and the weekday/weekend/work-hours predicates agree with the proleptic Gregorian calendar for every instant and time zone offset; the regex functions agree with each other and with the matched language on every subject string.",
 ["inputs"], "all day boundaries over the calendar range; all short subjects over a small alphabet for a family of patterns",
 "Tests check one instant and one pattern per function.",
 ["titus/lib/pfatime.py", "titus/lib/regex.py"], [("time functions", "titus/lib/pfatime.py"), ("regex functions", "titus/lib/regex.py")], ["action results"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P))
