"""The checks: for every property, what is generated or enumerated, run and judged, and how much of it per tier."""
import json, runner

SEARCH = {"SharedConform"}   # a record is accepted when some behaviour of the specification explains it

class Ctx:
    def __init__(self, pid, tier, seed, scratch):
        self.pid, self.tier, self.seed, self.scratch = pid, tier, seed, scratch
        self.quick = tier != "thorough"
        self.bad, self.errors, self.samples = [], [], []
        self.states = self.transitions = self.traces = self.evals = self.skipped = 0
        self.parts = {}
        self.keys = set()
    def n(self, quick, thorough):
        return quick if self.quick else thorough
    def left(self):
        return 780 if self.quick else 3 * 3600

    def add_bad(self, rec, verdicts):
        self.bad.append({"id": rec.get("id", "?"), "verdicts": verdicts, "record": rec})

    def problems(self, ps):
        """A case on which the real code hung or broke the harness is a violation; a driver that did not run is an error."""
        for p in ps:
            if p["kind"] == "harness": self.add_bad({"id": p["id"]}, [["bad", "no-answer", 0, p["what"]]])
            else: self.add_bad({"id": p["id"]}, [["bad", "driver", 0, p["what"]]])

    def take(self, name, res, nrecs):
        for r, v in res["bad"]: self.add_bad(r, v)
        self.errors += res["errors"]
        self.states += res["states"]; self.transitions += res["transitions"]
        self.traces += len(res["ok"]) + len(res["bad"])
        self.skipped += len(res["skip"])
        p = self.parts.setdefault(name, {"records": 0, "agreed": 0, "outside_model": 0, "disagreed": 0})
        p["records"] += nrecs; p["agreed"] += len(res["ok"]); p["outside_model"] += len(res["skip"]); p["disagreed"] += len(res["bad"])
        for r, v in res["ok"][:1]:
            self.samples.append(dict((k, r[k]) for k in list(r)[:40] if len(json.dumps(r[k])) < 1500))

    # ---- stages
    def programs(self, profile, quick, thorough, module="RunConform", procs=8, timeout=400):
        """Generated programs run in the engine, every step judged by the specification."""
        n = self.n(quick, thorough)
        chunk = 1600
        done = 0
        while done < n:
            k = min(chunk, n - done)
            per = max(1, k // procs)
            recs, probs = runner.drive(self.scratch, "drv_prog.py", [[profile, "%d.%d.%d" % (self.seed, done, j), per] for j in range(procs)], timeout)
            self.problems(probs)
            self.judge(profile, module, recs, timeout)
            done += k
            if self.bad and done < n: break

    def types(self, mode, quick, thorough, procs=8):
        n = self.n(quick, thorough)
        done = 0
        while done < n and not self.bad:
            k = min(16000, n - done)
            self.driver("drv_types.py", [[mode, "%d.%d.%d" % (self.seed, done, j), k // procs] for j in range(procs)], "TypeConform", name=mode)
            done += k

    def spread(self, driver, mode, module, quick, thorough, chunk=4000, procs=8, name=None, timeout=400):
        """Run a driver (arguments: mode, seed, count) in parallel, in chunks, until the tier's amount is judged."""
        n = self.n(quick, thorough)
        done = 0
        while done < n and not self.bad:
            k = min(chunk, n - done)
            self.driver(driver, [[mode, "%d.%d.%d" % (self.seed, done, j), max(1, k // procs)] for j in range(procs)], module, name=name or mode, timeout=timeout)
            done += k

    def judge(self, name, module, recs, timeout=400, env=None):
        if not recs:
            if not self.bad: self.errors.append("no records for " + name)
            return
        self.take(name, runner.judge(self.scratch, module, recs, timeout, env, search=module in SEARCH), len(recs))

    def driver(self, driver, argsets, module, name=None, timeout=400, env=None):
        recs, probs = runner.drive(self.scratch, driver, argsets, timeout)
        self.problems(probs)
        self.judge(name or driver, module, recs, timeout, env)
        return recs

    def model(self, module, env=None, timeout=600, extra=(), cfg=None):
        """Check a specification by itself: its invariants over all its states."""
        rc, text = runner.tlc(self.scratch, module, env or {}, timeout, extra=extra, cfg=cfg)
        tr, st = runner.counts(text)
        self.states += st; self.transitions += tr
        self.parts["model " + (cfg or module)] = {"states": st, "transitions": tr}
        if "Model checking completed. No error" not in text and "The number of states generated" not in text:
            self.errors.append("model %s: status %d: %s" % (module, rc, text[-1500:]))
        return runner.says(text)

    def coverage(self):
        return {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                "outside_model": self.skipped, "parts": self.parts, "samples": self.samples[:3] or [self.pid]}

CHECKS = {}
NOT_CLAIMED = {}
def check(pid, level="model_checking", technique="", note="", assumptions=()):
    def f(run):
        CHECKS[pid] = {"run": run, "level": level, "technique": technique, "note": note, "assumptions": list(assumptions)}
        return run
    return f

PROG_ASSUME = ["values outside the specification's exact arithmetic (non-dyadic reals, numbers beyond the modelled range) are skipped and counted as outside_model"]
PROG = "TLA+ specification of the language, trace validation of generated programs with TLC"

@check("C07", technique=PROG, note="random well-typed programs; every step's result, logs, emissions and state judged by the TLA+ evaluator", assumptions=PROG_ASSUME)
def c07(x):
    x.programs("general", 480, 12000)
    x.programs("control", 240, 6000)

@check("C08", technique=PROG, note="path reads and updates over nested containers, cells and pools, with out-of-range and missing items", assumptions=PROG_ASSUME)
def c08(x):
    x.programs("paths", 640, 12000)

@check("C09", technique=PROG, note="programs dense in errors, failing accesses and nested try with filters", assumptions=PROG_ASSUME)
def c09(x):
    x.programs("filters", 800, 8000)
    x.programs("errors", 1200, 16000)

@check("C10", technique=PROG, note="well-scoped programs and mutants; acceptance and evaluation judged by the TLA+ scoping rules", assumptions=PROG_ASSUME)
def c10(x):
    x.programs("scopes", 400, 8000)
    x.programs("badscopes", 400, 8000)

@check("C11", technique=PROG, note="well-typed programs and mutants; acceptance judged by the TLA+ typing rules, produced values by the declared output type", assumptions=PROG_ASSUME)
def c11(x):
    x.programs("general", 320, 8000)
    x.programs("mutated", 480, 8000)

@check("C01", technique=PROG, note="engine life cycles of map, emit and fold documents in arbitrary call orders", assumptions=PROG_ASSUME)
def c01(x):
    x.programs("lifecycle", 640, 12000)

@check("C02", technique="TLA+ specification of the engine, fault enumeration: an error planted after every statement, traces validated with TLC",
       note="each action of a run fails at a different statement", assumptions=PROG_ASSUME)
def c02(x):
    x.programs("rollback", 640, 12000)

@check("C03", technique=PROG, note="interleaved instances, each judged alone; values handed out earlier are re-read at the end", assumptions=PROG_ASSUME)
def c03(x):
    x.programs("lib_alias", 800, 12000)
    x.programs("aliasing", 800, 8000)
    x.programs("instances", 320, 4000)

@check("C04", technique=PROG, note="a snapshot taken at a random step is loaded and both engines are driven on", assumptions=PROG_ASSUME)
def c04(x):
    x.programs("snapshot", 480, 8000)

@check("C05", technique="TLA+ specification of atomic steps on shared state; TLC searches an order of the steps that explains each recorded concurrent history; lock protocol model-checked",
       note="engines sharing state run under a deterministic scheduler that preempts at locks and at every line of the engine's state code", assumptions=PROG_ASSUME + ["threads switch only at lock operations, log calls and line boundaries of genpy.py"])
def c05(x):
    x.model("LockProtocol")
    if not x.quick: x.model("LockProtocol", cfg="LockProtocolLong")
    x.spread("drv_conc.py", "mixed", "SharedConform", 2400, 40000)
    x.spread("drv_conc.py", "cells", "SharedConform", 1600, 20000)
    x.spread("drv_conc.py", "pools", "SharedConform", 3200, 40000)

@check("C06", technique="TLA+ specification of the static call graph, reachability and the deadlock rule; generated documents judged with TLC",
       note="acceptance of documents with arbitrary call graphs (recursion, references, fills, inline functions, calls by enum) and every call-graph query")
def c06(x):
    x.spread("drv_graph.py", "chain", "GraphConform", 8000, 100000)
    x.spread("drv_graph.py", "small", "GraphConform", 6400, 100000)
    x.spread("drv_graph.py", "free", "GraphConform", 1600, 30000)

@check("C14", technique="TLA+ specification of which data denote a value of a type and which value; inputs, embedded values and outputs of the engine judged with TLC",
       note="random types with named types, namespaces and unions; fitting data and small changes to it, as input, as cell, pool, zero and literal values, and through Avro files", assumptions=PROG_ASSUME)
def c14(x):
    x.spread("drv_data.py", "data", "DataConform", 8000, 160000, chunk=8000)
    x.spread("drv_data.py", "doc", "DataConform", 6400, 120000, chunk=8000)
    x.spread("drv_data.py", "avro", "DataConform", 2400, 40000, chunk=8000)

LIB = "TLA+ specification of the library functions (exact arithmetic on big numbers), trace validation with TLC of calls of every function"
@check("C15", technique=LIB, note="comparisons, extrema and sorts of generated values of every orderable type, judged by the specified order", assumptions=PROG_ASSUME)
def c15(x):
    x.programs("lib_order", 3200, 24000)

@check("C16", technique=LIB, note="arithmetic, bitwise and logical functions on boundary values of every number type", assumptions=PROG_ASSUME)
def c16(x):
    x.programs("lib_core", 800, 12000)

@check("C17", technique=LIB, note="every array function with correlated arguments, logging callbacks and out-of-range indexes", assumptions=PROG_ASSUME)
def c17(x):
    x.programs("lib_array", 4800, 24000)

@check("C18", technique=LIB, note="every map function with correlated arguments", assumptions=PROG_ASSUME)
def c18(x):
    x.programs("lib_map", 3200, 16000)

@check("C19", technique=LIB, note="every string and bytes function, with substrings, empty strings, valid and invalid encodings", assumptions=PROG_ASSUME)
def c19(x):
    x.programs("lib_str", 3600, 16000)

@check("C20", technique=LIB, note="casts, fanouts, enum, fixed, parse and rounding functions on boundary values and numerals", assumptions=PROG_ASSUME)
def c20(x):
    x.programs("lib_cast", 3200, 16000)

TYPES = "TLA+ specification of the type system, laws model-checked over a universe of types; the engine's type classes judged on generated types with TLC"
@check("C12", technique=TYPES, note="accepts and broadestType on related types, named types by full name and structure")
def c12(x):
    x.model("TypeLattice")
    x.types("accepts", 6400, 160000)
    x.types("broadest", 6400, 160000)

@check("C13", technique=TYPES, note="every signature of the library on near-miss arguments at versions around its life span, and generated signatures")
def c13(x):
    x.types("lib", 8000, 160000)
    x.types("sigs", 8000, 160000)
    x.types("versions", 1600, 16000)

@check("C23", technique="TLA+ specification of the documents: the program a JSON document denotes; documents as read and written by the engine judged with TLC",
       note="generated documents as text, trees, YAML and syntax trees, rewritten and run; damaged documents must be syntax errors exactly where the specification says", assumptions=PROG_ASSUME)
def c23(x):
    x.spread("drv_read.py", "whole", "ReadConform", 1280, 16000, chunk=1600)
    x.spread("drv_read.py", "broken", "ReadConform", 4000, 64000)

@check("C24", technique="TLA+ specification of the grammar of expressions and of the language; rows of tokens and whole PrettyPFA programs judged with TLC",
       note="generated documents written in PrettyPFA and run, judged as the programs they abbreviate; random rows of tokens against the specified tree", assumptions=PROG_ASSUME)
def c24(x):
    x.spread("drv_tokens.py", "spelled", "PrettyConform", 4800, 80000, chunk=8000)
    x.spread("drv_tokens.py", "damaged", "PrettyConform", 4000, 40000, chunk=8000)
    x.spread("drv_pretty.py", "control", "RunConform", 320, 6000, chunk=1600)
    x.spread("drv_pretty.py", "general", "RunConform", 320, 6000, chunk=1600)
    x.spread("drv_pretty.py", "lifecycle", "RunConform", 240, 4000, chunk=1600)

@check("C26", technique="TLA+ specification of engines wired in a row, trace validation with TLC of chained documents against their steps run one after another",
       note="chains of 1-4 generated documents, built through every entry point from every kind of input, run with begin, actions and end; ill-fitting and folding chains must be refused", assumptions=PROG_ASSUME)
def c26(x):
    x.spread("drv_chain.py", "chains", "ChainConform", 1600, 24000, chunk=1600)
    x.spread("drv_chain.py", "misfits", "ChainConform", 800, 8000, chunk=1600)
