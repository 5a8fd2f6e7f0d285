"""Chains of documents: built in every way the chain builder offers, run, and recorded step by step.
usage: drv_chain.py chains|misfits SEED COUNT OUT"""
import sys, os, json, random, signal, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir, gen, profiles
from gen import *
from drv_prog import alarm, Hang
import titus.errors as TE
import titus.producer.chain as chain
from titus.genpy import PFAEngine
from titus.reader import jsonToAst

NAMED = ("rec", "enum", "fixed")
def base(n): return re.sub("_z[0-9]+$", "", n)
def retyped(x, names):
    """The same thing with other type names."""
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and x[0] in NAMED and isinstance(x[1], str) and x[1] in names: return [x[0], names[x[1]]]
        return [retyped(y, names) for y in x]
    if isinstance(x, dict): return dict((k, retyped(y, names)) for k, y in x.items())
    return x
def rename(case, k, rng):
    names = dict((n, n + "_z%d" % k if rng.random() < 0.6 else n) for n in case["D"])
    D = dict((names[n], d) for n, d in case["D"].items())
    out = dict((x, retyped(y, names)) for x, y in case.items() if x != "D")
    out["D"] = retyped(D, names)
    return out
def relog(x, k):
    if isinstance(x, (list, tuple)):
        if len(x) == 3 and x[0] == "log": return ["log", relog(x[1], k), ("N%d" if x[2] else "L%d") % k]
        return [relog(y, k) for y in x]
    if isinstance(x, dict): return dict((a, relog(y, k)) for a, y in x.items())
    return x

def last(n): return n.split(".")[-1]
def same(tag, n):
    return tag == n or base(tag.split("_", 2)[-1] if re.match("^Step[0-9]+_", tag) else tag) == base(n)
def untag(v, t, D):
    """Chaining renames types, and with them the tags of union values: give the tags their old names."""
    if t[0] == "union":
        if isinstance(v, dict) and len(v) == 1:
            (tag, x), = v.items()
            for b in t[1]:
                n = ir.tname(b)
                if tag == n: return {n: untag(x, b, D)}
            for b in t[1]:
                if b[0] in NAMED and same(tag, ir.tname(b)): return {ir.tname(b): untag(x, b, D)}
        for b in t[1]:   # values made inside the engine need no tags
            if isinstance(v, dict) and (b[0] == "map" or b[0] == "rec" and set(v) == set(f[0] for f in D[b[1]]["fields"])) or \
               isinstance(v, (list, tuple)) and b[0] == "array": return untag(v, b, D)
        return v
    if t[0] == "array" and isinstance(v, (list, tuple)): return [untag(x, t[1], D) for x in v]
    if t[0] == "map" and isinstance(v, dict): return dict((k, untag(x, t[1], D)) for k, x in v.items())
    if t[0] == "rec" and isinstance(v, dict):
        ft = dict((f[0], f[1]) for f in D[t[1]]["fields"])
        return dict((k, untag(x, ft[k], D) if k in ft else x) for k, x in v.items())
    return v
def enc(v, t, D): return ir.enc(untag(v, t, D), t, D)

def build(rng, docs, kw):
    """One of the ways to build the chain -> (status, engine or message)."""
    try:
        src = [rng.choice([lambda: json.loads(json.dumps(d)), lambda: json.dumps(d), lambda: jsonToAst(json.loads(json.dumps(d)))])() for d in docs]
        how = rng.randint(0, 3)
        if how == 0: e, = chain.engine(src, **kw)
        elif how == 1: e, = PFAEngine.fromJson(chain.json(src, check=rng.random() < 0.5, **kw))
        elif how == 2: e, = PFAEngine.fromJson(chain.jsonNode(src, check=rng.random() < 0.5, **kw))
        else: e, = PFAEngine.fromAst(chain.ast(src, check=rng.random() < 0.5, **kw))
        return "ok", e
    except chain.PFAChainError as x:
        return ("names" if "would refer to different types" in str(x) else "misfit"), str(x)[:200]
    except NotImplementedError as x: return "fold", str(x)[:200]
    except TE.PFASyntaxException as x: return "syntax", str(x)[:300]
    except TE.PFASemanticException as x: return "sem", str(x)[:300]
    except TE.PFAInitializationException as x: return "init", str(x)[:300]
    except Exception as x: return "crash", type(x).__name__ + ": " + str(x)[:300]

def step_header(case):
    r = ir.header(case)
    for k in ("watch", "steps", "msg", "id", "expect"): r.pop(k)
    return r

def run(rng, ident, cases, name, metadata, version, inputs):
    docs = [ir.document(c, rng) for c in cases]
    for d, n in zip(docs, name): d["name"] = n
    kw = {}
    if rng.random() < 0.5: kw["name"] = "Whole"
    if metadata: kw["metadata"] = metadata
    if version is not None: kw["version"] = version
    rec = {"id": ident, "steps": [step_header(c) for c in cases], "name": kw.get("name", "Chain_" + "_".join(name)), "metadata": metadata,
           "version": ["n"] if version is None else ["i", version], "ops": []}
    rec["load"], e = build(rng, docs, kw)
    if rec["load"] != "ok":
        rec["msg"], rec["docs"] = e, json.dumps(docs)
        return rec
    emits, logs = [], []
    final = cases[-1]
    emitting = any(c["method"] == "emit" for c in cases)
    if emitting: e.emit = lambda v: emits.append(enc(v, final["out"], final["D"]))
    e.log = lambda vals, ns: logs.append([[ir.enc(v, None, {}) for v in vals], ns, int(ns[1:])])
    first = cases[0]
    for op in [["begin"]] + [["action", v] for v in inputs] + [["end"]]:
        del emits[:], logs[:]
        if op[0] == "action":
            data = ir.js(op[1], first["in"], first["D"])
            try: obs = ["v", e.action(data)]
            except Exception as x:
                def again(): raise x
                obs = ir.outcome(again, None, {})
            if obs[0] == "v": obs[1] = ["n"] if emitting else enc(obs[1], final["out"], final["D"])
        else: obs = ir.outcome(e.begin if op[0] == "begin" else e.end, None, {})
        states = []
        for k, c in enumerate(cases):
            pre = "step%d_%s_" % (k + 1, name[k])
            states.append([dict((n, enc(e.cells[pre + n].value, x["t"], c["D"])) for n, x in c["cells"].items()),
                           dict((n, dict((str(key), enc(v, x["t"], c["D"])) for key, v in e.pools[pre + n].value.items())) for n, x in c["pools"].items())])
        done = [op[0], op[1] if len(op) > 1 else ["n"], obs, list(emits), list(logs), states, e.actionsStarted, e.actionsFinished]
        if obs[0] == "timeout" or len(json.dumps(done)) > ir.HUGE: break
        rec["ops"].append(done)
    return rec

SIMPLE = profiles.SIMPLE
def make(rng, mode):
    n = rng.choice([1, 2, 2, 2, 3, 3, 4] if mode == "chains" else [2, 2, 3])
    link = None
    cases = []
    how = rng.choice(["map", "emit", "mixed"])
    for k in range(n):
        # values are handed on through records, unions and the like
        g = Gen(rng, lib=[f for f in SIMPLE if f in SIGS], forms=profiles.weights(Gen.FORMS, **{"try": 0, "callu": 0, "new": 14, "lit": 12, "cell": 10, "attr": 12, "ref": 20, "ucall": 12}),
                stmts=profiles.weights(Gen.STMTS, emit=14, cellto=14, poolto=10, pooldel=5, log=7))
        def some(): return g.use(rng.choice([TINT, TSTR, arr(TINT), REC, BIG, NODE, arr(REC), mp(REC), g.type(2), g.type(1), un(TNULL, REC), un(TNULL, TINT), un(TNULL, TSTR)]))
        method = how if how != "mixed" else rng.choice(["map", "emit"])
        if mode == "misfits" and rng.random() < 0.1: method = "fold"
        it = some() if link is None or (mode == "misfits" and rng.random() < 0.6) else g.use(link)
        link = some()
        c = g.program(d=2, method=method, intype=it, outtype=link, ncells=(0, 1, 2), npools=(0, 0, 1), nfcns=(0, 1, 2), nstm=(0, 1, 2), nsteps=rng.choice([1, 2, 3]))
        c.setdefault("metadata", {})
        cases.append(c)
    inputs = [s[1] for s in cases[0]["steps"] if s[0] == "action"]
    metadata = {"who": "me"} if rng.random() < 0.3 else {}
    version = rng.randint(0, 5) if any(c.get("version") is not None for c in cases) or rng.random() < 0.2 else None
    for k in range(n):
        cases[k] = relog(cases[k], k + 1)
        if rng.random() < 0.7: cases[k] = rename(cases[k], k + 1, rng)
        # the engine is not run that long
        cases[k]["options"] = {}
    names = [rng.choice(["A", "B", "Prog", "X1"]) for _ in range(n)]
    return cases, names, metadata, version, inputs

def main():
    signal.signal(signal.SIGALRM, alarm)
    mode, seed, count, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    with open(out, "w") as f:
        for i in range(count):
            rng = random.Random("%s/%s/%d" % (mode, seed, i))
            ident = "%s/%s/%d" % (mode, seed, i)
            signal.alarm(20)
            try: rec = run(rng, ident, *make(rng, mode))
            except Hang: rec = {"id": ident, "harness": "no answer within 20 s"}
            except Exception as x:
                if os.environ.get("VERIF_DEBUG"): raise
                rec = {"id": ident, "harness": type(x).__name__ + ": " + str(x)[:300]}
            finally: signal.alarm(0)
            f.write(json.dumps(rec) + "\n")
if __name__ == "__main__": main()
