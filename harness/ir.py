"""Binding between specification values/programs and the engine under test.

Programs are tuples (see spec/PFALang.tla); this module renders them as PFA
documents, runs them in the engine of /repo and encodes what was observed in
the value notation of spec/PFABase.tla.
"""
import json, math, sys, os, warnings
from fractions import Fraction
warnings.simplefilter("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
sys.setrecursionlimit(5000)

import titus.genpy
from titus.genpy import PFAEngine
import titus.errors as TE

PRIMS = ("null", "boolean", "int", "long", "float", "double", "string", "bytes")

# ---------------------------------------------------------------- types
class Ctx:
    def __init__(self, D, rng=None):
        self.D = D
        self.seen = set()
        self.rng = rng

def ty(t, c):
    k = t[0]
    if k in PRIMS:
        return k
    if k == "array":
        return {"type": "array", "items": ty(t[1], c)}
    if k == "map":
        return {"type": "map", "values": ty(t[1], c)}
    if k == "union":
        return [ty(x, c) for x in t[1]]
    if k == "fcn":
        return {"type": "function", "params": [ty(x, c) for x in t[1]], "ret": ty(t[2], c)}
    n = t[1]
    if n in c.seen:
        return n
    c.seen.add(n)
    d = c.D[n]
    if k == "rec":
        out = {"type": "record", "name": n, "fields": []}
        for f in d["fields"]:
            fld = {"name": f[0], "type": ty(f[1], c)}
            if len(f) > 2:
                fld["order"] = f[2]
            out["fields"].append(fld)
        return out
    if k == "enum":
        return {"type": "enum", "name": n, "symbols": list(d["syms"])}
    if k == "fixed":
        return {"type": "fixed", "name": n, "size": d["n"]}
    raise Exception("type " + repr(t))

def tname(t):
    return t[1] if t[0] in ("rec", "enum", "fixed") else t[0]

def conforms(v, t, D):
    k = t[0]
    if k == "null": return v[0] == "n"
    if k == "boolean": return v[0] == "b"
    if k in ("int", "long"): return v[0] in ("i", "I")
    if k in ("float", "double"): return v[0] in ("i", "I", "q", "F")
    if k == "string": return v[0] in ("s", "u")
    if k == "bytes": return v[0] == "y"
    if k == "fixed": return v[0] == "y" and len(v[1]) == D[t[1]]["n"]
    if k == "enum": return v[0] == "s" and v[1] in D[t[1]]["syms"]
    if k == "array": return v[0] == "a" and all(conforms(x, t[1], D) for x in v[1])
    if k == "map": return v[0] == "m" and all(conforms(x, t[1], D) for x in v[1].values())
    if k == "rec": return v[0] == "m" and set(v[1]) == set(f[0] for f in D[t[1]]["fields"]) and all(conforms(v[1][f[0]], f[1], D) for f in D[t[1]]["fields"])
    if k == "union": return any(conforms(v, x, D) for x in t[1])
    return False

def num(v):
    if v[0] == "i": return v[1]
    if v[0] == "I": return int(v[1])
    if v[0] == "q": return v[1] / v[2]
    if v[0] == "F": return float(v[1])
    raise Exception(v)

def js(v, t, D):
    """Specification value of type t -> Avro-JSON Python object."""
    k = t[0]
    if k == "union":
        for b in t[1]:
            if conforms(v, b, D):
                return None if b[0] == "null" else {tname(b): js(v, b, D)}
        raise Exception("value %r does not fit %r" % (v, t))
    if v[0] == "n": return None
    if v[0] == "b": return v[1]
    if k in ("int", "long"): return num(v)
    if k in ("float", "double"): return float(num(v))
    if v[0] in ("i", "I", "q", "F"): return num(v)
    if v[0] == "s": return v[1]
    if v[0] == "u": return "".join(map(chr, v[1]))
    if v[0] == "y": return "".join(map(chr, v[1]))
    if v[0] == "a": return [js(x, t[1], D) for x in v[1]]
    if v[0] == "m" and k == "map": return dict((x, js(y, t[1], D)) for x, y in v[1].items())
    if v[0] == "m" and k == "rec":
        ft = dict((f[0], f[1]) for f in D[t[1]]["fields"])
        return dict((x, js(y, ft[x], D)) for x, y in v[1].items())
    raise Exception("js %r %r" % (v, t))

# ---------------------------------------------------------------- encoding of observed values
LIM = 2 ** 31
def enc_num(x):
    if isinstance(x, bool):
        return ["b", x]
    if isinstance(x, int):
        return ["i", x] if abs(x) < LIM else ["I", str(x)]
    if math.isnan(x): return ["F", "nan"]
    if math.isinf(x): return ["F", "inf" if x > 0 else "-inf"]
    if x == math.floor(x) and abs(x) <= 2.0 ** 53:
        n = int(x)
        return ["i", n] if abs(n) < LIM else ["I", str(n)]
    f = Fraction(x)
    if abs(f.numerator) < LIM and f.denominator < LIM:
        return ["q", f.numerator, f.denominator]
    return ["F", repr(x)]

def enc_str(s):
    if all(32 <= ord(ch) < 127 for ch in s):
        return ["s", s]
    return ["u", [ord(ch) for ch in s]]

def enc(v, t, D):
    """Observed Python value (static type t, or None) -> specification value; union tags erased."""
    if v is None: return ["n"]
    if isinstance(v, (bool, int, float)):
        return enc_num(v)
    if t is not None and t[0] == "union":
        names = dict((tname(b), b) for b in t[1])
        if isinstance(v, dict) and len(v) == 1 and list(v)[0] in names:
            (tag, x), = v.items()
            return enc(x, names[tag], D)
        kinds = [b[0] for b in t[1]]
        if isinstance(v, (bytes, bytearray)):
            return ["y", list(v)]
        if isinstance(v, str):
            for b in t[1]:
                if b[0] in ("bytes", "fixed") and "string" not in kinds and "enum" not in kinds:
                    return enc(v, b, D)
            return enc_str(v)
        if isinstance(v, dict):
            for b in t[1]:
                if b[0] == "rec" and set(v) == set(f[0] for f in D[b[1]]["fields"]):
                    return enc(v, b, D)
            for b in t[1]:
                if b[0] == "map":
                    return enc(v, b, D)
            return enc(v, None, D)
        if isinstance(v, (list, tuple)):
            for b in t[1]:
                if b[0] == "array":
                    return enc(v, b, D)
            return enc(v, None, D)
    if isinstance(v, (bytes, bytearray)):
        return ["y", list(v)]
    if isinstance(v, str):
        if t is not None and t[0] in ("bytes", "fixed") and all(ord(ch) < 256 for ch in v):
            return ["y", [ord(ch) for ch in v]]
        return enc_str(v)
    if isinstance(v, (list, tuple)):
        it = t[1] if t is not None and t[0] == "array" else None
        return ["a", [enc(x, it, D) for x in v]]
    if isinstance(v, dict):
        if t is not None and t[0] == "rec":
            ft = dict((f[0], f[1]) for f in D[t[1]]["fields"])
            return ["m", dict((str(k), enc(x, ft.get(k), D)) for k, x in v.items())]
        if t is not None and t[0] == "map":
            return ["m", dict((str(k), enc(x, t[1], D)) for k, x in v.items())]
        if len(v) == 1 and list(v)[0] in PRIMS:
            return enc(list(v.values())[0], (list(v)[0],), D)
        return ["m", dict((str(k), enc(x, None, D)) for k, x in v.items())]
    return ["X", type(v).__name__]

# ---------------------------------------------------------------- programs -> PFA documents
def fval(n, d):
    return n / d

def arg(e, c):
    k = e[0]
    if k == "fref": return {"fcn": e[1]}
    if k == "fdef": return fdef(e[1], e[2], e[3], c)
    if k == "fill": return {"fcn": e[1], "fill": dict((n, arg(x, c)) for n, x in e[2])}
    return ex(e, c)

def fdef(params, ret, body, c):
    return {"params": [{p: ty(t, c)} for p, t in params], "ret": ty(ret, c), "do": exs(body, c)}

def exs(es, c):
    if len(es) == 1 and not (c.rng and c.rng.random() < 0.3):
        return ex(es[0], c)
    return [ex(x, c) for x in es]

def nd(x, c):
    return exs(x, c)

def named(ps, c):
    return dict((n, ex(x, c)) for n, x in ps)

def ex(e, c):
    k = e[0]
    if k == "null": return None
    if k == "bool": return e[1]
    if k == "int": return {"int": e[1]} if c.rng and c.rng.random() < 0.2 else e[1]
    if k == "long": return {"long": e[1]}
    if k == "dbl":
        x = fval(e[1], e[2]); return {"double": x} if e[2] == 1 or (c.rng and c.rng.random() < 0.3) else x
    if k == "flt": return {"float": fval(e[1], e[2])}
    if k == "str": return {"string": e[1]}
    if k == "lit": return {"type": ty(e[1], c), "value": js(e[2], e[1], c.D)}
    if k == "ref": return e[1]
    if k == "call":
        a = [arg(x, c) for x in e[2]]
        # a one-argument call may be written without the list, unless the argument is itself a list
        if len(a) == 1 and not isinstance(a[0], list) and c.rng and c.rng.random() < 0.5:
            return {e[1]: a[0]}
        return {e[1]: a}
    if k == "callu": return {"call": ex(e[1], c), "args": [ex(x, c) for x in e[2]]}
    if k in ("newrec", "newmap"): return {"new": named(e[2], c), "type": ty(e[1], c)}
    if k == "newarr": return {"new": [ex(x, c) for x in e[2]], "type": ty(e[1], c)}
    if k == "do": return {"do": exs(e[1], c)}
    if k == "let": return {"let": named(e[1], c)}
    if k == "set": return {"set": named(e[1], c)}
    if k == "attr": return {"attr": ex(e[1], c), "path": [ex(x, c) for x in e[2]]}
    if k == "attrto": return {"attr": ex(e[1], c), "path": [ex(x, c) for x in e[2]], "to": arg(e[3], c)}
    def path(p):
        return {"path": [ex(x, c) for x in p]} if p else {}
    if k == "cell": return dict({"cell": e[1]}, **path(e[2]))
    if k == "cellto": return dict(dict({"cell": e[1]}, **path(e[2])), to=arg(e[3], c))
    if k == "pool": return {"pool": e[1], "path": [ex(x, c) for x in e[2]]}
    if k == "poolto": return {"pool": e[1], "path": [ex(x, c) for x in e[2]], "to": arg(e[3], c), "init": ex(e[4], c)}
    if k == "pooldel": return {"pool": e[1], "del": ex(e[2], c)}
    if k == "if": return {"if": ex(e[1], c), "then": exs(e[2], c)}
    if k == "ifelse": return {"if": ex(e[1], c), "then": exs(e[2], c), "else": exs(e[3], c)}
    if k == "cond": return {"cond": [{"if": ex(p, c), "then": exs(b, c)} for p, b in e[1]]}
    if k == "condelse": return {"cond": [{"if": ex(p, c), "then": exs(b, c)} for p, b in e[1]], "else": exs(e[2], c)}
    if k == "while": return {"while": ex(e[1], c), "do": exs(e[2], c)}
    if k == "until": return {"do": exs(e[1], c), "until": ex(e[2], c)}
    if k == "for": return {"for": named(e[1], c), "while": ex(e[2], c), "step": named(e[3], c), "do": exs(e[4], c)}
    if k == "foreach":
        out = {"foreach": e[1], "in": ex(e[2], c), "do": exs(e[3], c)}
        if not e[4]: out["seq"] = False
        elif not c.rng or c.rng.random() < 0.5: out["seq"] = True
        return out
    if k == "forkv": return {"forkey": e[1], "forval": e[2], "in": ex(e[3], c), "do": exs(e[4], c)}
    if k == "cast":
        out = {"cast": ex(e[1], c), "cases": [{"as": ty(t, c), "named": n, "do": exs(b, c)} for t, n, b in e[2]]}
        if e[3]: out["partial"] = True
        return out
    if k == "upcast": return {"upcast": ex(e[1], c), "as": ty(e[2], c)}
    if k == "ifnn": return {"ifnotnull": named(e[1], c), "then": exs(e[2], c)}
    if k == "ifnnelse": return {"ifnotnull": named(e[1], c), "then": exs(e[2], c), "else": exs(e[3], c)}
    if k == "doc": return {"doc": "a comment"}
    if k == "error":
        out = {"error": e[1]}
        if e[2][0] == "c": out["code"] = e[2][1]
        return out
    if k == "try":
        out = {"try": exs(e[1], c)}
        if e[2][0] == "some": out["filter"] = [x[1] for x in e[2][1]]
        return out
    if k == "log":
        out = {"log": [ex(x, c) for x in e[1]]}
        if e[2]: out["namespace"] = e[2]
        return out
    raise Exception("expression " + repr(e))

def document(case, rng=None):
    c = Ctx(case["D"], rng)
    doc = {"name": "Prog", "method": case["method"]}
    doc["input"] = ty(case["in"], c)
    doc["output"] = ty(case["out"], c)
    for part in ("begin", "action", "end"):
        if case.get(part):
            doc[part] = exs(case[part], c) if part != "action" or rng is None or rng.random() < 0.5 else [ex(x, c) for x in case[part]]
    if case.get("fcns"):
        doc["fcns"] = dict((f[0], fdef(f[1], f[2], f[3], c)) for f in case["fcns"])
    if case.get("cells"):
        doc["cells"] = dict((n, {"type": ty(x["t"], c), "init": js(x["init"], x["t"], case["D"]), "rollback": x["rb"], "shared": x.get("shared", False)})
                            for n, x in case["cells"].items())
    if case.get("pools"):
        doc["pools"] = dict((n, {"type": ty(x["t"], c), "init": dict((k, js(v, x["t"], case["D"])) for k, v in x["init"].items()), "rollback": x["rb"], "shared": x.get("shared", False)})
                            for n, x in case["pools"].items())
    if case["method"] == "fold":
        doc["zero"] = js(case["zero"], case["out"], case["D"])
        doc["merge"] = exs(case["merge"], c)
    if case.get("version") is not None:
        doc["version"] = case["version"]
    if case.get("metadata"):
        doc["metadata"] = dict(case["metadata"])
    if case.get("options"):
        doc["options"] = dict(case["options"])
    if case.get("randseed") is not None:
        doc["randseed"] = case["randseed"]
    return doc

# ---------------------------------------------------------------- running
def outcome(thunk, t, D):
    """Run thunk; encode the value (of type t) or the failure."""
    try:
        v = thunk()
    except TE.PFARuntimeException as x:
        return ["rt", x.code if isinstance(x.code, int) else -1]
    except TE.PFAUserException as x:
        return ["user", str(x.message if hasattr(x, "message") else x.args[0]), ["n"] if x.code is None else ["c", x.code]]
    except TE.PFATimeoutException as x:
        return ["timeout"]
    except RecursionError:
        return ["recursion"]
    except Exception as x:
        return ["crash", type(x).__name__ + ": " + str(x)[:150]]
    return ["v", enc(v, t, D)] if t is not None else ["v", ["n"]]

def load(doc, **kw):
    """-> (status, engine or message)"""
    try:
        return "ok", PFAEngine.fromJson(doc, **kw)
    except TE.PFASyntaxException as x:
        return "syntax", str(x)[:200]
    except TE.PFASemanticException as x:
        return "sem", str(x)[:200]
    except TE.PFAInitializationException as x:
        return "init", str(x)[:200]
    except RecursionError:
        return "recursion", ""
    except Exception as x:
        return "crash", type(x).__name__ + ": " + str(x)[:200]

def state_of(e, case):
    D = case["D"]
    cells = dict((n, enc(e.cells[n].value, x["t"], D)) for n, x in case.get("cells", {}).items())
    pools = dict((n, dict((str(k), enc(v, x["t"], D)) for k, v in e.pools[n].value.items())) for n, x in case.get("pools", {}).items())
    return cells, pools

def header(case):
    rec = dict((k, case.get(k, d)) for k, d in
               [("id", ""), ("D", {}), ("fcns", []), ("cells", {}), ("pools", {}), ("method", "map"), ("in", ["null"]), ("out", ["null"]),
                ("zero", ["n"]), ("begin", []), ("action", []), ("end", []), ("merge", []), ("uo", False), ("metadata", {}), ("expect", "")])
    rec["version"] = ["n"] if case.get("version") is None else ["i", case["version"]]
    rec["instance"] = 0
    rec["watch"] = []
    rec["steps"] = []
    rec["msg"] = ""
    return rec

HUGE = 30000
class Runner:
    """One engine, driven step by step; every step is recorded."""
    def __init__(self, e, case, rec):
        self.e, self.case, self.rec, D = e, case, rec, case["D"]
        self.emits, self.logs, self.watched = [], [], []
        self.checked, self.huge = case.get("check", True), False
        e.log = lambda vals, ns: self.logs.append([[enc(v, None, D) for v in vals], "" if ns is None else ns])
        if case["method"] == "emit": e.emit = self.onemit
    def onemit(self, v):
        self.emits.append(enc(v, self.case["out"], self.case["D"]))
        self.keep("emitted", v, self.case["out"])
    def keep(self, what, v, t):
        if self.case.get("watch") and isinstance(v, (dict, list)):
            self.watched.append((what, v, t, enc(v, t, self.case["D"])))
    def step(self, step):
        e, case, D = self.e, self.case, self.case["D"]
        if self.huge: return
        kind = step[0]
        del self.emits[:], self.logs[:]
        v = step[1] if len(step) > 1 else ["n"]
        def kept(thunk, what, t):
            def f():
                x = thunk()
                self.keep(what, x, t)
                return x
            return f
        if kind == "action":
            data = js(v, case["in"], D)
            self.keep("input", data, case["in"])
            f = (lambda: e.action(data)) if self.checked else (lambda: e.action(data, check=False))
            obs = outcome(kept(f, "output", case["out"]), case["out"] if case["method"] != "emit" else None, D)
        elif kind == "merge":
            one, two = js(v[1][0], case["out"], D), js(v[1][1], case["out"], D)
            self.keep("input", one, case["out"]); self.keep("input", two, case["out"])
            obs = outcome(kept(lambda: e.merge(one, two), "output", case["out"]), case["out"], D)
        elif kind == "begin": obs = outcome(e.begin, None, D)
        elif kind == "end": obs = outcome(e.end, None, D)
        elif kind == "look": obs = ["v", ["n"]]
        cells, pools = state_of(e, case)
        for n, x in case.get("cells", {}).items(): self.keep("cell " + n, e.cells[n].value, x["t"])
        for n, x in case.get("pools", {}).items():
            for k, y in e.pools[n].value.items(): self.keep("pool " + n, y, x["t"])
        if case["method"] == "fold": self.keep("tally", e.tally, case["out"])
        tally = enc(e.tally, case["out"], D) if case["method"] == "fold" else ["n"]
        done = [kind, v, obs, list(self.emits), list(self.logs), cells, pools, e.actionsStarted, e.actionsFinished, tally]
        if len(json.dumps(done)) > HUGE: self.huge = True   # programs that double what they keep: the run is judged up to here
        else: self.rec["steps"].append(done)
    def close(self):
        for what, v, t, before in self.watched:
            self.rec["watch"].append([what, before, enc(v, t, self.case["D"])])
        return self.rec

def run_case(case, rng=None, doc=None):
    """Run a case (steps: list of [kind, input value]) and return the records for the checker."""
    D = case["D"]
    if doc is None:
        doc = document(case, rng)
    text = json.dumps(doc)
    n = case.get("instances", 1)
    status, es = load(json.loads(text), multiplicity=n)
    recs = []
    for i in range(n):
        rec = header(case)
        rec["load"] = status
        rec["instance"] = i
        if n > 1: rec["id"] += "#%d" % i
        rec["doc"] = text if case.get("keepdoc") else ""
        if status != "ok":
            rec["msg"] = es
            rec["doc"] = text
            return [rec]
        recs.append(rec)
    runs = [Runner(e, case, rec) for e, rec in zip(es, recs)]
    if n > 1:
        for s in case["steps"]: runs[s[0]].step(s[1:])
        return [r.close() for r in runs]
    run, = runs
    for i, s in enumerate(case["steps"]):
        if case.get("snapshot") == i: return [run.rec] + snapshot(case, run, case["steps"][i:])
        run.step(s)
    if case.get("snapshot") == len(case["steps"]): return [run.rec] + snapshot(case, run, [])
    return [run.close()]

def snapshot(case, run, rest):
    """Take a snapshot, drive the original on, then load the snapshot and drive the copy through the same steps."""
    D, e = case["D"], run.e
    cells, pools = state_of(e, case)
    rec = header(case)
    rec["id"] += "#snapshot"
    rec["cells"] = dict((k, dict(x, init=cells[k])) for k, x in case.get("cells", {}).items())
    rec["pools"] = dict((k, dict(x, init=pools[k])) for k, x in case.get("pools", {}).items())
    try: text = e.snapshot().toJson()
    except Exception as x:
        rec["load"], rec["msg"] = "crash", type(x).__name__ + ": " + str(x)[:200]
        return [rec]
    run.step(["look"])
    for s in rest: run.step(s)
    status, es = load(json.loads(text))
    rec["load"], rec["doc"] = status, text if status != "ok" or case.get("keepdoc") else ""
    if status != "ok":
        rec["msg"] = es
        return [rec]
    new = Runner(es[0], case, rec)
    new.step(["look"])
    for s in rest: new.step(s)
    return [rec]
