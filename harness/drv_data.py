"""Data crossing the boundary of an engine: inputs given to action, values embedded in documents, outputs written as JSON.
usage: drv_data.py MODE SEED COUNT OUT     MODE: data | doc | avro"""
import sys, os, json, random, io, copy
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
import titus.datatype as DT
from titus.genpy import PFAEngine
import titus.errors as TE

MODE = sys.argv[1]

# ---------------------------------------------------------------- types
class Types:
    def __init__(self, rng):
        self.rng, self.D, self.n = rng, {}, 0
        self.depth = rng.choice([1, 2, 2, 3])
        # a name without a namespace takes the one of the record it is declared in, so all names have one or none has
        self.spaces = rng.choice([[""], ["ns.", "a.b."]])
    def name(self, base):
        self.n += 1
        return self.rng.choice(self.spaces) + "%s%d" % (base, self.n)
    def fresh(self, k, depth):
        rng = self.rng
        if k == "enum":
            n = self.name("E")
            self.D[n] = {"k": "enum", "syms": rng.sample(["one", "two", "three", "red", "X", "null", "string", "int", "true"], rng.randint(1, 4))}
        elif k == "fixed":
            n = self.name("F")
            self.D[n] = {"k": "fixed", "n": rng.choice([1, 2, 3, 8])}
        else:
            n = self.name("R")
            self.D[n] = {"k": "rec", "fields": []}
            names = rng.sample(["x", "y", "z", "int", "string", "null", "next", "type"], rng.randint(1, 3))
            fields = []
            for f in names:
                t = ("union", (("null",), ("rec", n))) if rng.random() < 0.1 else self.type(depth - 1)
                fields.append([f, t])
            self.D[n]["fields"] = fields
            if MODE == "doc":
                for f in fields:
                    if rng.random() < 0.25 and not touches(f[1], n, self.D) and f[1][0] not in ("null", "union"):
                        j = plain_value(rng, f[1], self.D)
                        if j is not None: f.append(j)
        return (k, n)
    def type(self, depth=None, union=True):
        rng = self.rng
        if depth is None: depth = self.depth
        r = rng.random()
        if depth <= 0 or r < 0.4:
            k = rng.choice(["null", "boolean", "int", "int", "long", "float", "double", "double", "string", "string", "bytes", "enum", "fixed"])
            return self.fresh(k, depth) if k in ("enum", "fixed") else (k,)
        if r < 0.52: return ("array", self.type(depth - 1))
        if r < 0.64: return ("map", self.type(depth - 1))
        if r < 0.78: return self.fresh("rec", depth)
        if not union: return ("string",)
        kinds = ["null", "boolean", "int", "long", "float", "double", "string", "bytes", "enum", "enum", "fixed", "rec", "rec", "array", "map"]
        out, used = [], set()
        for k in rng.sample(kinds, rng.randint(1, 4) if rng.random() < 0.9 else 6):
            if k in used and k not in ("enum", "rec", "fixed"): continue
            used.add(k)
            if k in ir.PRIMS: out.append((k,))
            elif k == "array": out.append(("array", self.type(depth - 1)))
            elif k == "map": out.append(("map", self.type(depth - 1)))
            else:
                out.append(self.fresh(k, depth - 1))
        if rng.random() < 0.4 and "null" not in used: out.insert(rng.randint(0, len(out)), ("null",))
        return ("union", tuple(out)) if out else ("int",)

def touches(t, n, D):
    """Does the type mention the record n (whose default would have to be written recursively)?"""
    k = t[0]
    if k in ("array", "map"): return touches(t[1], n, D)
    if k == "union": return True
    if k == "rec": return True
    return False

def avro(t, D, seen):
    k = t[0]
    if k in ir.PRIMS: return k
    if k == "array": return {"type": "array", "items": avro(t[1], D, seen)}
    if k == "map": return {"type": "map", "values": avro(t[1], D, seen)}
    if k == "union": return [avro(x, D, seen) for x in t[1]]
    n, d = t[1], D[t[1]]
    if n in seen: return n
    seen.add(n)
    out = {"name": n.split(".")[-1], "namespace": n.rsplit(".", 1)[0] if "." in n else ""}
    if not out["namespace"]: del out["namespace"]
    if k == "rec":
        out["type"] = "record"
        out["fields"] = []
        for f in d["fields"]:
            x = {"name": f[0], "type": avro(f[1], D, seen)}
            if len(f) > 2: x["default"] = f[2]
            out["fields"].append(x)
    elif k == "enum": out.update({"type": "enum", "symbols": d["syms"]})
    else: out.update({"type": "fixed", "size": d["n"]})
    return out

# ---------------------------------------------------------------- values
INTS = [0, 1, -1, 7, 2**31 - 1, -2**31, 255, 1000000]
LONGS = INTS + [2**31, -2**31 - 1, 2**53 - 1, -(2**53) + 1]
BIG = [2**63 - 1, -2**63, 2**62]
DBLS = [0.0, 1.0, -1.5, 0.25, 3.0, 65536.0, -16777216.0, 1234.0625, 2.0 ** 60] if MODE == "avro" else [0.0, 1.0, -1.5, 0.25, 3.0, 1e10, -2147483649.0, 0.5, 1234.0625, 1e300, -1e-7, 0.1]
STRS = ["", "a", "hello", "null", "int", "3", "true", "one", "two", "three", "red", "X", "a\"b", "\u00e9", "\u4e2d\u6587", "tab\there", "\u0000z", "-12", "1.5"]
def text(rng): return rng.choice(STRS) if rng.random() < 0.8 else "".join(rng.choice("abcxyz \u00ff\u0100") for _ in range(rng.randint(0, 5)))
def binary(rng, n=None):
    n = rng.randint(0, 5) if n is None else n
    return [rng.choice([0, 1, 10, 65, 97, 127, 128, 200, 255]) for _ in range(n)]

def tag(t): return t[1] if t[0] in ("rec", "enum", "fixed") else t[0]

def value(rng, t, D, depth=0):
    """A fitting value as Python data (unions tagged)."""
    k = t[0]
    if k == "null": return None
    if k == "boolean": return rng.random() < 0.5
    if k == "int": return rng.choice(INTS) if rng.random() < 0.7 else rng.randint(-2**31, 2**31 - 1)
    if k == "long": return rng.choice(LONGS + BIG) if rng.random() < 0.7 else rng.randint(-2**63, 2**63 - 1)
    if k in ("float", "double"): return (rng.choice(INTS[:4]) if MODE == "avro" else rng.choice(LONGS)) if rng.random() < 0.25 else rng.choice(DBLS)
    if k == "string": return text(rng)
    if k == "bytes":
        b = binary(rng)
        return bytes(b) if MODE != "doc" and rng.random() < 0.5 else "".join(map(chr, b))
    if k == "fixed":
        b = binary(rng, D[t[1]]["n"])
        return bytes(b) if MODE != "doc" and rng.random() < 0.5 else "".join(map(chr, b))
    if k == "enum": return rng.choice(D[t[1]]["syms"])
    n = rng.choice([0, 1, 2, 3]) if depth < 4 else 0
    if k == "array": return [value(rng, t[1], D, depth + 1) for _ in range(n)]
    if k == "map":
        keys = rng.sample(["a", "b", "x", "y", "int", "string", "null", "", "\u00e9", "ns.R1", "R1", "E1"], n)
        return dict((x, value(rng, t[1], D, depth + 1)) for x in keys)
    if k == "rec":
        out = {}
        for f in D[t[1]]["fields"]:
            if len(f) > 2 and rng.random() < 0.5: continue
            out[f[0]] = value(rng, f[1], D, depth + 1)
        items = list(out.items())
        rng.shuffle(items)
        return dict(items)
    if k == "union":
        bs = [b for b in t[1] if b[0] == "null"] if depth >= 3 and any(b[0] == "null" for b in t[1]) else t[1]
        b = rng.choice(bs)
        if b[0] == "null": return None
        return {tag(b): value(rng, b, D, depth + 1)}

def plain_value(rng, t, D):
    v = value(rng, t, D, 3)
    return None if v is None else v

# ---------------------------------------------------------------- changes to a value
def spots(v, t, D, at=()):
    """Every place of the value with its type."""
    yield at, t
    k = t[0]
    if k == "array" and isinstance(v, list):
        for i, x in enumerate(v): yield from spots(x, t[1], D, at + (i,))
    elif k == "map" and isinstance(v, dict):
        for x in v: yield from spots(v[x], t[1], D, at + (x,))
    elif k == "rec" and isinstance(v, dict):
        for f in D[t[1]]["fields"]:
            if f[0] in v: yield from spots(v[f[0]], f[1], D, at + (f[0],))
    elif k == "union" and isinstance(v, dict) and len(v) == 1:
        (g, x), = v.items()
        for b in t[1]:
            if tag(b) == g: yield from spots(x, b, D, at + (g,))

def get(v, at):
    for x in at: v = v[x]
    return v
def put(v, at, new):
    if not at: return new
    v = copy.deepcopy(v)
    x = v
    for a in at[:-1]: x = x[a]
    x[at[-1]] = new
    return v

def junk(rng, t, D):
    """Something for a place of type t: nearly right, or of another kind."""
    k = t[0]
    near = []
    if k == "int": near = [2**31, -2**31 - 1, 1.5, 3.0, -0.5, "3", True, 2**70, "x"]
    elif k == "long": near = [2**63, -2**63 - 1, 1.5, 3.0, "3", False, 2**70]
    elif k in ("float", "double"): near = ["1.5", True, 3, "x", None]
    elif k == "boolean": near = [0, 1, "true", None, "yes"]
    elif k == "null": near = [False, 0, "", "null", [], {}, {"null": None}]
    elif k == "string": near = [1, None, ["a"], {"string": "a"}, True]
    elif k == "bytes": near = ["\u0100", 1, [1], None]
    elif k == "fixed":
        n = D[t[1]]["n"]
        near = ["a" * (n + 1), "a" * (n - 1), "\u0100" * n, n, [97] * n]
        if MODE == "data": near += [b"a" * (n + 1), b"a" * (n - 1)]
    elif k == "enum": near = ["nope", "", 0, D[t[1]]["syms"][0].upper() + "_", [D[t[1]]["syms"][0]]]
    elif k == "array": near = [{}, "", "ab", {"array": []}, None, 0, [None, 1, "a"]]
    elif k == "map": near = [[], "", [["a", 1]], None, {"a": object}, {"map": {}}, 3]
    elif k == "rec": near = [{}, [], "", None, {tag(t): {}}, 3]
    elif k == "union":
        b = rng.choice(t[1])
        inner = value(rng, b, D, 2)
        near = [{tag(b): inner}, inner, {"nope": inner}, {tag(b): inner, "more": 1}, {}, {tag(b).split(".")[-1]: inner}, {tag(b): junk(rng, b, D)},
                {b[0]: inner}, {"null": None}, {rng.choice(["int", "string", "array", "double", "long"]): inner}, {".%s" % tag(b): inner}]
    near = [x for x in near if x is not object and not (isinstance(x, dict) and object in x.values())]
    if near and rng.random() < 0.75: return rng.choice(near)
    return rng.choice([None, True, False, 0, 12, 2**40, 1.25, "", "zed", "one", [], [1], {}, {"a": 1}, {"x": None}])

def mutate(rng, v, t, D):
    ps = list(spots(v, t, D))
    at, s = rng.choice(ps)
    here = get(v, at)
    if s[0] == "rec" and isinstance(here, dict) and here and rng.random() < 0.7:
        new = dict(here)
        r = rng.random()
        f = rng.choice(list(new))
        if r < 0.5: del new[f]
        elif r < 0.75: new["extra"] = 1
        else: new[f + "_"] = new.pop(f)
        return put(v, at, new)
    return put(v, at, junk(rng, s, D))

# ---------------------------------------------------------------- notation
def spec(x):
    if x is None: return ["jn"]
    if isinstance(x, bool): return ["jb", x]
    if isinstance(x, int): return ["ji", ir.enc_num(x)]
    if isinstance(x, float): return ["jd", ir.enc_num(x)]
    if isinstance(x, str):
        plain = all(32 <= ord(c) < 127 for c in x)
        return ["js", x if plain else "", [ord(c) for c in x], plain]
    if isinstance(x, (bytes, bytearray)): return ["jy", list(x)]
    if isinstance(x, (list, tuple)): return ["ja", [spec(y) for y in x]]
    if isinstance(x, dict): return ["jo", [[str(k), spec(y)] for k, y in x.items()]]
    return ["j?", type(x).__name__]

def mem(x, t, D):
    """A value inside the engine, of type t."""
    k = t[0]
    if k == "union":
        if x is None: return ["n"]
        if isinstance(x, dict) and len(x) == 1:
            (g, y), = x.items()
            for b in t[1]:
                if tag(b) == g: return ["t", g, mem(y, b, D)]
        return ["untagged", repr(x)[:80]]
    if x is None: return ["n"]
    if isinstance(x, bool): return ["b", x]
    if isinstance(x, int): return ["not promoted", ir.enc_num(x)] if k in ("float", "double") else ir.enc_num(x)
    if isinstance(x, float): return ["d", ir.enc_num(x)] if k in ("float", "double") else ["float", ir.enc_num(x)]
    if isinstance(x, (bytes, bytearray)): return ["y", list(x)]
    if isinstance(x, str): return ["y", [ord(c) for c in x]] if k in ("bytes", "fixed") else ir.enc_str(x)
    if isinstance(x, (list, tuple)): return ["a", [mem(y, t[1] if k == "array" else ("null",), D) for y in x]]
    if isinstance(x, dict):
        ft = dict((f[0], f[1]) for f in D[t[1]]["fields"]) if k == "rec" else {}
        return ["m", dict((str(n), mem(y, t[1] if k == "map" else ft.get(n, ("null",)), D)) for n, y in x.items())]
    return ["?", type(x).__name__]

REFUSE = (TypeError, TE.AvroException, TE.PFASyntaxException, TE.PFASemanticException, TE.PFAInitializationException)
def describe(x): return "%s: %s" % (type(x).__name__, str(x)[:120])

def out_of(e, out, t, D, test):
    at = e.config.output
    test["seen"] = mem(out, t, D)
    try:
        j = DT.jsonEncoder(at, out)
        test["enc"] = spec(json.loads(json.dumps(j)))
        test["bare"] = spec(DT.jsonEncoder(at, out, tagged=False))
        test["again"] = mem(DT.jsonDecoder(at, json.loads(json.dumps(j))), t, D)
    except Exception as x:
        for k in ("enc", "bare", "again"): test.setdefault(k, ["j?", describe(x)])

def blank(how, j): return {"how": how, "j": spec(j), "seen": ["n"], "enc": ["jn"], "bare": ["jn"], "again": ["n"], "started": 0}

def try_data(e, j, t, D, how="data", given=None):
    test = blank(how, j)
    logs = []
    e.log = lambda vs, ns: logs.append(mem(vs[0], t, D))
    before = e.actionsStarted
    try: out = e.action(copy.deepcopy(j) if given is None else given)
    except REFUSE as x: test["got"] = ["refused", describe(x)]
    except Exception as x: test["got"] = ["crash", describe(x)]
    else:
        test["got"] = ["v", logs[0] if logs else ["nolog"]]
        out_of(e, out, t, D, test)
    test["started"] = e.actionsStarted - before
    return test

try: import numpy
except ImportError: numpy = None
def arrayed(rng, x):
    """The same data with numpy's scalars here and there."""
    if isinstance(x, dict): return dict((k, arrayed(rng, y)) for k, y in x.items())
    if isinstance(x, list): return [arrayed(rng, y) for y in x]
    if rng.random() < 0.5:
        if isinstance(x, bool): return numpy.bool_(x)
        if isinstance(x, int) and -2**63 <= x < 2**63: return numpy.int64(x)
        if isinstance(x, float): return numpy.float64(x)
    return x

def try_doc(rng, j, t, D):
    test = blank("doc", j)
    T = avro(t, D, set())
    logs = []
    place = rng.choice(["cell", "pool", "zero", "value", "meta"])
    doc = {"name": "Boundary", "input": "null", "output": T, "method": "map"}
    if rng.random() < 0.5: doc["types"] = None
    doc.pop("types", None)
    if place == "cell":
        doc["cells"] = {"c": {"type": T, "init": j}}
        x = {"cell": "c"}
    elif place == "pool":
        doc["pools"] = {"p": {"type": T, "init": {"k": j}}}
        x = {"pool": "p", "path": [["k"]]}
    elif place == "zero":
        doc["method"], doc["zero"], doc["merge"] = "fold", j, "tallyOne"
        x = "tally"
    else:
        x = {"type": T, "value": j}
    doc["action"] = [{"let": {"v": x}}, {"log": ["v"]}, "v"]
    test["place"] = place
    try:
        e, = PFAEngine.fromJson(json.loads(json.dumps(doc)))
        e.log = lambda vs, ns: logs.append(mem(vs[0], t, D))
        out = e.action(None)
    except REFUSE as x: test["got"] = ["refused", describe(x)]
    except Exception as x: test["got"] = ["crash", describe(x)]
    else:
        test["got"] = ["v", logs[0] if logs else ["nolog"]]
        out_of(e, out, t, D, test)
    return test

def bare(v, t, D):
    """A fitting value without tags, as the avro library takes it."""
    k = t[0]
    if v is None: return None
    if k == "union":
        (g, y), = v.items()
        for b in t[1]:
            if tag(b) == g: return bare(y, b, D)
    if k == "array": return [bare(x, t[1], D) for x in v]
    if k == "map": return dict((n, bare(x, t[1], D)) for n, x in v.items())
    if k == "rec":
        ft = dict((f[0], f[1]) for f in D[t[1]]["fields"])
        return dict((n, bare(x, ft[n], D)) for n, x in v.items())
    if k in ("float", "double"): return float(v)
    if k in ("bytes", "fixed") and isinstance(v, str): return v.encode("latin-1")
    return v

def try_avro(e, vs, t, D):
    """Write values to an Avro file, read them with the engine's iterator and score them."""
    from avro.datafile import DataFileWriter
    from avro.io import DatumWriter
    f = io.BytesIO()
    w = DataFileWriter(f, DatumWriter(), e.config.input.schema)
    for v in vs: w.append(bare(v, t, D))
    w.flush()
    f.seek(0)
    return [try_data(e, bare(v, t, D), t, D, "data", given=x) for v, x in zip(vs, e.avroInputIterator(io.BytesIO(f.getvalue())))]

def main():
    seed, count, out = sys.argv[2], int(sys.argv[3]), sys.argv[4]
    with open(out, "w") as f:
        for i in range(count):
            rng = random.Random("data/%s/%s/%d" % (MODE, seed, i))
            while True:
                T = Types(rng)
                t, D = T.type(), T.D
                if MODE != "avro" or not unionof(t, D, set()): break
            rec = {"id": "data/%s/%s/%d" % (MODE, seed, i), "t": t, "tests": []}
            rec["D"] = dict((n, dict(d, fields=[f[:2] + [spec(f[2])] if len(f) > 2 else f for f in d["fields"]] if "fields" in d else [])) for n, d in D.items())
            for d in rec["D"].values():
                for k, x in (("syms", []), ("n", 0)): d.setdefault(k, x)
            if MODE == "doc":
                for k in range(4):
                    v = value(rng, t, D)
                    if k: v = mutate(rng, v, t, D)
                    rec["tests"].append(try_doc(rng, v, t, D))
            else:
                T = avro(t, D, set())
                doc = {"name": "Boundary", "input": T, "output": T, "action": [{"log": ["input"]}, "input"]}
                try: e, = PFAEngine.fromJson(json.loads(json.dumps(doc)))
                except Exception as x:
                    rec["tests"].append(dict(blank("data", None), got=["crash", describe(x)]))
                    f.write(json.dumps(rec) + "\n")
                    continue
                if MODE == "avro":
                    vs = [value(rng, t, D) for _ in range(5)]
                    try: rec["tests"] = try_avro(e, vs, t, D)
                    except Exception as x: rec["tests"] = [dict(blank("data", None), got=["crash", describe(x)])]
                else:
                    for k in range(8):
                        v = value(rng, t, D)
                        for _ in range(0 if k < 3 else rng.choice([1, 1, 1, 2])): v = mutate(rng, v, t, D)
                        given = arrayed(rng, v) if numpy is not None and rng.random() < 0.1 else None
                        rec["tests"].append(try_data(e, v, t, D, given=given))
            f.write(json.dumps(rec) + "\n")

def unionof(t, D, seen):
    """Does the type have a union that is more than an optional value?"""
    k = t[0]
    if k in ("array", "map"): return unionof(t[1], D, seen)
    if k == "union":
        return len(t[1]) > 2 or not any(b[0] == "null" for b in t[1]) or any(unionof(b, D, seen) for b in t[1])
    if k == "rec":
        if t[1] in seen: return False
        seen.add(t[1])
        return any(unionof(f[1], D, seen) for f in D[t[1]]["fields"])
    return False
main()
