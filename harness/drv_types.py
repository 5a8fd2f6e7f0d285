"""Types, common types, signatures and versions as the engine's own classes decide them.
usage: drv_types.py MODE SEED COUNT OUT     MODE: accepts | broadest | sigs | lib | versions"""
import sys, os, json, random, io
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir, gen
import titus.P as P
import titus.signature as S
import titus.datatype as DT
import titus.pfaast as pfaast

PRIMS = [(k,) for k in ir.PRIMS]

# ---- declarations: key -> body; several keys may share a full name
DECLS = {
    "Rec": {"full": "Rec", "k": "rec", "fields": [["a", ("int",), False], ["b", ("string",), False], ["c", ("array", ("int",)), False]]},
    "Rec~1": {"full": "Rec", "k": "rec", "fields": [["a", ("int",), False], ["b", ("string",), False]]},
    "Rec~2": {"full": "Rec", "k": "rec", "fields": [["a", ("double",), False], ["b", ("string",), False], ["c", ("array", ("long",)), False]]},
    "Rec~3": {"full": "Rec", "k": "rec", "fields": [["a", ("int",), False], ["d", ("int",), True]]},
    "Oth": {"full": "Oth", "k": "rec", "fields": [["a", ("int",), False], ["b", ("string",), False], ["c", ("array", ("int",)), False]]},
    "ns.Rec": {"full": "ns.Rec", "k": "rec", "fields": [["a", ("int",), False], ["b", ("string",), False], ["c", ("array", ("int",)), False]]},
    "Node": {"full": "Node", "k": "rec", "fields": [["v", ("int",), False], ["next", ("union", (("null",), ("rec", "Node"))), False]]},
    "Node~1": {"full": "Node", "k": "rec", "fields": [["v", ("double",), False], ["next", ("union", (("null",), ("rec", "Node~1"))), False]]},
    "Col": {"full": "Col", "k": "enum", "syms": ["red", "green", "blue"]},
    "Col~1": {"full": "Col", "k": "enum", "syms": ["green", "red"]},
    "Fld": {"full": "Fld", "k": "enum", "syms": ["a", "b", "c"]},
    "ns.Col": {"full": "ns.Col", "k": "enum", "syms": ["red", "green", "blue"]},
    "Fx": {"full": "Fx", "k": "fixed", "n": 3},
    "Fx~1": {"full": "Fx", "k": "fixed", "n": 4},
    "Fy": {"full": "Fy", "k": "fixed", "n": 3},
}
PLAIN = [k for k in DECLS if "~" not in k]
for d in DECLS.values():
    for k, v in (("fields", []), ("syms", []), ("n", 0)): d.setdefault(k, v)

def avro(t, seen):
    k = t[0]
    if k in ir.PRIMS: return k
    if k == "array": return {"type": "array", "items": avro(t[1], seen)}
    if k == "map": return {"type": "map", "values": avro(t[1], seen)}
    if k == "union": return [avro(x, seen) for x in t[1]]
    d = DECLS[t[1]]
    if t[1] in seen: return d["full"]
    seen.add(t[1])
    out = {"name": d["full"].split(".")[-1]}
    if "." in d["full"]: out["namespace"] = d["full"].rsplit(".", 1)[0]
    if k == "rec":
        fs = []
        for f in d["fields"]:
            x = {"name": f[0], "type": avro(f[1], seen)}
            if f[2]: x["default"] = 0
            fs.append(x)
        out.update({"type": "record", "fields": fs})
    elif k == "enum": out.update({"type": "enum", "symbols": d["syms"]})
    else: out.update({"type": "fixed", "size": d["n"]})
    return out

cache = {}
def typ(t):
    """Notation -> a type of the engine."""
    if t not in cache:
        if t[0] == "fcn": cache[t] = DT.FcnType([typ(x) for x in t[1]], typ(t[2]))
        elif t[0] == "exc": cache[t] = DT.ExceptionType()
        else:
            s = json.dumps(avro(t, set()))
            cache[t] = DT.ForwardDeclarationParser().parse([s])[s]
    return cache[t]

def untyp(x):
    if isinstance(x, DT.FcnType): return ["fcn", [untyp(y) for y in x.params], untyp(x.ret)]
    if isinstance(x, DT.ExceptionType): return ["exc"]
    if isinstance(x, DT.AvroArray): return ["array", untyp(x.items)]
    if isinstance(x, DT.AvroMap): return ["map", untyp(x.values)]
    if isinstance(x, DT.AvroUnion): return ["union", [untyp(y) for y in x.types]]
    if isinstance(x, DT.AvroRecord): return ["rec", x.fullName.lstrip(".")]
    if isinstance(x, DT.AvroEnum): return ["enum", x.fullName.lstrip(".")]
    if isinstance(x, DT.AvroFixed): return ["fixed", x.fullName.lstrip(".")]
    if isinstance(x, DT.AvroType): return [x.name]
    return ["notatype", repr(x)]

def plain(D): return dict((k, dict(v)) for k, v in D.items())
def pname(t): return t[1] if t[0] in ("rec", "enum", "fixed") else t[0]
def base(k): return DECLS[k]["full"].split(".")[-1]

class Types:
    def __init__(self, rng, names=PLAIN, fcns=True):
        self.r, self.names, self.fcns = rng, names, fcns
    def one(self, depth=2, union=True, fcn=False):
        r = self.r
        x = r.random()
        if depth <= 0 or x < 0.42: return r.choice(PRIMS)
        if x < 0.55: return ("array", self.one(depth - 1))
        if x < 0.66: return ("map", self.one(depth - 1))
        if x < 0.82:
            n = r.choice(self.names)
            return (DECLS[n]["k"], n)
        if x < 0.95 and union: return self.union(depth)
        if fcn: return ("fcn", tuple(self.one(depth - 1) for _ in range(r.randint(0, 3))), self.one(depth - 1))
        return r.choice(PRIMS)
    def union(self, depth=2):
        r = self.r
        out = {}
        for _ in range(r.randint(2, 4)):
            t = self.one(depth - 1, union=False)
            k = base(t[1]) if t[0] in ("rec", "enum", "fixed") else t[0]
            out.setdefault(k, t)
        ts = list(out.values())
        return ("union", tuple(ts)) if len(ts) > 1 else ts[0]
    def near(self, t):
        """A variation of t: promoted, demoted, widened, narrowed, replaced somewhere."""
        r = self.r
        x = r.random()
        k = t[0]
        if k in gen.NUMS and x < 0.75:
            return (r.choice(gen.NUMS),)
        if x < 0.06: return self.one()
        if x < 0.12 and k not in ("union", "fcn", "exc"):
            u = r.choice([("null",), ("string",), ("boolean",)])
            return t if pname(u) == pname(t) else ("union", r.choice([(t, u), (u, t)]))
        if k in ("array", "map"):
            return (r.choice([k, k, k, k, k, "array", "map"]), self.near(t[1]))
        if k == "union":
            ts = list(t[1])
            y = r.random()
            if y < 0.3 and len(ts) > 1: ts.pop(r.randrange(len(ts)))
            elif y < 0.5: r.shuffle(ts)
            else:
                j = r.randrange(len(ts)); n = self.near(ts[j])
                if n[0] == "union": n = n[1][0]
                ts[j] = n
            seen, out = set(), []
            for u in ts:
                q = base(u[1]) if u[0] in ("rec", "enum", "fixed") else u[0]
                if q not in seen: seen.add(q); out.append(u)
            return ("union", tuple(out)) if len(out) > 1 else out[0]
        if k == "fcn":
            ps = list(t[1])
            if ps and x < 0.3: ps.pop()
            elif x < 0.4: ps.append(("int",))
            else: ps = [self.near(p) if r.random() < 0.5 else p for p in ps]
            return ("fcn", tuple(ps), self.near(t[2]) if r.random() < 0.5 else t[2])
        if k in ("rec", "enum", "fixed") and x < 0.7:
            ks = [n for n in self.names if DECLS[n]["k"] == k]
            return (k, r.choice(ks))
        return t

def outside_doc(ts):
    """Two declarations of one name within one type cannot be written down."""
    names = {}
    def walk(t):
        if t[0] in ("rec", "enum", "fixed"):
            if names.setdefault(DECLS[t[1]]["full"], t[1]) != t[1]: return False
            return all(walk(f[1]) for f in DECLS[t[1]]["fields"] if f[1] != t and "Node" not in t[1])
        return all(walk(x) for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)) and \
               all(walk(y) for x in t[1:] if isinstance(x, tuple) and (not x or not isinstance(x[0], str)) for y in x)
    return not all(walk(t) for t in ts)

def accepts(rng, i):
    T = Types(rng, list(DECLS))
    while True:
        a = T.one(3, fcn=rng.random() < 0.3)
        b = T.near(a) if rng.random() < 0.85 else T.one(3, fcn=a[0] == "fcn")
        if rng.random() < 0.4: b = T.near(b)
        if outside_doc([a]) or outside_doc([b]): continue
        if rng.random() < 0.02: b = ("exc",)
        break
    if rng.random() < 0.5: a, b = b, a
    if a[0] == "exc": a, b = b, a
    try: got = typ(a).accepts(typ(b))
    except Exception as x: got = "raised %s: %s" % (type(x).__name__, x)
    return {"kind": "accepts", "D": plain(DECLS), "a": a, "b": b, "got": got}

def broadest(rng, i):
    T = Types(rng)
    fc = rng.random() < 0.1
    first = T.one(2, fcn=fc)
    cands = [first]
    for _ in range(rng.randint(0, 3)):
        cands.append(T.near(rng.choice(cands)) if rng.random() < 0.7 else T.one(1))
    if rng.random() < 0.15: cands.insert(rng.randrange(len(cands) + 1), ("exc",))
    try: got = ["type", untyp(S.LabelData.broadestType([typ(c) for c in cands]))]
    except (S.IncompatibleTypes, DT.titus.errors.AvroException): got = ["none"]
    except Exception as x: got = ["raised", "%s: %s" % (type(x).__name__, x)]
    return {"kind": "broadest", "D": {}, "cands": cands, "got": got}

# ---- signatures
def pat(p):
    k = p[0]
    simple = {"null": P.Null, "boolean": P.Boolean, "int": P.Int, "long": P.Long, "float": P.Float, "double": P.Double, "string": P.String, "bytes": P.Bytes}
    if k in simple: return simple[k]()
    if k == "array": return P.Array(pat(p[1]))
    if k == "map": return P.Map(pat(p[1]))
    if k == "union": return P.Union([pat(x) for x in p[1]])
    if k == "fcn": return P.Fcn([pat(x) for x in p[1]], pat(p[2]))
    if k == "wild": return P.Wildcard(p[1], [typ(x) for x in p[2]] if p[2] else None)
    if k == "wrec": return P.WildRecord(p[1], dict((f, pat(q)) for f, q in p[2]))
    if k == "wenum": return P.WildEnum(p[1])
    if k == "wfixed": return P.WildFixed(p[1])
    if k == "efields": return P.EnumFields(p[1], p[2])
    raise Exception(p)

def rpat(r, depth=2, fcn=True):
    x = r.random()
    if x < 0.25: return r.choice(PRIMS)
    if x < 0.45: return ("wild", r.choice("ABC"), ())
    if x < 0.5: return ("wild", r.choice("AB"), tuple((k,) for k in r.sample(gen.NUMS + ("string",), 3)))
    if depth > 0:
        if x < 0.65: return ("array", rpat(r, depth - 1, False))
        if x < 0.75: return ("map", rpat(r, depth - 1, False))
        if x < 0.8:
            p = r.choice([("wild", r.choice("ABC"), ()), ("boolean",), ("int",), ("double",), ("string",), ("array", ("int",)), ("array", ("double",))])
            return ("union", (p, ("null",)))
        if x < 0.9 and fcn: return ("fcn", tuple(rpat(r, 1, False) for _ in range(r.randint(0, 2))), rpat(r, 1, False))
    if x < 0.94: return ("wrec", r.choice("RA"), tuple(r.choice([(("a", ("int",)),), (("a", ("double",)),), (("a", ("wild", "A", ())), ("b", ("string",))), (), (("v", ("double",)),), (("c", ("array", ("wild", "C", ()))),)])))
    if x < 0.97: return ("wenum", "E")
    return ("wfixed", "F")

def labels(p, out):
    if isinstance(p, (tuple, list)):
        if p and p[0] in ("wild", "wrec", "wenum", "wfixed", "efields") and len(p) > 1 and isinstance(p[1], str): out.add(p[1])
        for x in p: labels(x, out)
    return out

def fit(T, p, b):
    """Argument types for a pattern."""
    r = T.r
    k = p[0]
    if k == "wild":
        if p[1] in b and r.random() < 0.9: return b[p[1]]
        t = r.choice(p[2]) if p[2] else T.one(2)
        b.setdefault(p[1], t)
        return t
    if k == "wrec":
        if p[1] in b and r.random() < 0.9: return b[p[1]]
        want = dict(p[2])
        ok = [n for n in T.names if DECLS[n]["k"] == "rec" and set(want) <= set(f[0] for f in DECLS[n]["fields"])]
        if ok and r.random() < 0.9:
            n = r.choice(ok); t = ("rec", n)
            for f in DECLS[n]["fields"]:
                q = want.get(f[0])
                if q and q[0] == "wild": b.setdefault(q[1], f[1])
        else: t = ("rec", r.choice(["Rec", "Oth", "Node"]))
        b.setdefault(p[1], t)
        return t
    if k == "wenum": return b.setdefault(p[1], ("enum", r.choice(["Col", "Fld"])))
    if k == "efields": return b.setdefault(p[1], ("enum", r.choice(["Fld", "Fld", "Col"])))
    if k == "wfixed": return b.setdefault(p[1], ("fixed", r.choice(["Fx", "Fy"])))
    if k in ("array", "map"): return (k, fit(T, p[1], b))
    if k == "union":
        ts = [fit(T, x, b) for x in p[1]]
        if r.random() < 0.3: return r.choice(ts)
        r.shuffle(ts)
        flat, seen = [], set()
        for t in ts:
            for u in (t[1] if t[0] == "union" else (t,)):
                q = base(u[1]) if u[0] in ("rec", "enum", "fixed") else u[0]
                if q not in seen and u[0] not in ("fcn", "exc"): seen.add(q); flat.append(u)
        return ("union", tuple(flat)) if len(flat) > 1 else (flat or [("null",)])[0]
    if k == "fcn": return ("fcn", tuple(fit(T, x, b) for x in p[1]), fit(T, p[2], b))
    return p

def demote(r, t):
    if t[0] in gen.NUMS and r.random() < 0.5: return (gen.NUMS[r.randrange(gen.RANK[t[0]] + 1)],)
    if t[0] in ("array", "map"): return (t[0], demote(r, t[1]))
    return t

def args_for(T, ps):
    r = T.r
    b = {}
    args = [fit(T, p, b) for p in ps]
    args = [demote(r, a) if r.random() < 0.3 else a for a in args]
    x = r.random()
    if args and x < 0.45:
        j = r.randrange(len(args)); args[j] = T.near(args[j])
    if args and x < 0.1:
        j = r.randrange(len(args)); args[j] = T.one(2, fcn=True)
    if x < 0.03: args.append(("int",))
    elif args and x < 0.06: args.pop()
    elif args and x < 0.07: args[r.randrange(len(args))] = ("exc",)
    return args

def ver(n): return S.PFAVersion(n // 10000, n // 100 % 100, n % 100)
def life_of(l):
    f = lambda v: None if v == -1 else ver(v)
    return S.Lifespan(f(l[0]), f(l[1]), f(l[2]), "use something else" if l[1] != -1 else None)
def rlife(r):
    x = r.random()
    if x < 0.55: return [-1, -1, -1]
    vs = sorted(r.sample([0, 1, 2, 100, 101, 107, 199, 200, 700, 702, 800, 900, 10000, 10001, 20000], 3))
    return [vs[0] if r.random() < 0.6 else -1] + (vs[1:] if r.random() < 0.7 else [-1, -1])
def rversion(r, lifes):
    near = [v + d for l in lifes for v in l if v != -1 for d in (-1, 0, 1) if (v + d) >= 0 and (v + d) % 100 < 99]
    return r.choice(near) if near and r.random() < 0.8 else r.choice([0, 1, 107, 702, 801, 899, 900, 901, 10000, 20001])

def resolved(sig, cases, fcn, args, version):
    try: got = sig.accepts([typ(a) for a in args], ver(version))
    except Exception as x: return ["raised", "%s: %s" % (type(x).__name__, x)]
    if got is None: return ["none"]
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        fcn.deprecationWarning(got[0], ver(version))
        said = sys.stderr.getvalue() != ""
    except Exception as x: return ["raised", "%s: %s" % (type(x).__name__, x)]
    finally: sys.stderr = err
    return ["ok", [k for k, c in enumerate(cases) if c is got[0]][0] + 1, [untyp(t) for t in got[1]], untyp(got[2]), said]

import titus.fcn, titus.reader
class Dummy(titus.fcn.LibFcn):
    name = "dummy"

def sigs(rng, i):
    T = Types(rng)
    cases = []
    n = rng.randint(1, 3)
    k = rng.randint(0, 3)
    while len(cases) < n:
        ps = [rpat(rng) for _ in range(k if rng.random() < 0.8 else rng.randint(0, 3))]
        ls = sorted(labels(ps, set()))
        ret = rpat(rng, 1, False)
        if not labels(ret, set()) <= set(ls) or any(x in json.dumps(ret) for x in ("wrec", "wenum", "wfixed")): ret = ("wild", ls[0], ()) if ls else ("int",)
        if "union" in json.dumps(ret): continue          # whose branches could coincide
        if '"wrec", "A"' in json.dumps(ps) and '"wild", "A"' in json.dumps(ps): continue   # a record label and a value label apart
        cases.append({"params": ps, "ret": ret, "life": rlife(rng)})
    args = args_for(T, rng.choice(cases)["params"])
    if any(a[0] == "fcn" for a in args): cases = [c for c in cases if '"wild"' not in json.dumps([p for p in c["params"] if p[0] == "wild"])] or [{"params": [("fcn", (("int",),), ("wild", "A", ()))], "ret": ("wild", "A", ()), "life": [-1, -1, -1]}]
    v = rversion(rng, [c["life"] for c in cases])
    ss = [S.Sig([{"p%d" % j: pat(p)} for j, p in enumerate(c["params"])], pat(c["ret"]), life_of(c["life"])) for c in cases]
    sig = S.Sigs(ss) if len(ss) > 1 or rng.random() < 0.3 else ss[0]
    D = dict((k, DECLS[k]) for k in PLAIN)
    return {"kind": "sigs", "D": plain(D), "sigs": cases, "args": args, "version": v, "got": resolved(sig, ss, Dummy(), args, v)}

NAMES = sorted(gen.SIGS)
FT = pfaast.FunctionTable.blank().functions
def lib(rng, i):
    """Every signature of every library function in turn."""
    flat = [(f, k) for f in NAMES for k in range(len(gen.SIGS[f]))]
    f, k = flat[i % len(flat)]
    case = gen.SIGS[f][k]
    T = Types(rng)
    args = args_for(T, gen.tup(case["params"]))
    v = rversion(rng, [case["life"]]) if rng.random() < 0.5 or case["life"][2] != -1 else 10000
    D = dict((k, DECLS[k]) for k in PLAIN)
    rec = {"kind": "lib", "D": plain(D), "fcn": f, "args": args, "version": v, "infer": ["not asked"]}
    if f not in FT:
        rec["got"] = ["no such function"]
        return rec
    sg = FT[f].sig
    rec["got"] = resolved(sg, sg.cases if isinstance(sg, S.Sigs) else [sg], FT[f], args, v)
    if all(a[0] not in ("fcn", "exc") for a in args) and not outside_doc(args):
        err, sys.stderr = sys.stderr, io.StringIO()
        try:
            t = pfaast.inferType(titus.reader.jsonToAst.expr({f: ["x%d" % j for j in range(len(args))]}), dict(("x%d" % j, typ(a)) for j, a in enumerate(args)), version=ver(v))
            rec["infer"] = ["type", untyp(t)]
        except ir.TE.PFASemanticException: rec["infer"] = ["none"]
        except Exception as x: rec["infer"] = ["raised", "%s: %s" % (type(x).__name__, x)]
        finally: sys.stderr = err
    return rec

def versions(rng, i):
    if i % 2:
        a = [rng.choice([0, 1, 2, 9, 10, 11]) for _ in range(3)]
        b = [x if rng.random() < 0.6 else rng.choice([0, 1, 2, 9, 10, 11]) for x in a]
        va, vb = S.PFAVersion(*a), S.PFAVersion.fromString(".".join(map(str, b)))
        return {"kind": "version", "a": a, "b": b, "lt": va < vb, "ge": va >= vb}
    l = rlife(rng)
    v = rversion(rng, [l])
    x = life_of(l)
    return {"kind": "life", "life": l, "version": v, "current": x.current(ver(v)), "deprecated": x.deprecated(ver(v))}

def main():
    mode, seed, count, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    start = int(seed.split(".")[-1]) * count
    with open(out, "w") as f:
        for i in range(count):
            rng = random.Random("%s/%s/%d" % (mode, seed, i))
            rec = globals()[mode](rng, start + i)
            rec["id"] = "%s/%s/%d" % (mode, seed, i)
            f.write(json.dumps(rec) + "\n")
main()
