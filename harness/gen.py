"""Random generation of PFA programs (type directed) in the notation of spec/PFALang.tla."""
import json, os, random, re
HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "..", "spec")
SIGS = json.load(open(os.path.join(SPEC, "signatures.json")))
def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, list) else x
TNULL, TBOOL, TINT, TLONG, TDOUBLE, TSTR, TBYTES = ("null",), ("boolean",), ("int",), ("long",), ("double",), ("string",), ("bytes",)
def arr(t): return ("array", t)
def mp(t): return ("map", t)
def un(*ts): return ("union", tuple(ts))
NUMS = ("int", "long", "float", "double")
RANK = dict((n, i) for i, n in enumerate(NUMS))

def accepts(a, b):
    if b[0] == "union": return all(accepts(a, x) for x in b[1])
    if a[0] == "union": return any(accepts(x, b) for x in a[1])
    if a[0] in NUMS: return b[0] in NUMS and RANK[b[0]] <= RANK[a[0]]
    if a[0] != b[0]: return False
    if a[0] in ("array", "map"): return accepts(a[1], b[1])
    if a[0] in ("rec", "enum", "fixed"): return a[1] == b[1]
    if a[0] == "fcn": return a == b
    return True

DECLS = {
    "Rec": {"k": "record", "fields": [["a", TINT], ["b", TSTR], ["c", arr(TINT)]]},
    "Pt": {"k": "record", "fields": [["x", TDOUBLE], ["y", TDOUBLE]]},
    "Big": {"k": "record", "fields": [["r", ("rec", "Rec")], ["m", mp(TINT)], ["u", un(TINT, TSTR)], ["o", un(TNULL, TINT)]]},
    "Node": {"k": "record", "fields": [["v", TINT], ["next", un(TNULL, ("rec", "Node"))]]},
    "Col": {"k": "enum", "syms": ["red", "green", "blue"]},
    "Fx": {"k": "fixed", "n": 3},
}
REC, PT, BIG, NODE, COL, FX = ("rec", "Rec"), ("rec", "Pt"), ("rec", "Big"), ("rec", "Node"), ("enum", "Col"), ("fixed", "Fx")
UNIONS = [un(TNULL, TINT), un(TINT, TNULL), un(TNULL, TSTR), un(TINT, TSTR), un(TSTR, TDOUBLE, TNULL), un(TNULL, REC), un(arr(TINT), TSTR), un(TNULL, TDOUBLE), un(TBOOL, TLONG), un(TNULL, arr(TSTR))]

def pattern_names():
    """Library functions the specification models (named in PFALib.tla / PFALang.tla)."""
    txt = open(os.path.join(SPEC, "PFALib.tla")).read() + open(os.path.join(SPEC, "PFALang.tla")).read()
    return set(n for n in re.findall(r'"([^"\s]+)"', txt) if n in SIGS)
MODELLED = pattern_names() | set(["&&", "||", "&&&", "|||"])
# functions comparing items structurally: tagged and untagged union values differ for them (a listed finding with its own probes)
STRUCTURAL = set(["a.contains", "a.count", "a.index", "a.rindex", "a.startswith", "a.endswith", "a.distinct", "a.seteq", "a.union", "a.intersection", "a.diff", "a.symdiff",
                  "a.subset", "a.disjoint", "a.remove", "a.replacefirst", "map.toset", "map.fromset", "map.in", "map.contains", "map.mode", "a.mode", "map.add", "a.groupby"])
ORDER_EXPOSING = set(["map.keys", "map.values", "map.split", "map.fromset"])
HEAVY = set(["a.permutations", "a.combinations", "a.slidingWindow", "s.repeat", "a.cycle", "**", "cast.fanoutBoolean", "cast.fanoutInt", "cast.fanoutLong", "cast.fanoutFloat", "cast.fanoutDouble"])
LT_LAST = set(["a.sortLT", "a.minLT", "a.maxLT", "a.minNLT", "a.maxNLT", "a.argminLT", "a.argmaxLT", "a.argminNLT", "a.argmaxNLT",
               "map.argmaxLT", "map.argminLT", "map.argmaxNLT", "map.argminNLT"])
# float functions whose interesting results are not exact
INEXACT = set(f for f in SIGS if f.startswith("m.") and f not in ("m.abs", "m.ceil", "m.floor", "m.rint", "m.round", "m.signum", "m.copysign"))

def constrain(case):
    """Parameters and return pattern with the oneOf constraint of a label repeated at each of its occurrences."""
    one = {}
    def scan(p):
        if isinstance(p, tuple):
            if len(p) == 3 and p[0] == "wild" and p[2]: one[p[1]] = p[2]
            for x in p: scan(x)
    def put(p):
        if not isinstance(p, tuple): return p
        if len(p) == 3 and p[0] == "wild": return ("wild", p[1], one.get(p[1], ()))
        return tuple(put(x) for x in p)
    ps, ret = tup(case["params"]), tup(case["ret"])
    scan(ps)
    return put(ps), put(ret)

def has_fcn(p):
    return p[0] == "fcn"

class Gen:
    def __init__(self, rng, **opt):
        self.r = rng
        self.opt = opt
        self.n = 0
        self.D = {}
        self.sc = []            # scopes: [names, above, within]
        self.fcns = {}          # name -> (params, ret)
        self.cells = {}
        self.pools = {}
        self.pure = 0           # >0: no side effects
        self.noerr = 0          # >0: nothing that can fail on purpose
        self.emit = None
        self.lib = opt.get("lib") or [f for f in sorted(MODELLED) if f not in HEAVY and f not in INEXACT and not f.startswith(("bytes.", "parse.", "fixed.", "cast.signed", "cast.unsigned"))]
        self.byret = None

    # ------------------------------------------------ types and values
    def use(self, t):
        """Record the declarations a type needs."""
        if t[0] in ("rec", "enum", "fixed"):
            if t[1] not in self.D:
                self.D[t[1]] = DECLS[t[1]]
                if t[0] == "rec":
                    for f in DECLS[t[1]]["fields"]:
                        self.use(f[1])
        elif t[0] in ("array", "map"):
            self.use(t[1])
        elif t[0] == "union":
            for x in t[1]: self.use(x)
        elif t[0] == "fcn":
            for x in t[1]: self.use(x)
            self.use(t[2])
        return t

    def scalar(self):
        return self.r.choice([TINT, TINT, TINT, TLONG, TDOUBLE, TDOUBLE, TSTR, TSTR, TBOOL])

    def type(self, d=2):
        x = self.r.random()
        if d <= 0 or x < 0.5: t = self.scalar()
        elif x < 0.68: t = arr(self.type(d - 1))
        elif x < 0.78: t = mp(self.type(d - 1))
        elif x < 0.88: t = self.r.choice([REC, REC, PT, BIG, NODE])
        elif x < 0.92: t = COL
        else: t = self.r.choice(UNIONS)
        return self.use(t)

    def int_(self):
        x = self.r.random()
        if x < 0.75: return self.r.randint(-3, 6)
        if x < 0.9: return self.r.randint(-50, 100)
        return self.r.choice([2147483647, -2147483647, 2147483646, 1000000, -1000000, 65536, 46341])

    def value(self, t, d=3, small=False):
        r = self.r
        k = t[0]
        if k == "null": return ["n"]
        if k == "boolean": return ["b", r.random() < 0.5]
        if k == "int": return ["i", r.randint(-3, 6) if small else self.int_()]
        if k == "long":
            if not small and r.random() < 0.1:
                return ["I", str(r.choice([2**31, -2**31, 2**53, 2**53 + 1, 2**63 - 1, -2**63, 2**62, -2**40, 123456789012345]))]
            return ["i", r.randint(-3, 6) if small else self.int_()]
        if k in ("double", "float"):
            x = r.random()
            if x < 0.4: return ["i", r.randint(-5, 9)]
            if x < 0.97 or small:
                den = r.choice([2, 4, 8]); n = r.randint(-40, 40)
                return norm(n, den)
            return ["F", r.choice(["nan", "inf", "-inf"])] if self.opt.get("special") else ["i", 0]
        if k == "string": return ["s", "".join(r.choice("abcAB -1.z") for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6])))]
        if k == "bytes": return ["y", [r.choice([0, 1, 65, 97, 127, 128, 195, 169, 200, 255]) for _ in range(r.choice([0, 1, 2, 3, 4]))]]
        if k == "fixed": return ["y", [r.randint(0, 255) for _ in range(DECLS[t[1]]["n"] if t[1] in DECLS else self.D[t[1]]["n"])]]
        if k == "enum": return ["s", r.choice(self.D[t[1]]["syms"] if t[1] in self.D else DECLS[t[1]]["syms"])]
        if k == "array":
            n = 0 if d <= 0 else r.choice([0, 1, 2, 2, 3, 3, 4])
            return ["a", [self.value(t[1], d - 1, small) for _ in range(n)]]
        if k == "map":
            n = 0 if d <= 0 else r.choice([0, 1, 2, 2, 3])
            return ["m", dict((key, self.value(t[1], d - 1, small)) for key in r.sample(["k", "a", "zz", "Q", "b"], n))]
        if k == "rec":
            return ["m", dict((f[0], self.value(f[1], d - 1, small)) for f in (self.D.get(t[1]) or DECLS[t[1]])["fields"])]
        if k == "union":
            if d <= 0 and TNULL in t[1]: return ["n"]
            return self.value(r.choice(t[1]), d, small)
        raise Exception(t)

    # ------------------------------------------------ scopes
    def fresh(self, p="v"):
        self.n += 1
        return "%s%d" % (p, self.n)
    def push(self, above, within): self.sc.append([{}, above, within])
    def pop(self): self.sc.pop()
    def declare(self, n, t): self.sc[-1][0][n] = t
    def visible(self):
        out = {}
        for s in self.sc: out.update(s[0])
        return out
    def writable(self):
        out = {}
        for names, above, within in reversed(self.sc):
            if within: break
            for n, t in names.items():
                out.setdefault(n, t)
            if above: break
        return out
    def can_let(self): return not self.sc[-1][2]
    def sealed(self, thunk):
        self.push(True, True)
        try: return thunk()
        finally: self.pop()
    def block_scope(self, thunk, above=False):
        self.push(above, False)
        try: return thunk()
        finally: self.pop()

    # ------------------------------------------------ expressions
    def lit(self, t, d=2):
        """A literal expression of exactly type t."""
        r = self.r
        k = t[0]
        if k == "null": return ["null"]
        v = self.value(t, d)
        if k == "boolean": return ["bool", v[1]]
        if k == "int" and v[0] == "i": return ["int", v[1]]
        if k == "long" and v[0] == "i": return ["long", v[1]]
        if k == "double" and v[0] in ("i", "q"): return ["dbl", v[1], v[2] if v[0] == "q" else 1]
        if k == "string": return ["str", v[1]]
        return ["lit", t, v]

    def refs(self, t):
        return [n for n, vt in self.visible().items() if accepts(t, vt)]

    def paths(self, t):
        """(expression builder) candidates reading t out of a visible structure."""
        out = []
        for n, vt in self.visible().items():
            for p, pt in self.walk(vt, 2):
                if accepts(t, pt): out.append((n, p))
        return out

    def walk(self, t, d):
        """Paths (lists of path item kinds) of length 1..d into a type."""
        if d == 0: return []
        out = []
        if t[0] == "array":
            nxt = [("idx", t[1])]
        elif t[0] == "map":
            nxt = [("key", t[1])]
        elif t[0] == "rec":
            nxt = [(("fld", f[0]), f[1]) for f in (self.D.get(t[1]) or DECLS[t[1]])["fields"]]
        else:
            return []
        for p, pt in nxt:
            out.append(([p], pt))
            for q, qt in self.walk(pt, d - 1):
                out.append(([p] + q, qt))
        return out

    def path_items(self, p, d):
        out = []
        for x in p:
            if x == "idx":
                if self.r.random() < 0.8: out.append(["int", self.r.choice([0, 0, 0, 1, 1, 2, -1, 5])])
                else: out.append(self.sealed(lambda: self.expr(self.r.choice([TINT, TLONG]), d - 1)))
            elif x == "key":
                if self.r.random() < 0.8: out.append(["str", self.r.choice(["k", "a", "zz", "Q", "b", "no"])])
                else: out.append(self.sealed(lambda: self.expr(TSTR, d - 1)))
            else:
                out.append(["str", x[1]])
        return out

    def expr(self, t, d):
        """An expression whose type t accepts."""
        r = self.r
        if t[0] == "union" and r.random() < 0.6:
            b = r.choice(t[1])
            if b == TNULL and r.random() < 0.5:
                b = r.choice(t[1])
            if not (b == TNULL and d > 2): return self.expr(b, d)
        if t[0] in ("long", "double") and r.random() < 0.15:
            return self.expr(r.choice([x for x in (TINT, TLONG, TDOUBLE) if RANK[x[0]] <= RANK[t[0]]]), d)
        if d <= 0:
            c = self.refs(t)
            if c and r.random() < 0.75: return ["ref", r.choice(c)]
            return self.lit(t)
        for _ in range(8):
            e = self.try_form(t, d)
            if e is not None: return e
        c = self.refs(t)
        if c and r.random() < 0.75: return ["ref", r.choice(c)]
        return self.lit(t)

    FORMS = [("ref", 14), ("lit", 5), ("call", 26), ("attr", 14), ("ifelse", 8), ("do", 7), ("condelse", 3), ("new", 8), ("cast", 5), ("ifnn", 5),
             ("try", 4), ("cell", 6), ("pool", 4), ("attrto", 5), ("ucall", 6), ("upcast", 2), ("cellto", 2), ("poolto", 1), ("callu", 1)]

    def try_form(self, t, d):
        r = self.r
        forms = self.opt.get("forms", self.FORMS)
        tot = sum(w for _, w in forms)
        x = r.random() * tot
        for f, w in forms:
            x -= w
            if x < 0: break
        return getattr(self, "x_" + f)(t, d)

    def x_ref(self, t, d):
        c = self.refs(t)
        return ["ref", self.r.choice(c)] if c else None
    def x_lit(self, t, d): return self.lit(t)

    def x_attr(self, t, d):
        c = self.paths(t)
        if not c or self.noerr: return None
        n, p = self.r.choice(c)
        return ["attr", ["ref", n], self.path_items(p, d)]

    def x_attrto(self, t, d):
        if t[0] not in ("array", "map", "rec") or self.noerr: return None
        c = self.walk(t, 2)
        if not c: return None
        p, pt = self.r.choice(c)
        obj = self.sealed(lambda: self.expr(t, d - 1))
        if not self.exact(obj, t): return None
        items = self.path_items(p, d)
        return ["attrto", obj, items, self.upd(pt, d)]

    def exact(self, e, t):
        """obj of an attr must be a structure, not a union; types are invariant enough here."""
        return True

    def upd(self, pt, d):
        if self.r.random() < 0.5: return self.expr(pt, d - 1)
        f = self.ufn([pt], pt)
        if f and self.r.random() < 0.4: return f
        return self.fdef([pt], pt, d - 1, update=True)

    def ufn(self, params, ret):
        c = [n for n, (ps, rt) in self.fcns.items() if len(ps) == len(params) and all(accepts(a, b) for a, b in zip(ps, params)) and accepts(ret, rt) and not self.fx.get(n, False)]
        return ["fref", "u." + self.r.choice(c)] if c else None

    fx = {}

    def fdef(self, params, ret, d, pure=False, update=False):
        names = [self.fresh("p") for _ in params]
        self.push(True, False)
        for n, t in zip(names, params):
            self.declare(n, t)
        if pure or update: self.pure += 1
        if pure: self.noerr += 1
        try:
            body = self.block(ret, d)
        finally:
            if pure or update: self.pure -= 1
            if pure: self.noerr -= 1
            self.pop()
        return ["fdef", [[n, t] for n, t in zip(names, params)], ret, body]

    def ltdef(self, t):
        a, b = self.fresh("p"), self.fresh("p")
        x, y = ["ref", a], ["ref", b]
        op = self.r.choice(["<", ">"])
        if not self.orderable(t):
            x, y = ["int", 0], ["int", 0]
        elif t[0] == "array" and self.r.random() < 0.5:
            x, y = ["call", "a.len", [x]], ["call", "a.len", [y]]
        elif t[0] == "string" and self.r.random() < 0.4:
            x, y = ["call", "s.len", [x]], ["call", "s.len", [y]]
        elif t == REC:
            f = self.r.choice(["a", "b"])
            x, y = ["attr", x, [["str", f]]], ["attr", y, [["str", f]]]
        elif t[0] in ("int", "long") and self.r.random() < 0.3:
            x, y = ["call", "%", [x, ["int", 3]]], ["call", "%", [y, ["int", 3]]]
        return ["fdef", [[a, t], [b, t]], TBOOL, [["call", op, [x, y]]]]

    def orderable(self, t):
        if t[0] == "map": return False
        if t[0] == "array": return self.orderable(t[1])
        if t[0] == "union": return all(self.orderable(x) for x in t[1])
        if t[0] == "rec": return all(self.orderable(f[1]) for f in (self.D.get(t[1]) or DECLS[t[1]])["fields"] if f[1] != un(TNULL, NODE))
        return t[0] != "fcn"

    # -------- library calls
    def index(self):
        if self.byret is None:
            self.byret = []
            for f in self.lib:
                for case in SIGS.get(f, []):
                    if case["life"][2] != -1: continue
                    self.byret.append((f,) + constrain(case))
        return self.byret

    def match(self, p, t, b):
        """Bind the wildcards of pattern p so that it produces type t (exactly)."""
        k = p[0]
        if k == "wild":
            if p[1] in b: return b[p[1]] == t
            if p[2] and t not in p[2]: return False
            b[p[1]] = t
            return True
        if k == "wenum":
            if t[0] != "enum": return False
            b[p[1]] = t
            return True
        if k in ("wrec", "wfixed", "efields"): return False
        if k in ("array", "map"): return t[0] == k and self.match(p[1], t[1], b)
        if k == "union": return False
        return p == t

    def inst(self, p, b):
        k = p[0]
        if k == "wild":
            if p[1] not in b:
                b[p[1]] = self.r.choice(p[2]) if p[2] else self.type(1)
            return b[p[1]]
        if k == "wenum":
            b.setdefault(p[1], self.use(COL))
            return b[p[1]]
        if k in ("array", "map"): return (k, self.inst(p[1], b))
        if k == "union": return ("union", tuple(self.inst(x, b) for x in p[1]))
        if k == "fcn": return ("fcn", tuple(self.inst(x, b) for x in p[1]), self.inst(p[2], b))
        if k in ("wrec", "wfixed", "efields"): return None
        return p

    def hasunion(self, t):
        if t[0] == "union": return True
        if t[0] in ("array", "map"): return self.hasunion(t[1])
        if t[0] == "rec": return t == NODE or any(self.hasunion(f[1]) for f in (self.D.get(t[1]) or DECLS[t[1]])["fields"])
        return False
    def okunion(self, t):
        if t[0] == "union":
            kinds = [x[0] for x in t[1]]
            return len(set(t[1])) == len(t[1]) and not any(x[0] in ("union", "fcn") for x in t[1]) and sum(x in NUMS for x in kinds) <= 1 and kinds.count("map") + kinds.count("rec") <= 1 and kinds.count("array") <= 1 and not ("string" in kinds and "enum" in kinds) and kinds.count("enum") <= 1
        if t[0] in ("array", "map"): return self.okunion(t[1])
        if t[0] == "fcn": return all(self.okunion(x) for x in t[1]) and self.okunion(t[2])
        return True

    def x_call(self, t, d):
        r = self.r
        if t[0] == "null" and self.emit is not None and not self.pure:
            return ["call", "emit", [self.sealed(lambda: self.expr(self.emit, d - 1))]]
        for _ in range(40):
            f, ps, ret = r.choice(self.index())
            b = {}
            if not self.match(ret, t, b): continue
            return self.call(f, ps, b, d)
        return None

    def call(self, f, ps, b, d):
        r = self.r
        pts = [self.inst(p, b) for p in ps]
        if any(p is None for p in pts): return None
        for p in pts: self.use(p)
        if f in STRUCTURAL and any(self.hasunion(p) for p in pts): return None
        if any(not self.okunion(p) for p in pts): return None
        if f in ("cmp", "==", "!=", "<", "<=", ">", ">=", "max", "min", "a.sort", "a.max", "a.min", "a.maxN", "a.minN", "a.argmax", "a.argmin", "a.argmaxN", "a.argminN",
                 "a.median", "a.mode", "a.ntile", "map.argmax", "map.argmin", "map.argmaxN", "map.argminN") and not self.orderable(pts[0]):
            return None
        def one(i):
            p = pts[i]
            if p[0] == "fcn":
                if f in LT_LAST: return self.ltdef(p[1][0])
                u = self.ufn(p[1], p[2])
                if u and r.random() < 0.3: return u
                if f.startswith("map."):
                    self.pure += 1
                    try: return self.fdef(p[1], p[2], d - 1)
                    finally: self.pure -= 1
                return self.fdef(p[1], p[2], d - 1)
            return self.sealed(lambda: self.expr(p, d - 1))
        args = [one(i) for i in range(len(pts))]
        # generic parameters take the type of the argument: keep literals of structured type exact
        e = ["call", f, args]
        if f in ORDER_EXPOSING:
            if f == "map.keys" : return ["call", "a.sort", [e]]
            return ["call", "a.len", [e]] if False else None
        return e

    def x_ucall(self, t, d):
        c = [n for n, (ps, rt) in self.fcns.items() if accepts(t, rt) and not (self.pure and self.fx.get(n))]
        if not c: return None
        n = self.r.choice(c)
        return ["call", "u." + n, [self.sealed(lambda: self.expr(p, d - 1)) for p in self.fcns[n][0]]]

    def x_callu(self, t, d):
        g = self.opt.get("callu")
        if not g or g["ret"] != t: return None
        name = self.sealed(lambda: self.expr(g["enum"], d - 1))
        return ["callu", name, [self.sealed(lambda: self.expr(p, d - 1)) for p in g["params"]]]

    # -------- control forms
    def block(self, t, d):
        """Expressions of a block ending in type t; the scope is already pushed."""
        n = self.r.choice([0, 0, 0, 1, 1, 2]) if d > 0 else 0
        out = [self.stmt(d - 1) for _ in range(n)]
        out = [x for x in out if x is not None]
        return out + [self.expr(t, d - 1)]
    def blk(self, t, d): return self.block_scope(lambda: self.block(t, d))

    def pred(self, d): return self.sealed(lambda: self.expr(TBOOL, d - 1))
    def x_ifelse(self, t, d): return ["ifelse", self.pred(d), self.alt(t, d), self.blk(t, d)]
    def alt(self, t, d):
        if not self.noerr and self.r.random() < 0.06:
            return [self.error()]
        return self.blk(t, d)
    def error(self):
        return ["error", self.r.choice(["bad", "worse", "bad", "worse", "bad idea", "Bad", "too bad", ""]), self.r.choice([["n"], ["c", -1], ["c", -7]])]
    def x_condelse(self, t, d): return ["condelse", [[self.pred(d), self.alt(t, d)] for _ in range(self.r.randint(1, 3))], self.blk(t, d)]
    def x_do(self, t, d): return ["do", self.blk(t, d)]
    def x_upcast(self, t, d): return ["upcast", self.sealed(lambda: self.expr(t, d - 1)), t]
    def x_new(self, t, d):
        if t[0] == "rec":
            if t[1] == "Node" and d <= 1: return None
            return ["newrec", t, [[f[0], self.sealed(lambda: self.expr(f[1], d - 1))] for f in self.D[t[1]]["fields"]]]
        if t[0] == "map":
            return ["newmap", t, [[k, self.sealed(lambda: self.expr(t[1], d - 1))] for k in self.r.sample(["k", "a", "zz", "Q"], self.r.randint(0, 3))]]
        if t[0] == "array":
            return ["newarr", t, [self.sealed(lambda: self.expr(t[1], d - 1)) for _ in range(self.r.randint(0, 3))]]
        return None

    def uvars(self, nullable=False):
        return [(n, vt) for n, vt in self.visible().items() if vt[0] == "union" and (not nullable or TNULL in vt[1])]

    def x_cast(self, t, d):
        r = self.r
        c = self.uvars()
        if c and r.random() < 0.7:
            n, ut = r.choice(c)
            e = ["ref", n]
        else:
            ut = self.use(r.choice(UNIONS))
            e = ["upcast", self.sealed(lambda: self.expr(ut, d - 1)), ut]
        bs = list(ut[1]); r.shuffle(bs)
        cases = []
        for b in bs:
            n = self.fresh()
            self.push(False, False)
            self.declare(n, b)
            body = self.block(t, d - 1)
            self.pop()
            cases.append([b, n, body])
        return ["cast", e, cases, False]

    def x_ifnn(self, t, d):
        r = self.r
        ps = []
        for _ in range(r.choice([1, 1, 2])):
            c = self.uvars(True)
            if c and r.random() < 0.7:
                n, ut = r.choice(c)
                e = ["ref", n]
            else:
                ut = self.use(r.choice([u for u in UNIONS if TNULL in u[1]]))
                e = ["upcast", self.sealed(lambda: self.expr(ut, d - 1)), ut]
            rest = tuple(x for x in ut[1] if x != TNULL)
            ps.append((self.fresh(), e, rest[0] if len(rest) == 1 else ("union", rest)))
        self.push(False, False)
        for n, e, rt in ps: self.declare(n, rt)
        then = self.block_scope(lambda: self.block(t, d - 1))
        self.pop()
        return ["ifnnelse", [[n, e] for n, e, rt in ps], then, self.blk(t, d)]

    def x_try(self, t, d):
        if t[0] != "union" or TNULL not in t[1]: return None
        rest = [x for x in t[1] if x != TNULL]
        inner = rest[0] if len(rest) == 1 else t
        body = self.sealed(lambda: [self.expr(inner, d - 1)])
        return ["try", body, self.filter()]
    def filter(self):
        r = self.r
        if r.random() < 0.6: return ["all"]
        if r.random() < 0.25:   # near misses: parts, extensions and other spellings of messages, neighbours of codes
            return ["some", [r.choice([["m", "array index"], ["m", "index not found"], ["m", "Array index not found"], ["m", "ba"], ["m", "bad "], ["m", "BAD"], ["m", "key not found"], ["m", "array"], ["m", ""],
                                       ["m", "int overflow "], ["m", "overflow"], ["c", 18001], ["c", 2001], ["c", 1], ["c", 7], ["m", "-7"], ["m", "18000"], ["m", "2000"], ["c", 0], ["m", "worse"], ["m", "bad"]]) for _ in range(r.randint(1, 3))]]
        return ["some", [r.choice([["m", "bad"], ["m", "worse"], ["c", -7], ["c", -1], ["m", "array index not found"], ["m", "map key not found"], ["c", 2000], ["c", 18000], ["m", "empty array"], ["c", 15020], ["m", "int overflow"]]) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 3]))]]

    def x_cell(self, t, d):
        c = []
        for n, ct in self.cells.items():
            if accepts(t, ct): c.append((n, []))
            if not self.noerr:
                for p, pt in self.walk(ct, 2):
                    if accepts(t, pt): c.append((n, p))
        if not c: return None
        n, p = self.r.choice(c)
        return ["cell", n, self.path_items(p, d)]
    def x_pool(self, t, d):
        if self.noerr: return None
        c = []
        for n, ct in self.pools.items():
            if accepts(t, ct): c.append((n, ["key"]))
            for p, pt in self.walk(ct, 2):
                if accepts(t, pt): c.append((n, ["key"] + p))
        if not c: return None
        n, p = self.r.choice(c)
        self.pure += 1
        try: return ["pool", n, self.path_items(p, d)]
        finally: self.pure -= 1
    def x_cellto(self, t, d):
        if self.pure: return None
        c = [n for n, ct in self.cells.items() if accepts(t, ct)]
        if not c: return None
        return self.cellto(self.r.choice(c), d)
    def cellto(self, n, d):
        opts = [([], self.cells[n])] + ([] if self.noerr else self.walk(self.cells[n], 2))
        p, pt = self.r.choice(opts)
        self.pure += 1
        try: items = self.path_items(p, d)
        finally: self.pure -= 1
        return ["cellto", n, items, self.upd(pt, d)]
    def x_poolto(self, t, d):
        if self.pure: return None
        c = [n for n, ct in self.pools.items() if accepts(t, ct)]
        if not c: return None
        return self.poolto(self.r.choice(c), d)
    def poolto(self, n, d):
        opts = [([], self.pools[n])] + self.walk(self.pools[n], 1)
        p, pt = self.r.choice(opts)
        self.pure += 1
        try: items = self.path_items(["key"] + p, d)
        finally: self.pure -= 1
        return ["poolto", n, items, self.upd(pt, d), self.expr(self.pools[n], d - 1)]

    # -------- statements
    STMTS = [("let", 24), ("set", 16), ("if", 8), ("cond", 4), ("while", 5), ("until", 4), ("for", 6), ("foreach", 8), ("forkv", 4), ("cellto", 9), ("poolto", 7), ("pooldel", 3),
             ("log", 5), ("expr", 5), ("casts", 3), ("ifnns", 3), ("emit", 6), ("errors", 2), ("doc", 1)]
    NESTED = ("if", "cond", "while", "until", "for", "foreach", "forkv", "casts", "ifnns")
    def stmt(self, d):
        r = self.r
        for _ in range(8):
            ss = self.opt.get("stmts", self.STMTS)
            if d <= 0: ss = [x for x in ss if x[0] not in self.NESTED]
            tot = sum(w for _, w in ss)
            x = r.random() * tot
            for f, w in ss:
                x -= w
                if x < 0: break
            e = getattr(self, "s_" + f)(max(d, 1))
            if e is not None: return e
        return None
    def s_let(self, d):
        if not self.can_let(): return None
        ns = []
        for _ in range(self.r.choice([1, 1, 1, 2])):
            t = self.type()
            e = self.sealed(lambda: self.expr(t, d))
            ns.append((self.fresh(), e, t))
        # the declared type of a let is the type of its expression, which may be narrower than t: upcast to be sure
        out = ["let", [[n, ["upcast", e, t]] for n, e, t in ns]]
        for n, e, t in ns: self.declare(n, t)
        return out
    def s_set(self, d):
        w = self.writable()
        if not w: return None
        ns = self.r.sample(sorted(w), min(len(w), self.r.choice([1, 1, 1, 2])))
        return ["set", [[n, self.sealed(lambda: self.expr(w[n], d))] for n in ns]]
    def stmts(self, d, n=2):
        out = [self.stmt(d) for _ in range(self.r.randint(1, n))]
        return [x for x in out if x is not None] or [self.expr(self.scalar(), 0)]
    def s_if(self, d): return ["if", self.pred(d), self.block_scope(lambda: self.stmts(d - 1))]
    def s_cond(self, d): return ["cond", [[self.pred(d), self.block_scope(lambda: self.stmts(d - 1))] for _ in range(self.r.randint(1, 2))]]
    def s_for(self, d):
        i = self.fresh("i")
        n = self.r.randint(0, 4)
        self.push(False, False)
        self.declare(i, TINT)
        body = self.block_scope(lambda: self.stmts(d - 1))
        self.pop()
        body = [b for b in body if not sets(b, i)] or [["null"]]
        return ["for", [[i, ["int", 0]]], ["call", "<", [["ref", i], ["int", n]]], [[i, ["call", "+", [["ref", i], ["int", 1]]]]], body]
    def s_while(self, d):
        if not self.can_let(): return None
        i = self.fresh("i")
        n = self.r.randint(0, 3)
        self.push(False, False); self.declare(i, TINT)
        body = self.block_scope(lambda: self.stmts(d - 1))
        self.pop()
        body = [b for b in body if not sets(b, i)]
        inc = ["set", [[i, ["call", "+", [["ref", i], ["int", 1]]]]]]
        return ["do", [["let", [[i, ["int", 0]]]], ["while", ["call", "<", [["ref", i], ["int", n]]], body + [inc]]]]
    def s_until(self, d):
        i = self.fresh("i")
        n = self.r.randint(0, 3)
        self.push(False, False); self.declare(i, TINT)
        body = self.block_scope(lambda: self.stmts(d - 1))
        self.pop()
        body = [b for b in body if not sets(b, i)]
        inc = ["set", [[i, ["call", "+", [["ref", i], ["int", 1]]]]]]
        return ["do", [["let", [[i, ["int", 0]]]], ["until", body + [inc], ["call", ">=", [["ref", i], ["int", n]]]]]]
    def s_foreach(self, d):
        t = self.type(1)
        seq = self.r.random() < 0.5
        self.push(not seq, False)
        x = self.sealed(lambda: self.expr(arr(t), d - 1))
        n = self.fresh()
        self.declare(n, t)
        body = self.block_scope(lambda: self.stmts(d - 1))
        self.pop()
        return ["foreach", n, ["upcast", x, arr(t)], body, seq]
    def s_forkv(self, d):
        t = self.type(1)
        self.push(False, False)
        x = self.sealed(lambda: self.expr(mp(t), d - 1))
        k, v = self.fresh(), self.fresh()
        self.declare(k, TSTR); self.declare(v, t)
        self.pure += 0
        body = self.block_scope(lambda: self.stmts(d - 1))
        self.pop()
        return ["forkv", k, v, ["upcast", x, mp(t)], body]
    def s_cellto(self, d):
        if self.pure or not self.cells: return None
        return self.cellto(self.r.choice(sorted(self.cells)), d)
    def s_poolto(self, d):
        if self.pure or not self.pools: return None
        return self.poolto(self.r.choice(sorted(self.pools)), d)
    def s_pooldel(self, d):
        if self.pure or not self.pools: return None
        return ["pooldel", self.r.choice(sorted(self.pools)), ["str", self.r.choice(["k", "a", "zz"])]]
    def s_log(self, d):
        if self.pure: return None
        return ["log", [self.sealed(lambda: self.expr(self.scalar(), d - 1)) for _ in range(self.r.randint(1, 2))], self.r.choice(["", "ns"])]
    def s_emit(self, d):
        if self.emit is None or self.pure: return None
        return ["call", "emit", [self.sealed(lambda: self.expr(self.emit, d - 1))]]
    def s_expr(self, d): return self.expr(self.type(), d)
    def s_errors(self, d):
        if self.noerr: return None
        return ["if", self.pred(d), [self.error()]]
    def s_doc(self, d): return ["doc"]
    def s_casts(self, d):
        c = self.uvars()
        if not c: return None
        n, ut = self.r.choice(c)
        cases = []
        for b in self.r.sample(list(ut[1]), self.r.randint(1, len(ut[1]))):
            v = self.fresh()
            self.push(False, False); self.declare(v, b)
            body = self.stmts(d - 1)
            self.pop()
            cases.append([b, v, body])
        return ["cast", ["ref", n], cases, True]
    def s_ifnns(self, d):
        c = self.uvars(True)
        if not c: return None
        n, ut = self.r.choice(c)
        rest = tuple(x for x in ut[1] if x != TNULL)
        v = self.fresh()
        self.push(False, False); self.declare(v, rest[0] if len(rest) == 1 else ("union", rest))
        body = self.block_scope(lambda: self.stmts(d - 1))
        self.pop()
        return ["ifnn", [[v, ["ref", n]]], body]

    # ------------------------------------------------ whole programs
    def program(self, d=3, method=None, nsteps=4, ncells=(0, 1, 2), npools=(0, 0, 1), nfcns=(0, 1, 2), intype=None, outtype=None, beginend=True, nstm=(0, 1, 2, 3)):
        r = self.r
        method = method or r.choice(["map", "map", "map", "emit", "fold"])
        it = self.use(intype or self.type())
        ot = self.use(outtype or self.type())
        case = {"method": method, "in": it, "out": ot, "cells": {}, "pools": {}, "fcns": [], "zero": ["n"], "begin": [], "end": [], "merge": []}
        for i in range(r.choice(ncells)):
            t = self.type()
            case["cells"]["c%d" % i] = {"t": t, "init": self.value(t), "rb": r.random() < 0.5}
            self.cells["c%d" % i] = t
        for i in range(r.choice(npools)):
            t = self.type(1)
            case["pools"]["q%d" % i] = {"t": t, "init": dict((k, self.value(t)) for k in r.sample(["k", "a", "zz"], r.randint(0, 2))), "rb": r.random() < 0.5}
            self.pools["q%d" % i] = t
        if method == "emit": self.emit = ot
        self.fx = {}
        for i in range(r.choice(nfcns)):
            ps = [self.type(1) for _ in range(r.choice([0, 1, 1, 2]))]
            rt = self.type(1)
            effects = r.random() < 0.4
            if not effects: self.pure += 1
            f = self.in_scopes([{}], lambda: self.fdef(ps, rt, d - 1))
            if not effects: self.pure -= 1
            n = "f%d" % i
            case["fcns"].append([n, f[1], f[2], f[3]])
            self.fcns[n] = (ps, rt)
            self.fx[n] = effects
        base = {"name": TSTR, "instance": TINT, "metadata": mp(TSTR)}
        counts = dict(base, actionsStarted=TLONG, actionsFinished=TLONG)
        tally = {"tally": ot} if method == "fold" else {}
        def body(last):
            out = []
            for _ in range(r.choice(nstm)):
                s = self.stmt(d - 1)
                if s is not None: out.append(s)
            if last is not None: out.append(self.expr(last, d))
            return out
        if beginend and r.random() < 0.3: case["begin"] = self.in_scopes([{}, base], lambda: body(None))
        if beginend and r.random() < 0.3: case["end"] = self.in_scopes([tally, counts], lambda: body(None))
        acts = dict(counts, input=it)
        case["action"] = self.in_scopes([tally, acts], lambda: body(ot if method != "emit" else None)) or [["null"]]
        if method == "fold":
            case["zero"] = self.value(ot)
            case["merge"] = [["ref", "tallyOne"]]
        if r.random() < 0.2: case["version"] = r.randint(0, 5)
        if r.random() < 0.2: case["metadata"] = {"who": "me"}
        case["D"] = self.D
        steps = []
        if beginend: steps.append(["begin"])
        steps += [["action", self.value(it)] for _ in range(nsteps)]
        if beginend: steps.append(["end"])
        case["steps"] = steps
        return case

    def in_scopes(self, names, thunk):
        old = self.sc
        self.sc = [[dict(n), True, False] for n in names] + [[{}, True, False]]
        try: return thunk()
        finally: self.sc = old

def norm(n, d):
    while d > 1 and n % 2 == 0:
        n //= 2; d //= 2
    return ["i", n] if d == 1 else ["q", n, d]

def sets(e, name):
    """Does expression e assign name anywhere?"""
    if isinstance(e, (list, tuple)):
        if len(e) == 2 and e[0] == "set" and any(n == name for n, _ in e[1]): return True
        return any(sets(x, name) for x in e)
    return False

# ---------------------------------------------------------------- mutations (for rejection tests)
def subexprs(e, path=(), out=None):
    """Positions of expression nodes inside a body (lists starting with a string)."""
    if out is None: out = []
    if isinstance(e, list):
        if e and isinstance(e[0], str) and e[0] in EXPRS: out.append(path)
        for i, x in enumerate(e):
            subexprs(x, path + (i,), out)
    return out
EXPRS = set("null bool int long dbl flt str lit ref call callu newrec newmap newarr do let set attr attrto cell cellto pool poolto pooldel if ifelse cond condelse while until for foreach forkv cast upcast ifnn ifnnelse doc error try log".split())
def at(e, path):
    for i in path: e = e[i]
    return e
def replaced(e, path, x):
    if not path: return x
    e = list(e)
    e[path[0]] = replaced(e[path[0]], path[1:], x)
    return e
def listify(e):
    return [listify(x) for x in e] if isinstance(e, (list, tuple)) else e

def mutate(case, rng, g):
    """A random change that may make the program ill-formed."""
    case = dict(case)
    part = rng.choice([p for p in ("action", "action", "action", "begin", "end") if case.get(p)])
    body = list(case[part])
    ps = subexprs(body)
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.random()
        p = rng.choice(ps)
        e = at(body, p)
        if k < 0.3:   # replace by an expression of some type
            t = g.type(1)
            body = replaced(body, p, g.in_scopes([{}], lambda: g.expr(t, 1)))
        elif k < 0.5:
            refs = [q for q in ps if at(body, q)[0] == "ref"]
            names = sorted(set(at(body, q)[1] for q in refs)) + ["input", "nosuch", "tally", "metadata"]
            if refs: body = replaced(body, rng.choice(refs), ["ref", rng.choice(names)])
        elif k < 0.65:
            lets = [q for q in ps if at(body, q)[0] in ("let", "set")]
            if lets:
                q = rng.choice(lets)
                l = at(body, q)
                kk = rng.random()
                if kk < 0.4: body = replaced(body, q, [("set" if l[0] == "let" else "let"), l[1]])
                else: body = replaced(body, q, [l[0], [[rng.choice(["input", "v1", "v2", "i1", "name"]), l[1][0][1]]]])
        elif k < 0.75:
            calls = [q for q in ps if at(body, q)[0] == "call"]
            if calls:
                q = rng.choice(calls)
                l = at(body, q)
                kk = rng.random()
                if kk < 0.4: body = replaced(body, q, ["call", rng.choice(["+", "a.len", "s.len", "==", "u.f0", "u.nosuch", "no.such", "a.map"]), l[2]])
                elif l[2]: body = replaced(body, q, ["call", l[1], l[2][:-1] if kk < 0.7 else l[2] + [l[2][0]]])
        elif k < 0.9:   # move a subexpression somewhere else
            q = rng.choice(ps)
            if q[:len(p)] != p and p[:len(q)] != q: body = replaced(body, p, at(body, q))
        elif case["method"] != "fold":
            case["out"] = g.type()
        ps = subexprs(body)
        if not ps: break
    case[part] = body
    case["D"] = g.D
    return case
