"""Generation of calls of single library functions: every function and signature in turn, arguments from value families chosen to reach the
boundaries of each family (32/64-bit limits, empty and duplicate items, out-of-range indices, substrings of each other, ...)."""
import gen
from gen import *

INTS = [0, 0, 1, -1, 2, -2, 3, -3, 5, 7, -7, 10, 16, 100, 2**31 - 1, 2**31 - 2, -2**31, -2**31 + 1, 46340, 46341, -46341, 65535, 65536, -65536, 2**30, -2**30, 2**24 + 1, 1000000007, 123456789]
LONGS = INTS + [2**31, -2**31 - 1, 2**32, 2**32 + 1, 3037000499, 3037000500, -3037000500, 2**53, 2**53 + 1, -2**53 - 1, 2**62, -2**62, 2**63 - 1, 2**63 - 2, -2**63, -2**63 + 1, 4294967297, 2147483659, 10**18]
DBLS = [["i", 0], ["i", 1], ["i", -1], ["i", 2], ["i", -3], ["i", 10], ["q", 1, 2], ["q", -1, 2], ["q", 3, 2], ["q", 5, 2], ["q", -5, 2], ["q", -3, 2], ["q", 1, 4], ["q", 7, 8], ["q", -9, 4], ["i", 1024], ["i", 1000000],
        ["F", "nan"], ["F", "inf"], ["F", "-inf"]]

def big(n): return ["i", n] if abs(n) < 2**31 else ["I", str(n)]

class Values:
    """Argument values for one document."""
    def __init__(self, g, fam, f):
        self.g, self.r, self.fam, self.f = g, g.r, fam, f
        self.keys = ["a", "b", "c", "d"]
    def any(self, t, d=3):
        r, k = self.r, t[0]
        if self.fam == "core":
            if k == "int": return big(r.choice(INTS)) if r.random() < 0.8 else ["i", r.randint(-40, 40)]
            if k == "long": return big(r.choice(LONGS)) if r.random() < 0.8 else ["i", r.randint(-40, 40)]
            if k in ("double", "float"): return r.choice(DBLS)
        if self.fam == "cast":
            if k == "int": return big(r.choice(INTS))
            if k == "long": return big(r.choice(LONGS))
            if k in ("double", "float"): return r.choice(DBLS + [["I", str(x)] for x in (2**31, -2**31 - 1, 2**32, 2**53, 2**40)] + [["i", 2**31 - 1], ["q", 2147483647 - 2, 2] if False else ["q", 2**30 + 1, 2], ["q", -(2**30) - 1, 2], ["q", 4294967 * 2 + 1, 2]])
        if k == "string":
            if self.fam == "str":
                x = r.random()
                if self.f.startswith("bytes.") and x < 0.5:
                    if self.f == "bytes.fromBase64":
                        import base64
                        s = base64.b64encode(bytes(r.randrange(256) for _ in range(r.randint(0, 6)))).decode()
                        return ["s", s if x < 0.3 else s.rstrip("=") if x < 0.4 else s + "=" if x < 0.45 else s[:-1] + "*"]
                    cs = [r.choice([0, 9, 65, 97, 126, 127, 128, 233, 255, 256, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x1f600, 0x10ffff]) for _ in range(r.randint(0, 4))]
                    return ["s", "".join(map(chr, cs))] if all(32 <= c < 127 for c in cs) else ["u", cs]
                if x < 0.12: return ["s", ""]
                if x < 0.8: return ["s", "".join(r.choice("aab") for _ in range(r.randint(1, 7)))]
                if x < 0.9: return ["s", "".join(r.choice(" ab") for _ in range(r.randint(1, 8)))]
                return ["s", "".join(r.choice("aBcZ -.9z{@") for _ in range(r.randint(1, 8)))]
            if self.fam == "order": return ["s", "".join(r.choice("aAbz0 ") for _ in range(r.choice([0, 1, 1, 2, 2, 3])))]
            if self.fam == "map": return ["s", r.choice(self.keys + ["zz"])]
            if self.fam == "array": return ["s", r.choice(["", "a", "b", "ab", "B"])]
        if k in ("int", "long") and self.fam in ("array", "map"): return ["i", r.choice([-1, 0, 1, 2, 3, 2, 1])]
        if k in ("int", "long") and self.fam == "order": return r.choice([["i", 0], ["i", 1], ["i", -1], ["i", 2], ["i", 2**31 - 1]] + ([] if k == "int" else [["I", str(2**53)], ["I", str(2**53 + 1)], ["I", str(2**63 - 1)], ["I", str(-2**63)]]))
        if k in ("float", "double"):
            if self.fam == "order": return r.choice([["i", 0], ["i", 1], ["q", 1, 2], ["i", -1], ["q", -1, 2], ["F", "nan"], ["F", "inf"], ["F", "-inf"], ["q", 3, 2]])
            return r.choice([["i", 0], ["i", 1], ["q", 1, 2], ["i", 2], ["q", -3, 2], ["i", 3]])
        if k == "array":
            n = 0 if d <= 0 else r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
            return ["a", [self.any(t[1], d - 1) for _ in range(n)]]
        if k == "map":
            ks = r.sample(self.keys, r.choice([0, 1, 2, 2, 3, 4]))
            return ["m", dict((x, self.any(t[1], d - 1)) for x in ks)]
        if k == "rec": return ["m", dict((f[0], self.any(f[1], d - 1)) for f in (self.g.D.get(t[1]) or DECLS[t[1]])["fields"])]
        if k == "union":
            if d <= 0 and TNULL in t[1]: return ["n"]
            return self.any(r.choice(t[1]), d)
        if k == "bytes" and self.fam == "str":
            x = r.random()
            if x < 0.3: return ["y", [r.choice([97, 97, 98]) for _ in range(r.randint(0, 6))]]
            if x < 0.6: return ["y", sum((r.choice([[97], [195, 169], [226, 130, 172], [240, 159, 152, 128], [32]]) for _ in range(r.randint(0, 3))), [])]
            return ["y", [r.choice([0, 97, 127, 128, 191, 194, 195, 224, 237, 160, 240, 244, 143, 144, 245, 255]) for _ in range(r.randint(0, 4))]]
        return self.g.value(t, d)

    def near(self, t, v):
        """A value related to v: a part of it, an extension, a permutation, the same."""
        r, k = self.r, t[0]
        x = r.random()
        if x < 0.15: return v
        if k == "array":
            q = list(v[1])
            if x < 0.35: a, b = sorted((r.randint(0, len(q)), r.randint(0, len(q)))); return ["a", q[a:b]]
            if x < 0.5: r.shuffle(q); return ["a", q]
            if x < 0.6: return ["a", q[:r.randint(0, len(q))]]
            if x < 0.7: return ["a", q[r.randint(0, len(q)):]]
            if x < 0.8 and q: q[r.randrange(len(q))] = self.any(t[1], 1); return ["a", q]
            if x < 0.88: return ["a", q + [self.any(t[1], 1)]]
        if k == "map":
            m = dict(v[1])
            if x < 0.3 and m: m.pop(r.choice(sorted(m))); return ["m", m]
            if x < 0.5 and m: m[r.choice(sorted(m))] = self.any(t[1], 1); return ["m", m]
            if x < 0.65: ks = list(m); r.shuffle(ks); return ["m", dict((y, m[y]) for y in ks)]
            if x < 0.75: return ["m", dict((y, self.any(t[1], 1)) for y in m)]
        if k == "string" and v[0] == "s":
            s = v[1]
            a, b = sorted((r.randint(0, len(s)), r.randint(0, len(s))))
            if x < 0.5: return ["s", s[a:b]]
            if x < 0.6: return ["s", s[:a]]
            if x < 0.7: return ["s", s[a:]]
            if x < 0.8: return ["s", s + r.choice("ab")]
        if k == "bytes" and v[0] == "y":
            s = v[1]; a, b = sorted((r.randint(0, len(s)), r.randint(0, len(s))))
            if x < 0.7: return ["y", s[a:b]]
        if k == "rec":
            m = dict(v[1])
            fs = (self.g.D.get(t[1]) or DECLS[t[1]])["fields"]
            f = r.choice(fs); m[f[0]] = self.any(f[1], 1)
            return ["m", m]
        if k in ("int", "long") and v[0] in ("i", "I") and x < 0.5:
            n = gen_num(v) + r.choice([-1, 1, 0])
            lim = 2**31 if k == "int" else 2**63
            return big(max(-lim, min(lim - 1, n)))
        return self.any(t)

    def row(self, ts):
        """One value per argument."""
        r, out = self.r, []
        for i, t in enumerate(ts):
            f = self.f
            if t[0] == "int" and f.startswith("cast.fanout"):
                out.append(["i", r.choice([0, 1, 2, 3, 4, 5, -2, -1, 7])]); continue
            if i == 1 and f in ("cast.signed", "cast.unsigned"):
                out.append(["i", r.choice([-1, 0, 1, 2, 3, 4, 8, 16, 31, 32, 33, 62, 63, 64, 65])]); continue
            if t[0] == "union" and f == "s.number":
                out.append(["n"] if r.random() < 0.3 else ["i", r.randint(-3, 12)]); continue
            if t[0] in ("int", "long") and i == 0 and f in ("s.hex", "s.int"):
                out.append(big(r.choice(INTS if t[0] == "int" else LONGS))); continue
            if t[0] in ("int", "long") and self.fam in ("array", "str") and (i > 0 or f == "a.range"):
                if f == "s.repeat" and i == 1: v = ["i", r.randint(-2, 6)]
                elif f in ("s.hex", "s.int", "s.number") and i == 1: v = ["i", r.randint(-12, 24)]
                elif i == len(ts) - 1 and f in ("a.append", "a.insert", "a.contains", "a.count", "a.index", "a.rindex", "a.replace", "a.replacefirst"): v = self.any(t)
                else: v = ["i", r.choice([-9, -7, -4, -3, -2, -1, 0, 0, 1, 1, 2, 3, 4, 5, 6, 8])]
                out.append(v); continue
            same = [j for j in range(i) if ts[j] == t]
            parts = [j for j in range(i) if ts[j][0] in ("array", "map") and ts[j][1] == t and out[j][1]]
            if same and r.random() < (0.5 if self.fam == "order" else 0.7): v = self.near(t, out[r.choice(same)])
            elif parts and r.random() < 0.6:
                j = r.choice(parts); q = out[j][1]
                v = r.choice(q) if isinstance(q, list) else q[r.choice(sorted(q))]
            else: v = self.any(t)
            if self.fam == "map" and t[0] == "string" and i > 0 and ts[0][0] == "map" and out[0][1] and r.random() < 0.6: v = ["s", r.choice(sorted(out[0][1]))]
            out.append(v)
        if self.f == "m.copysign" and ts[0][0] in ("int", "long") and gen_num(out[0]) in (-2**31, -2**63): out[0] = ["i", -5]
        if self.fam == "cast" and self.f.startswith("parse."): out[0] = self.numeral(ts)
        if self.fam == "cast" and self.f.startswith("parse.") and len(ts) > 1: out[1] = ["i", r.choice([2, 8, 10, 10, 10, 16, 3, 36, 1, 0, 37, -1])]
        return out

    def numeral(self, ts):
        r = self.r
        base = r.choice([2, 8, 10, 10, 16])
        n = r.choice(LONGS)
        digits = "0123456789abcdef"
        s, m = "", abs(n)
        while m: s = digits[m % base] + s; m //= base
        s = s or "0"
        if n < 0: s = "-" + s
        x = r.random()
        if x < 0.1: s = " " + s + r.choice(["", " ", "  "])
        elif x < 0.15: s = "+" + s.lstrip("-")
        elif x < 0.2: s = s + r.choice([".0", "L", "e1", "x", "_1", " 1", "."])
        elif x < 0.25: s = r.choice(["0x1F", "0b11", "0o7", "1_000", "--1", "+-1", "", " ", "-", "1 2", "inf", "nan", "1e5", "NaN", "Infinity", "-inf", "TRUE", "true", "False", " 1.5", ".5", "5.", "-0", "0012", "00x1"])
        elif ("double" in self.f or "float" in self.f) and x < 0.85: s = r.choice(["0.5", "-1.25", "3", "12.125", "-0.75", "100.5", "0.0", "00.5", "7", "-8", "1.75", "q1", "1g", "0.5z", "1,5", "12a", "3 4", "1.5", "-2.5", "64.0625", "1e3", "1e-1", "-2.5e2", "inf", "-inf", "nan", "Infinity", ".5", "5.", "1.5.2", "abc", "", " 2.5 ", "0x10", "1e", "1_0.5"])
        return ["s", s]

def gen_num(v): return int(v[1])

def sigs(f):
    return [(f,) + constrain(case) for case in SIGS.get(f, []) if case["life"][2] == -1]

def resolve(g, p, b, choose):
    """Instantiate a signature pattern."""
    k = p[0]
    if k == "wild":
        if p[1] not in b: b[p[1]] = g.use(choose(p[2]))
        return b[p[1]]
    if k == "wenum":
        b.setdefault(p[1], g.use(COL)); return b[p[1]]
    if k == "wfixed":
        b.setdefault(p[1], g.use(FX)); return b[p[1]]
    if k in ("array", "map"):
        x = resolve(g, p[1], b, choose)
        return None if x is None else (k, x)
    if k == "union":
        xs = tuple(resolve(g, x, b, choose) for x in p[1])
        return None if None in xs else ("union", xs)
    if k == "fcn":
        xs = tuple(resolve(g, x, b, choose) for x in p[1]); y = resolve(g, p[2], b, choose)
        return None if y is None or None in xs else ("fcn", xs, y)
    if k in ("wrec", "efields"): return None
    return p

ORDERED = ("cmp", "==", "!=", "<", "<=", ">", ">=", "max", "min", "a.sort", "a.max", "a.min", "a.maxN", "a.minN", "a.argmax", "a.argmin", "a.argmaxN", "a.argminN",
           "a.median", "a.mode", "a.ntile", "map.argmax", "map.argmin", "map.argmaxN", "map.argminN")

def libcase(rng, i, fam, fns, pure=None, items=None, logs=0.4, nsteps=10, keep=False):
    """A document calling one signature of one function of fns (the i-th of all in turn) on several argument tuples."""
    allsigs = [s for f in fns for s in sigs(f)]
    f, ps, ret = allsigs[i % len(allsigs)]
    for attempt in range(30):
        g = Gen(rng, lib=[x for x in ("+", "-", "*", "==", "<", ">", "!=", "max", "min", "a.len", "s.len", "s.concat", "map.len", "!", "&&", "||", "a.append", "abs") if x in SIGS])
        def choose(oneof):
            if oneof: return rng.choice(oneof)
            c = items or [TINT, TINT, TSTR, TSTR, TDOUBLE, TLONG, REC, arr(TINT), mp(TINT), COL, un(TNULL, TINT), TBOOL, un(TINT, TSTR), PT]
            return rng.choice(c)
        b = {}
        pts = [resolve(g, p, b, choose) for p in ps]
        rt = resolve(g, ret, b, choose)
        if rt is None or None in pts: 
            if attempt > 5: return None
            continue
        for p in pts: g.use(p)
        g.use(rt)
        if f in STRUCTURAL and any(g.hasunion(p) for p in pts): continue
        if any(not g.okunion(p) for p in pts) or not g.okunion(rt): continue
        if f in ORDERED and not g.orderable(pts[0]): continue
        break
    else:
        return None
    # arguments may be subtypes of the parameters where those are numeric
    vts = [p for p in pts if p[0] != "fcn"]
    fields, args, inn = [], [], []
    g.sc = [[{}, True, False]]
    lits = {}
    for j, p in enumerate(pts):
        if p[0] == "fcn":
            if f in LT_LAST: args.append(g.ltdef(p[1][0])); continue
            quiet = f.startswith("map.") or pure
            if quiet: g.pure += 1
            fd = g.fdef(p[1], p[2], rng.choice([1, 2, 2]))
            if quiet: g.pure -= 1
            elif rng.random() < logs: fd = ["fdef", fd[1], fd[2], [["log", [["ref", n] for n, _ in fd[1]], ""]] + fd[3]]
            args.append(fd); continue
        name = "a%d" % j
        t = p
        fields.append([name, t]); inn.append(t)
        args.append(["attr", ["ref", "input"], [["str", name]]])
    vs = Values(g, fam, f)
    rows = [vs.row(inn) for _ in range(nsteps)]
    # sometimes an argument is a literal of the document instead
    for j, (name, t) in enumerate(fields):
        if rng.random() < 0.08 and t[0] in ("int", "long", "double", "string", "array", "map"):
            v = rows[0][j]
            k = [x for x in range(len(args)) if args[x] == ["attr", ["ref", "input"], [["str", name]]]][0]
            if t[0] in ("int", "long") and v[0] == "i": args[k] = [t[0], v[1]]
            elif t[0] == "string" and v[0] == "s": args[k] = ["str", v[1]]
            elif t[0] in ("array", "map") and '"F"' not in json.dumps(v): args[k] = ["lit", t, v]
            else: continue
            for row in rows: row[j] = v
    g.D["In"] = {"k": "record", "fields": fields + [["pad", TINT]]}
    call = ["call", f, args]
    case = {"method": "map", "in": ("rec", "In"), "out": rt, "cells": {}, "pools": {}, "fcns": [], "zero": ["n"], "begin": [], "end": [], "merge": [], "D": g.D}
    if f in ORDER_EXPOSING: case["uo"] = True
    case["action"] = [call]
    if keep:
        # the arguments are read again after the call, and so is the result of the call before
        g.D["Out"] = {"k": "record", "fields": [["r", rt]] + fields}
        case["out"] = ("rec", "Out")
        case["action"] = [["let", [[n, ["attr", ["ref", "input"], [["str", n]]]] for n, _ in fields] or [["z", ["int", 0]]]],
                          ["let", [["r", ["call", f, [["ref", a[2][0][1]] if a[0] == "attr" else a for a in args]]]]],
                          ["newrec", ("rec", "Out"), [["r", ["ref", "r"]]] + [[n, ["ref", n]] for n, _ in fields]]]
        case["watch"] = True
    case["steps"] = [["action", ["m", dict([(n, v) for (n, _), v in zip(fields, row)] + [("pad", ["i", 0])])]] for row in rows]
    return case

def family(prefixes, extra=(), without=()):
    return [f for f in sorted(MODELLED) if (f in extra or any(f.startswith(p) for p in prefixes)) and f not in without]

CORE = [f for f in ("+", "-", "*", "/", "//", "%", "%%", "**", "u-", "&", "|", "^", "~", "&&", "||", "!", "^^", "&&&", "|||", "!!!", "m.abs", "m.ceil", "m.floor", "m.rint", "m.round", "m.signum", "m.copysign", "addinv") if f in MODELLED]
ORDER = [f for f in ("cmp", "==", "!=", "<", "<=", ">", ">=", "max", "min", "a.sort", "a.max", "a.min", "a.argmax", "a.argmin", "a.maxN", "a.minN", "a.argmaxN", "a.argminN", "a.median", "a.mode", "map.argmax", "map.argmin") if f in MODELLED]
ARRAY = family(["a."])
MAPS = family(["map."])
STR = family(["s.", "bytes."])
CAST = family(["cast.", "enum.", "fixed.", "parse."], extra=("m.round", "m.rint", "m.ceil", "m.floor", "m.abs", "m.signum", "m.copysign"))
OTYPES = [TINT, TLONG, TDOUBLE, TSTR, TBOOL, COL, REC, PT, arr(TINT), arr(TSTR), arr(TDOUBLE), un(TNULL, TINT), un(TINT, TSTR), un(TSTR, TDOUBLE, TNULL), TBYTES, FX, BIG, arr(un(TNULL, TSTR)), TNULL, un(TNULL, REC)]

def register(profile):
    def make(name, fam, fns, **kw):
        def p(rng, i):
            c = libcase(rng, i, fam, fns, **kw)
            if c is not None: yield c
        p.__name__ = name
        profile(p)
    make("lib_core", "core", CORE, nsteps=30)
    make("lib_order", "order", ORDER, items=OTYPES, nsteps=16)
    make("lib_array", "array", ARRAY)
    make("lib_map", "map", MAPS)
    make("lib_str", "str", STR, nsteps=14)
    make("lib_cast", "cast", CAST, nsteps=24)
    make("lib_alias", "array", [f for f in ARRAY + MAPS], keep=True, nsteps=4, logs=0)
