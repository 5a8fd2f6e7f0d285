"""Program generation profiles: each is a function (rng, index) -> iterable of cases."""
import gen
from gen import *
PROFILES = {}
def profile(f):
    PROFILES[f.__name__] = f
    return f

def weights(base, **w):
    return [(k, w.get(k, w.get("other", v) if "other" in w else v)) for k, v in base]

@profile
def general(rng, i):
    g = Gen(rng)
    yield g.program(d=rng.choice([2, 3, 3, 4]))

@profile
def mutated(rng, i):
    g = Gen(rng)
    c = g.program(d=rng.choice([2, 2, 3]))
    c = mutate(c, rng, g)
    c["options"] = {"timeout": 300}
    yield c

SIMPLE = ["+", "-", "*", "==", "<", "<=", ">", "!=", "max", "min", "&&", "||", "!", "&&&", "|||", "a.len", "a.append", "a.map", "a.filter", "a.reduce", "a.concat", "s.concat", "s.len", "u-", "^^", "%", "abs", "a.zipmap", "a.mapWithIndex", "a.foldRight", "a.any", "a.all", "map.map", "map.filter", "map.len", "a.sortLT", "a.flatMap"]
@profile
def control(rng, i):
    """Control flow, functions, references and fills over simple operators."""
    g = Gen(rng, lib=[f for f in SIMPLE if f in SIGS],
            forms=weights(Gen.FORMS, call=18, ucall=14, ifelse=10, condelse=8, do=8, cast=8, ifnn=8, ref=14, attr=6, callu=6),
            stmts=weights(Gen.STMTS, **{"while": 9, "until": 8, "for": 9, "foreach": 10, "forkv": 8, "log": 8}))
    yield g.program(d=rng.choice([3, 3, 4]), nfcns=(1, 2, 3), nstm=(1, 2, 3), nsteps=3)

@profile
def paths(rng, i):
    g = Gen(rng, lib=[f for f in SIMPLE if f in SIGS],
            forms=weights(Gen.FORMS, attr=30, attrto=24, cell=16, cellto=10, pool=12, poolto=8, call=8, lit=4, ref=8, new=6, ifelse=3, do=3),
            stmts=weights(Gen.STMTS, cellto=20, poolto=18, pooldel=6, let=20))
    t = g.use(rng.choice([arr(arr(TINT)), mp(arr(TINT)), BIG, arr(REC), mp(mp(TSTR)), NODE, arr(mp(TDOUBLE)), REC, g.type(2)]))
    o = g.use(rng.choice([TINT, TSTR, arr(TINT), t, g.type(1)]))
    yield g.program(d=rng.choice([2, 2, 3]), ncells=(1, 2), npools=(0, 1, 2), intype=t, outtype=o, nsteps=5)

@profile
def errors(rng, i):
    g = Gen(rng, forms=weights(Gen.FORMS, **{"try": 24, "attr": 16, "call": 20}), stmts=weights(Gen.STMTS, errors=14, log=8, emit=8, cellto=10),
            lib=[f for f in sorted(MODELLED) if f in SIMPLE or f.startswith("a.") and f not in HEAVY or f in ("/", "//", "%", "parse.int", "s.substr", "map.fromset", "cast.int", "map.argmax", "map.only", "map.except")])
    t = g.use(rng.choice([un(TNULL, TINT), un(TNULL, TSTR), un(TNULL, TDOUBLE), un(TNULL, arr(TSTR)), g.type(1), TINT]))
    yield g.program(d=rng.choice([3, 3, 4]), outtype=t, ncells=(0, 1), nfcns=(0, 1, 2))

@profile
def scopes(rng, i):
    g = Gen(rng, lib=[f for f in SIMPLE if f in SIGS], forms=weights(Gen.FORMS, do=18, ref=24, ifelse=12, ucall=10, call=22, cast=8, ifnn=8),
            stmts=weights(Gen.STMTS, let=34, set=34, foreach=10, **{"for": 8, "while": 8, "if": 12}))
    yield g.program(d=rng.choice([3, 4]), nstm=(2, 3, 4), nsteps=3)

@profile
def badscopes(rng, i):
    """Programs whose names were tampered with: undeclared, redeclared, assigned where they may not be."""
    g = Gen(rng, lib=[f for f in SIMPLE if f in SIGS], forms=weights(Gen.FORMS, do=18, ref=24, ifelse=12, ucall=10, call=22),
            stmts=weights(Gen.STMTS, let=34, set=34, foreach=10, **{"for": 8, "while": 8, "if": 12}))
    c = g.program(d=rng.choice([2, 3]), nstm=(2, 3), nsteps=2)
    c = rename(c, rng)
    c["options"] = {"timeout": 300}
    yield c

def names_of(e, out):
    if isinstance(e, (list, tuple)):
        if len(e) == 2 and e[0] in ("let", "set"):
            out.update(n for n, _ in e[1])
        elif len(e) == 2 and e[0] == "ref": out.add(e[1])
        for x in e: names_of(x, out)
    return out

def rename(case, rng):
    """Change one occurrence of a name, turn a let into a set or the reverse, or move a statement."""
    case = dict(case)
    parts = [p for p in ("action", "action", "begin", "end") if case.get(p)]
    if case["fcns"] and rng.random() < 0.3: part = "fcns"
    else: part = rng.choice(parts)
    body = list(case[part]) if part != "fcns" else list(case["fcns"][0][3])
    pool = sorted(names_of([case[p] for p in ("action", "begin", "end", "fcns")], set())) + ["input", "tally", "name", "actionsStarted", "nowhere", "p1", "c0"]
    for _ in range(8):
        ps = subexprs(body)
        k = rng.random()
        sel = lambda *ks: [q for q in ps if at(body, q)[0] in ks]
        if k < 0.35:
            qs = sel("ref")
            if not qs: continue
            body = replaced(body, rng.choice(qs), ["ref", rng.choice(pool)])
        elif k < 0.6:
            qs = sel("let", "set")
            if not qs: continue
            q = rng.choice(qs); l = at(body, q)
            j = rng.randrange(len(l[1]))
            body = replaced(body, q, [l[0], [[rng.choice(pool), x[1]] if jj == j else x for jj, x in enumerate(l[1])]])
        elif k < 0.75:
            qs = sel("let", "set")
            if not qs: continue
            q = rng.choice(qs); l = at(body, q)
            body = replaced(body, q, ["set" if l[0] == "let" else "let", l[1]])
        elif k < 0.85:
            qs = sel("let", "set")
            if not qs: continue
            q = rng.choice(qs); l = at(body, q)
            x = rng.choice(ps)
            if x[:len(q)] == q or q[:len(x)] == x: continue
            body = replaced(body, x, ["do", [l, at(body, x)]])
        elif k < 0.93:
            qs = sel("foreach")
            if not qs: continue
            q = rng.choice(qs); l = at(body, q)
            body = replaced(body, q, l[:4] + [not l[4]])
        else:
            qs = sel("call")
            if not qs: continue
            q = rng.choice(qs)
            body = replaced(body, q, ["do", [["let", [["w9", at(body, q)]]], ["ref", rng.choice(["w9", rng.choice(pool)])]]])
        break
    if part == "fcns":
        f = case["fcns"][0]
        case["fcns"] = [[f[0], f[1], f[2], body]] + list(case["fcns"][1:])
    else:
        case[part] = body
    return case

@profile
def lifecycle(rng, i):
    g = Gen(rng, lib=[f for f in SIMPLE if f in SIGS] + ["a.head"], forms=weights(Gen.FORMS, ref=24, cell=10), stmts=weights(Gen.STMTS, emit=22, errors=8, cellto=12, poolto=8))
    m = ["map", "emit", "fold"][i % 3]
    ot = rng.choice([TLONG, TINT, TDOUBLE, TSTR, arr(TLONG), mp(TINT), REC])
    c = g.program(d=rng.choice([2, 2, 3]), method=m, outtype=ot, nsteps=1)
    # force the counters, the tally and partial emission into play
    n = ["ref", rng.choice(["actionsStarted", "actionsFinished"])]
    k = rng.random()
    if k < 0.5: c["action"].insert(0, ["if", ["call", "==", [["call", "%", [["ref", "actionsStarted"], ["long", 3]]], ["long", rng.randint(0, 2)]]],
                                       [["error", "planned", ["c", -3]]]] if rng.random() < 0.5 else ["log", [["ref", "actionsStarted"], ["ref", "actionsFinished"]], ""])
    if m == "emit":
        e = g.lit(ot)
        c["action"] += [["call", "emit", [e]]] if rng.random() < 0.7 else []
        if k < 0.3: c["action"] += [["if", ["call", "==", [["ref", "actionsFinished"], ["long", rng.randint(0, 2)]]], [["error", "late", ["n"]]]], ["call", "emit", [e]]]
    elif ot == TLONG:
        if m == "fold":
            c["action"][-1] = ["call", "+", [["ref", "tally"], rng.choice([n, ["long", rng.randint(1, 5)], c["action"][-1]])]]
            c["merge"] = [["call", "+", [["ref", "tallyOne"], ["ref", "tallyTwo"]]]]
        else:
            c["action"][-1] = rng.choice([n, ["call", "+", [n, c["action"][-1]]]])
    elif m == "fold" and ot == TSTR:
        c["action"][-1] = ["call", "s.concat", [["ref", "tally"], c["action"][-1]]]
        c["merge"] = [["call", "s.concat", [["ref", "tallyOne"], ["ref", "tallyTwo"]]]]
    elif m == "fold" and ot[0] == "array":
        c["action"][-1] = ["call", "a.append", [["ref", "tally"], n]]
        c["merge"] = [["call", "a.concat", [["ref", "tallyTwo"], ["ref", "tallyOne"]]]]
    elif m == "fold" and rng.random() < 0.5:
        c["merge"] = [["ref", "tallyTwo"]]
    kinds = ["action"] * 5 + ["begin", "end"] + (["merge", "merge"] if m == "fold" else [])
    steps = []
    for _ in range(rng.randint(3, 9)):
        s = rng.choice(kinds)
        if s == "action": steps.append(["action", g.value(c["in"])])
        elif s == "merge": steps.append(["merge", ["a", [g.value(ot, 2), g.value(ot, 2)]]])
        else: steps.append([s])
    c["steps"] = steps
    yield c

def bodies(e, path, out):
    """Positions of statement lists inside an expression."""
    if not isinstance(e, (list, tuple)) or not e or not isinstance(e[0], str): 
        if isinstance(e, (list, tuple)):
            for i, x in enumerate(e): bodies(x, path + (i,), out)
        return out
    k = e[0]
    idx = {"do": [1], "if": [2], "ifelse": [2, 3], "while": [2], "until": [1], "for": [4], "foreach": [3], "forkv": [4], "fdef": [3], "condelse": [2], "ifnn": [2], "ifnnelse": [2, 3]}.get(k, [])
    if k not in ("try", "lit"):
        for i in idx: out.append(path + (i,))
        for i, x in enumerate(e): bodies(x, path + (i,), out)
    return out

FAILS = [["error", "planted", ["c", -9]], ["error", "planted", ["n"]], ["call", "a.head", [["lit", ("array", ("int",)), ["a", []]]]],
         ["attr", ["lit", ("array", ("int",)), ["a", [["i", 1]]]], [["int", 4]]], ["call", "+", [["int", 2147483647], ["int", 1]]]]
@profile
def rollback(rng, i):
    """Every action fails at another statement (of the action and of the blocks and inline functions within)."""
    g = Gen(rng, lib=[f for f in SIMPLE if f in SIGS], forms=weights(Gen.FORMS, cell=12, pool=8, cellto=10, poolto=8, **{"try": 1}),
            stmts=weights(Gen.STMTS, cellto=30, poolto=30, pooldel=10, errors=0, emit=6))
    c = g.program(d=rng.choice([2, 2, 3]), ncells=(1, 2, 2), npools=(1, 2), nstm=(2, 3, 4), nsteps=1)
    if not all(st for st in [c["action"]]): return
    act = c["action"]
    spots = [((), j) for j in range(len(act) + (1 if c["method"] == "emit" else 0))]
    for p in bodies(act, (), []):
        if p: spots += [(p, j) for j in range(len(at(act, p)))]
    rng.shuffle(spots)
    spots = sorted(spots[:10], key=lambda s: (s[0], s[1]))
    ids = dict((s, n + 1) for n, s in enumerate(spots))
    def rebuild(e, path):
        if not isinstance(e, list): return e
        out = []
        for j, x in enumerate(e):
            if (path, j) in ids: out.append(trap(ids[(path, j)]))
            out.append(rebuild(x, path + (j,)))
        if (path, len(e)) in ids: out.append(trap(ids[(path, len(e))]))
        return out
    def trap(n):
        return ["if", ["call", "==", [["ref", "actionsStarted"], ["long", n]]], [rng.choice(FAILS)]]
    c["action"] = rebuild(act, ())
    inputs = [g.value(c["in"]) for _ in range(3)]
    c["steps"] = [["action", inputs[n % 3]] for n in range(len(spots) + 2)]
    yield c

@profile
def aliasing(rng, i):
    g = Gen(rng, forms=weights(Gen.FORMS, attrto=16, cell=14, cellto=10, pool=8, poolto=8, ref=22, lit=3, call=26),
            stmts=weights(Gen.STMTS, cellto=24, poolto=16, let=24, set=16),
            lib=[f for f in sorted(MODELLED) if f.startswith(("a.", "map.")) and f not in HEAVY])
    t = g.use(rng.choice([arr(TINT), arr(arr(TINT)), mp(arr(TINT)), BIG, REC, arr(REC), mp(mp(TSTR)), arr(TSTR)]))
    c = g.program(d=rng.choice([2, 3]), intype=t, outtype=t, ncells=(1, 2), npools=(0, 1), nsteps=4)
    c["watch"] = True
    yield c

@profile
def instances(rng, i):
    g = Gen(rng, lib=[f for f in SIMPLE if f in SIGS], forms=weights(Gen.FORMS, cell=14, pool=8), stmts=weights(Gen.STMTS, cellto=24, poolto=16, emit=10))
    c = g.program(d=2, ncells=(1, 2), npools=(0, 1), nsteps=1, nstm=(1, 2, 3))
    if rng.random() < 0.5: c["action"].insert(0, ["log", [["ref", "instance"]], ""])
    n = rng.choice([2, 3])
    c["instances"] = n
    c["steps"] = [[rng.randrange(n), "action", g.value(c["in"])] if rng.random() < 0.85 else [rng.randrange(n), rng.choice(["begin", "end"])] for _ in range(rng.randint(5, 9))]
    yield c

@profile
def snapshot(rng, i):
    g = Gen(rng, lib=[f for f in SIMPLE if f in SIGS], forms=weights(Gen.FORMS, cell=14, pool=10), stmts=weights(Gen.STMTS, cellto=26, poolto=24, pooldel=6))
    c = g.program(d=2, ncells=(1, 2, 3), npools=(0, 1, 2), nsteps=rng.randint(3, 6), nstm=(1, 2, 3, 4), beginend=rng.random() < 0.5)
    c["snapshot"] = rng.randint(0, len(c["steps"]))
    yield c

import libprof
libprof.register(profile)

AI = ("array", ("int",))
FAILING = [   # expression, message, code
    (["error", "bad", ["c", -7]], "bad", -7), (["error", "bad", ["n"]], "bad", None), (["error", "bad idea", ["c", -1]], "bad idea", -1), (["error", "", ["c", -2]], "", -2),
    (["attr", ["lit", AI, ["a", [["i", 1]]]], [["int", 4]]], "array index not found", 2000),
    (["attr", ["lit", AI, ["a", [["i", 1]]]], [["int", -1]]], "array index not found", 2000),
    (["attr", ["lit", ("map", ("int",)), ["m", {"k": ["i", 1]}]], [["str", "z"]]], "map key not found", 2001),
    (["call", "+", [["int", 2147483647], ["int", 1]]], "int overflow", 18000),
    (["call", "//", [["int", 1], ["int", 0]]], "integer division by zero", 18040),
    (["call", "a.head", [["lit", AI, ["a", []]]]], "empty array", 15020),
    (["call", "a.max", [["lit", AI, ["a", []]]]], "empty array", 15230 if False else None),
    (["call", "parse.int", [["str", "q1"], ["int", 10]]], "not an integer", 33000),
    (["call", "map.only", [["lit", ("map", ("int",)), ["m", {"k": ["i", 1], "l": ["i", 2]}]], ["lit", ("array", ("string",)), ["a", []]]]], None, None),
    (["cell", "c0", [["int", 9]]], "array index not found", 2000),
    (["cellto", "c0", [["int", 9]], ["int", 0]], "array index not found", 2000),
    (["pool", "q0", [["str", "nokey"]]], "map key not found", 2001),
]
FAILING = [x for x in FAILING if x[1] is not None]

@profile
def filters(rng, i):
    """Every failure against filters naming its message or code exactly, nearly, or not at all, in nested tries."""
    k = 5
    fs = [rng.choice(FAILING) for _ in range(k)]
    def near():
        e, m, c = rng.choice(fs)
        x = rng.random()
        if x < 0.25: return ["m", m]
        if x < 0.45: return ["c", c if c is not None else 0]
        if x < 0.6: return ["m", m[:rng.randint(0, max(0, len(m) - 1))]]
        if x < 0.72: return ["m", m[rng.randint(1, max(1, len(m))):]]
        if x < 0.78: return ["m", m + rng.choice([" ", "s", "."])]
        if x < 0.84: return ["m", m.upper()]
        if x < 0.9 and c is not None: return ["c", c + rng.choice([-1, 1])]
        if x < 0.95 and c is not None: return ["m", str(c)]
        return ["m", "runtime"]
    def filt(): return ["all"] if rng.random() < 0.1 else ["some", [near() for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]]
    def mark(n): return ["log", [["str", n]], ""]
    alts = [[["call", "==", [["ref", "input"], ["int", n]]], [mark("f%d" % n), f[0], ["str", "not reached"]]] for n, f in enumerate(fs)]
    body = ["condelse", alts, [["str", "fine"]]]
    for lvl in range(rng.choice([1, 1, 2, 3])):
        u = un(TNULL, TSTR)
        body = ["ifnnelse", [["x%d" % lvl, ["try", [body, ] if rng.random() < 0.7 else [mark("in %d" % lvl), body], filt()]]], [mark("value %d" % lvl), ["ref", "x%d" % lvl]], [mark("caught %d" % lvl), ["str", "caught %d" % lvl]]]
    yield {"method": "map", "in": TINT, "out": TSTR, "cells": {"c0": {"t": AI, "init": ["a", [["i", 1], ["i", 2]]], "rb": False}},
           "pools": {"q0": {"t": TINT, "init": {"k": ["i", 1]}, "rb": False}}, "fcns": [], "zero": ["n"], "begin": [], "end": [], "merge": [], "D": {},
           "action": [body], "steps": [["action", ["i", n]] for n in range(k + 1)]}
