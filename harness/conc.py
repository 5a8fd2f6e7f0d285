"""Documents whose actions are sequences of atomic operations on shared state."""
from gen import *

def case(rng, kind):
    r = rng
    n = [0]
    def fresh(p):
        n[0] += 1
        return p + str(n[0])
    D = {}
    cells = {"c0": TINT, "c1": arr(TINT), "c2": mp(TINT), "mine": TINT}
    pools = {"q0": TINT, "q1": arr(TINT), "hers": TINT}
    if r.random() < 0.4: cells["c3"] = arr(arr(TINT)); cells["c4"] = ["rec", "Pt"]; D["Pt"] = {"k": "record", "fields": [["x", TINT], ["y", arr(TINT)]]}
    keep = lambda d, k: dict((x, d[x]) for x in r.sample(sorted(d), min(k, len(d))))
    if kind == "pools": cells, pools = keep(cells, r.choice([0, 1])), keep(pools, r.choice([1, 1, 2]))
    elif kind == "cells": cells, pools = keep(cells, r.choice([1, 2, 3])), {}
    else: cells, pools = keep(cells, r.choice([1, 2])), keep(pools, r.choice([1, 2]))
    if not cells and not pools: pools["q0"] = TINT
    D = dict((k, v) for k, v in D.items() if "c4" in cells)
    small = lambda: ["int", r.randint(-3, 9)]
    inp = lambda: ["ref", "input"] if r.random() < 0.5 else small()
    def value(t):
        if t == TINT: return ["i", r.randint(0, 3)]
        if t[0] == "array": return ["a", [value(t[1]) for _ in range(r.choice([0, 1, 2]))]]
        if t[0] == "map": return ["m", dict((k, value(t[1])) for k in r.sample(["a", "b"], r.choice([1, 2])))]
        return ["m", {"x": value(TINT), "y": value(arr(TINT))}]
    keys = ["a", "b"] if r.random() < 0.7 else ["a"]
    key = lambda: ["str", r.choice(keys)]
    def paths(t):
        """paths into a value of type t: [items], type"""
        out = [([], t)]
        if t[0] == "array": out += [([["int", r.choice([0, 0, 1])]] + p, x) for p, x in paths(t[1])]
        elif t[0] == "map": out += [([key()] + p, x) for p, x in paths(t[1])]
        elif t[0] == "rec": out += [([["str", "x"]], TINT), ([["str", "y"]], arr(TINT)), ([["str", "y"], ["int", 0]], TINT)]
        return out
    def new(t, x, free):
        """A value of type t computed from the old value x (an expression); free: input is visible."""
        k = inp() if free else small()
        if t == TINT: return ["call", "+", [["call", "*", [x, ["int", r.choice([1, 2, 3])]]], k]]
        if t == arr(TINT): return ["call", "a.append", [x, k]]
        if t[0] == "array": return ["call", "a.append", [x, ["newarr", arr(TINT), [k]]]]
        if t[0] == "map": return ["call", "map.add", [x, key(), k]]
        return ["newrec", t, [["x", ["call", "+", [["attr", x, [["str", "x"]]], k]]], ["y", ["call", "a.append", [["attr", x, [["str", "y"]]], k]]]]]
    def test(t, x):
        if t == TINT: return ["call", "==", [["call", "%", [x, ["int", r.choice([2, 3])]]], ["int", 0]]]
        if t[0] == "array": return ["call", ">", [["call", "a.len", [x]], ["int", r.choice([1, 2, 3])]]]
        if t[0] == "map": return ["call", ">", [["call", "map.len", [x]], ["int", 1]]]
        return ["call", ">", [["attr", x, [["str", "x"]]], ["int", 4]]]
    def fbody(t, x, free):
        out = []
        if r.random() < 0.8: out.append(["log", [x], "in"])
        if r.random() < 0.35: out.append(["if", test(t, x), [["error", r.choice(["full", "odd"]), r.choice([["n"], ["c", -7]])]]])
        if r.random() < 0.3: out.append(["log", [["int", 0]], "in"])
        return out + [new(t, x, free)]
    fcns, byt = [], {}
    def updater(t):
        k = r.random()
        if k < 0.2:
            f = fresh("f")
            fcns.append([f, [["x", t]], t, fbody(t, ["ref", "x"], False)])
            return ["fref", "u." + f]
        if k < 0.35:
            f = fresh("f")
            fcns.append([f, [["x", t], ["k", TINT]], t, fbody(t, ["ref", "x"], False) if r.random() < 0.5 or t != TINT else [["log", [["ref", "x"]], "in"], ["call", "-", [["ref", "x"], ["ref", "k"]]]]])
            return ["fill", "u." + f, [["k", inp()]]]
        if k < 0.9:
            p = fresh("p")
            return ["fdef", [[p, t]], t, fbody(t, ["ref", p], True)]
        return const(t)
    def const(t):
        if t == TINT: return ["call", "*", [inp(), ["int", 10]]]
        return ["lit", t, value(t)]
    def op():
        k = r.random()
        cs, ps = sorted(cells), sorted(pools)
        if cs and (k < 0.5 or not ps):
            c = r.choice(cs)
            p, t = r.choice(paths(cells[c]))
            if r.random() < 0.25: return ["cell", c, p]
            return ["cellto", c, p, updater(t)]
        q = r.choice(ps)
        p, t = r.choice(paths(pools[q]))
        j = r.random()
        if j < 0.2: return ["pool", q, [key()] + p]
        if j < 0.35: return ["pooldel", q, key()]
        return ["poolto", q, [key()] + p, updater(t), const(pools[q])]
    def stmt():
        o = op()
        if r.random() < 0.5: o = ["try", [o], ["all"]]
        return ["log", [o], "op"]
    action = [stmt() for _ in range(r.choice([1, 1, 2, 3]))] + [["int", 0]]
    shared = lambda n: n not in ("mine", "hers")
    threads = r.choice([2, 2, 3, 3, 4])
    per = r.choice([1, 2, 2, 3])
    return {"D": D, "method": "map", "in": TINT, "out": TINT, "fcns": fcns, "action": action,
            "cells": dict((c, {"t": t, "init": value(t), "rb": not shared(c) and r.random() < 0.5, "shared": shared(c)}) for c, t in cells.items()),
            "pools": dict((q, {"t": t, "init": dict((k, value(t)) for k in keys if r.random() < 0.5), "rb": not shared(q) and r.random() < 0.5, "shared": shared(q)}) for q, t in pools.items()),
            "threads": [[["i", 10 * i + j + 1] for j in range(per)] for i in range(threads)],
            "oneshare": r.random() < 0.7, "switch": r.choice([0.02, 0.05, 0.1, 0.3, 0.6])}
