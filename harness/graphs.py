"""Documents with arbitrary call graphs, for the deadlock rule and the call-graph queries."""
from gen import *

class FreeGen(Gen):
    """Programs in which every function and updater may have side effects."""
    @property
    def pure(self): return 0
    @pure.setter
    def pure(self, v): pass
    def ufn(self, params, ret):
        c = [n for n, (ps, rt) in self.fcns.items() if len(ps) == len(params) and all(accepts(a, b) for a, b in zip(ps, params)) and accepts(ret, rt)]
        return ["fref", "u." + self.r.choice(c)] if c else None

def free(rng, i):
    g = FreeGen(rng, stmts=[(k, w * 4 if k in ("cellto", "poolto", "pooldel") else w) for k, w in Gen.STMTS])
    return g.program(d=rng.choice([2, 3]), nfcns=(1, 2, 3), ncells=(1, 2), npools=(0, 1, 2), nstm=(1, 2, 3), nsteps=0)

class Small:
    """int-valued functions that call, reference and fill one another in any way."""
    def __init__(self, rng):
        self.r, self.n = rng, 0
        self.fs = dict(("f%d" % i, rng.choice([0, 1, 1, 1, 2])) for i in range(rng.choice([1, 2, 3, 4, 5, 6])))
        self.enums = {}
        self.fxp = rng.choice([0.02, 0.06, 0.15])
        self.callp = rng.choice([0.15, 0.3, 0.45])
    def fresh(self, p):
        self.n += 1
        return p + str(self.n)
    def names(self, arity): return [f for f, n in self.fs.items() if n == arity]
    def fn(self, params, d, ps):
        """A function argument with so many int parameters."""
        k = self.r.random()
        c = self.names(params)
        if c and k < 0.4: return ["fref", "u." + self.r.choice(c)]
        c = [f for f, n in self.fs.items() if n > params and n > 0]
        if c and k < 0.6:
            f = self.r.choice(c)
            fill = self.r.sample(["a%d" % i for i in range(self.fs[f])], self.fs[f] - params)
            return ["fill", "u." + f, [[x, self.e(d - 1, ps)] for x in fill]]
        qs = [self.fresh("p") for _ in range(params)]
        return ["fdef", [[q, TINT] for q in qs], TINT, self.body(d - 1, ps + qs)]
    def body(self, d, ps):
        return [self.e(d, ps) for _ in range(self.r.choice([1, 1, 2]))]
    def to(self, d, ps):
        k = self.r.random()
        return self.e(d - 1, ps) if k < 0.3 else self.fn(1, d, ps)
    def key(self): return ["str", self.r.choice("ab")]
    def e(self, d, ps):
        r = self.r
        if d <= 0 or r.random() < 0.15: return ["ref", r.choice(ps)] if ps and r.random() < 0.6 else ["int", r.randint(0, 9)]
        if r.random() < self.fxp:
            k = r.random()
            if k < 0.4: return ["cellto", "c0", [], self.to(d, ps)]
            if k < 0.8: return ["poolto", "q0", [self.key()], self.to(d, ps), self.e(d - 1, ps)]
            return ["do", [["pooldel", "q0", self.key()], self.e(d - 1, ps)]]
        if r.random() < self.callp:
            k = r.random()
            if k < 0.25:
                n = r.choice([0, 1, 2])
                c = self.names(n)
                if c:
                    syms = r.sample(c, r.randint(1, min(3, len(c))))
                    t = "Sel_" + "_".join(syms)
                    self.enums[t] = {"k": "enum", "syms": syms}
                    return ["callu", ["lit", ["enum", t], ["s", r.choice(syms)]], [self.e(d - 1, ps) for _ in range(n)]]
            f = r.choice(sorted(self.fs))
            return ["call", "u." + f, [self.e(d - 1, ps) for _ in range(self.fs[f])]]
        k = r.randrange(15)
        arr1 = lambda: ["newarr", arr(TINT), [self.e(d - 1, ps) for _ in range(r.choice([0, 1, 2]))]]
        if k == 0: return ["call", "+", [self.e(d - 1, ps), self.e(d - 1, ps)]]
        if k == 1: return ["call", "a.len", [["call", "a.map", [arr1(), self.fn(1, d, ps)]]]]
        if k == 2: return ["call", "a.reduce", [arr1(), self.fn(2, d, ps)]]
        if k == 3: return ["call", "a.fold", [arr1(), self.e(d - 1, ps), self.fn(2, d, ps)]]
        if k == 4: return ["ifelse", ["call", "<", [self.e(d - 1, ps), self.e(d - 1, ps)]], self.body(d - 1, ps), self.body(d - 1, ps)]
        if k == 5: return ["do", self.body(d - 1, ps)]
        if k == 6: return ["do", [["while", ["call", ">", [self.e(d - 1, ps), ["int", 100]]], self.body(d - 1, ps)], self.e(d - 1, ps)]]
        if k == 7: return ["do", [["log", [self.e(d - 1, ps)], ""], self.e(d - 1, ps)]]
        if k == 8:
            v = self.fresh("v")
            return ["do", [["let", [[v, self.e(d - 1, ps)]]], self.e(d - 1, ps + [v])]]
        if k == 9: return ["attr", arr1(), [self.e(d - 1, ps)]]
        if k == 10: return ["attr", ["attrto", arr1(), [self.e(d - 1, ps)], self.to(d, ps)], [self.e(d - 1, ps)]]
        if k == 11: return ["cell", "c0", []]
        if k == 12: return ["pool", "q0", [self.key()]]
        if k == 13:
            v = self.fresh("v")
            return ["ifnnelse", [[v, ["try", self.body(d - 1, ps), ["all"]]]], self.body(d - 1, ps + [v]), self.body(d - 1, ps)]
        v = self.fresh("v")
        return ["do", [["foreach", v, arr1(), self.body(d - 1, ps + [v]), False], self.e(d - 1, ps)]]
    def case(self):
        r = self.r
        d = r.choice([2, 2, 3])
        fcns = [[f, [["a%d" % i, TINT] for i in range(n)], TINT, self.body(d, ["a%d" % i for i in range(n)])] for f, n in self.fs.items()]
        method = r.choice(["map", "map", "emit", "fold"])
        case = {"method": method, "in": TINT, "out": TINT, "fcns": fcns, "zero": ["i", 0] if method == "fold" else ["n"],
                "cells": {"c0": {"t": TINT, "init": ["i", 0], "rb": r.random() < 0.5}}, "pools": {"q0": {"t": TINT, "init": {}, "rb": r.random() < 0.5}},
                "begin": self.body(d, []) if r.random() < 0.3 else [], "end": self.body(d, []) if r.random() < 0.3 else [],
                "action": self.body(d, ["input"]), "merge": [self.e(d, ["tallyOne", "tallyTwo"])] if method == "fold" else [], "steps": []}
        case["D"] = dict(self.enums)
        return case

def small(rng, i): return Small(rng).case()

class Chain(Small):
    """One updater, and one chain of links of any kind from it to a function that may or may not update something."""
    def __init__(self, rng):
        self.r, self.n, self.enums = rng, 0, {}
        self.len = rng.choice([0, 1, 1, 2, 3])
        self.fs = dict(("f%d" % i, rng.choice([0, 1, 1, 2])) for i in range(self.len + 1))
        self.fs.update(("d%d" % i, n) for i, n in enumerate([0, 1, 1, 2]))   # these do nothing of interest
        self.pick = None
    def val(self, ps): return ["ref", self.r.choice(ps)] if ps and self.r.random() < 0.5 else ["int", self.r.randint(0, 9)]
    def hof(self, n, f):
        arr1 = ["newarr", arr(TINT), [["int", 1], ["int", 2]]]
        if n == 1: return ["call", "a.len", [["call", "a.map", [arr1, f]]]] if self.r.random() < 0.6 else ["attr", ["attrto", arr1, [["int", 0]], f], [["int", 1]]]
        return ["call", "a.reduce", [arr1, f]] if self.r.random() < 0.5 else ["call", "a.fold", [arr1, ["int", 3], f]]
    def link(self, g, ps):
        """An expression that reaches function g."""
        r, n = self.r, self.fs[g]
        call = ["call", "u." + g, [self.val(ps) for _ in range(n)]]
        k = r.random()
        if k < 0.3: return call
        if k < 0.5:
            others = [f for f in self.names(n) if f != g and f.startswith("d")]
            syms = [g] + r.sample(others, min(len(others), r.randint(0, 2)))
            r.shuffle(syms)
            t = "Sel_" + "_".join(syms)
            self.enums[t] = {"k": "enum", "syms": syms}
            return ["callu", ["lit", ["enum", t], ["s", r.choice(syms)]], [self.val(ps) for _ in range(n)]]
        if k < 0.65 and n > 0: return self.hof(n, ["fref", "u." + g])
        if k < 0.8 and n == 2:
            a = r.choice(["a0", "a1"])
            return self.hof(1, ["fill", "u." + g, [[a, self.val(ps)]]])
        if k < 0.9:   # g is reached from the argument of a fill
            d = [f for f in self.names(2) if f.startswith("d")][0]
            return self.hof(1, ["fill", "u." + d, [["a0", call]]])
        p = self.fresh("p")
        return self.hof(1, ["fdef", [[p, TINT]], TINT, [call]])
    def wrap(self, x, ps):
        r, k = self.r, self.r.randrange(12)
        if k == 0: return ["do", [self.val(ps), x]]
        if k == 1: return ["ifelse", ["call", "<", [self.val(ps), self.val(ps)]], [self.val(ps)], [x]]
        if k == 2: return ["ifelse", ["call", "<", [x, self.val(ps)]], [self.val(ps)], [self.val(ps)]]
        if k == 3: return ["call", "+", [self.val(ps), x]]
        if k == 4:
            v = self.fresh("v")
            return ["do", [["let", [[v, x]]], ["ref", v]]]
        if k == 5: return ["do", [["log", [x], ""], self.val(ps)]]
        if k == 6:
            v = self.fresh("v")
            return ["ifnnelse", [[v, ["try", [x], ["all"]]]], [["ref", v]], [self.val(ps)]]
        if k == 7: return ["do", [["while", ["call", ">", [x, ["int", 100]]], [self.val(ps)]], self.val(ps)]]
        if k == 8:
            v = self.fresh("v")
            return ["do", [["foreach", v, ["newarr", arr(TINT), [["int", 1]]], [x], False], self.val(ps)]]
        return x
    def effect(self, ps):
        k = self.r.randrange(5)
        if k == 0: return ["cellto", "c0", [], self.val(ps)]
        if k == 1: return ["poolto", "q0", [self.key()], self.val(ps), self.val(ps)]
        if k == 2: return ["do", [["pooldel", "q0", self.key()], self.val(ps)]]
        if k == 3:
            p = self.fresh("p")
            return ["cellto", "c0", [], ["fdef", [[p, TINT]], TINT, [self.val([p])]]]
        return self.val(ps)
    def updater(self, ps):
        """The argument of an update that reaches f0."""
        r, k, n = self.r, self.r.random(), self.fs["f0"]
        if k < 0.25 and n == 1: return ["fref", "u.f0"]
        if k < 0.45 and n == 2: return ["fill", "u.f0", [[r.choice(["a0", "a1"]), self.val(ps)]]]
        if k < 0.55: return ["fill", "u.d3", [[r.choice(["a0", "a1"]), self.wrap(self.link("f0", ps), ps)]]]
        if k < 0.62: return self.wrap(self.link("f0", ps), ps)   # evaluated before the update begins: allowed
        p = self.fresh("p")
        return ["fdef", [[p, TINT]], TINT, [self.wrap(self.link("f0", [p]), [p])]]
    def case(self):
        r = self.r
        fcns = []
        for f, n in self.fs.items():
            ps = ["a%d" % i for i in range(n)]
            i = int(f[1:])
            if f[0] == "d": body = [self.val(ps)]
            elif i < self.len: body = [self.wrap(self.link("f%d" % (i + 1), ps), ps)]
            else: body = [self.wrap(self.effect(ps), ps)]
            fcns.append([f, [[p, TINT] for p in ps], TINT, body])
        r.shuffle(fcns)
        to = self.updater(["input"])
        site = ["cellto", "c0", [], to] if r.random() < 0.5 else ["poolto", "q0", [self.key()], to, ["int", 0]]
        case = {"method": "map", "in": TINT, "out": TINT, "fcns": fcns, "zero": ["n"],
                "cells": {"c0": {"t": TINT, "init": ["i", 0], "rb": False}}, "pools": {"q0": {"t": TINT, "init": {}, "rb": False}},
                "begin": [], "end": [], "action": [self.wrap(site, ["input"])], "merge": [], "steps": []}
        case["D"] = dict(self.enums)
        return case

def chain(rng, i): return Chain(rng).case()
