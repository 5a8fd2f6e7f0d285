"""Programs (see spec/PFALang.tla) written in PrettyPFA."""
import json, re
import ir
import titus.pfaast

class NotPretty(Exception):
    """The program has no PrettyPFA form."""

LEVELS = [["||"], ["^^"], ["&&"], ["!"], ["==", "!=", "<", "<=", ">", ">="], ["|"], ["^"], ["&"], ["+", "-"], ["*", "/", "//", "%", "%%"], ["u-", "~"], ["**"]]
PREC = dict((op, i + 1) for i, ops in enumerate(LEVELS) for op in ops)
INFIX = dict((op, "idiv" if op == "//" else op) for op in PREC if op not in ("!", "u-", "~"))
ATOM, CONTROL = 100, 0
NAME = re.compile(r"^[A-Za-z_][A-Za-z_0-9]*$")
DOTNAME = re.compile(r"^[A-Za-z_][A-Za-z_0-9]*(\.[A-Za-z_][A-Za-z_0-9]*)*$")
RESERVED = {"idiv", "fcn", "if", "else", "while", "do", "until", "for", "foreach", "cast", "as", "ifnotnull", "unpack", "try", "var", "to", "init"}
FUNCTIONS = set(titus.pfaast.FunctionTable.blank().functions)

class Writer:
    def __init__(self, case, rng):
        self.case, self.rng, self.D = case, rng, case["D"]
        self.state = set(case.get("cells", {})) | set(case.get("pools", {}))
        self.subs = {}
        self.p_paren, self.p_brace, self.p_sub = rng.choice([0, 0.1, 0.4]), rng.choice([0.1, 0.6]), rng.choice([0, 0, 0.1])
        self.inbody = False
    def chance(self, p): return self.rng.random() < p
    def sp(self): return self.rng.choice(["", "", " "])

    # ---- types and data
    def type(self, t):
        k = t[0]
        if k in ir.PRIMS: return k
        if k in ("array", "map"): return "%s(%s)" % (k, self.type(t[1]))
        if k == "union":
            if len(t[1]) < 2: raise NotPretty("union")
            return "union(%s)" % ", ".join(self.type(x) for x in t[1])
        if k in ("rec", "enum", "fixed"): return t[1]
        raise NotPretty(k)
    def typedefs(self):
        out = []
        for n, d in self.D.items():
            if "fields" in d:
                if any(len(f) > 2 and f[2] != "ascending" for f in d["fields"]): raise NotPretty("order")
                fs = ["%s: %s" % (f[0], self.type(f[1])) for f in d["fields"]]
                out.append("record(%s)" % ", ".join([n] + fs if self.chance(0.7) else fs + [n]))
            elif "syms" in d: out.append("enum([%s], %s)" % (", ".join(d["syms"]), n))
            else: out.append("fixed(%d, %s)" % (d["n"], n))
        return out
    def string(self, s):
        if "'" not in s and "\n" not in s and self.chance(0.2): return "'%s'" % s
        return json.dumps(s)
    def number(self, x):
        return repr(x) if isinstance(x, float) else str(x)
    def data(self, x):
        if x is None: return "null"
        if x is True or x is False: return str(x).lower()
        if isinstance(x, (int, float)): return self.number(x)
        if isinstance(x, str): return self.string(x)
        if isinstance(x, list): return "[" + ", ".join(self.data(y) for y in x) + "]"
        return "{" + ", ".join("%s: %s" % (self.key(k), self.data(v)) for k, v in x.items()) + "}"
    def key(self, k):
        return k if NAME.match(k) and k not in RESERVED and self.chance(0.6) else json.dumps(k)

    # ---- expressions
    def at(self, e, level):
        """e where something that binds at least as tightly as level is needed"""
        text, prec = self.ex(e)
        if prec < level or self.chance(self.p_paren): text = "(%s)" % text
        return text
    def arg(self, e):
        k = e[0]
        if k == "fref":
            if not DOTNAME.match(e[1]) or (not e[1].startswith("u.") and e[1] not in FUNCTIONS): raise NotPretty("reference " + e[1])
            return e[1]
        if k == "fdef": return self.fdef(e)
        if k == "fill":
            if not DOTNAME.match(e[1]): raise NotPretty("fill")
            return "%s(%s)" % (e[1], ", ".join("%s: %s" % (n, self.arg(x)) for n, x in e[2]))
        if k in ("let", "set"): return "(%s)" % self.ex(e)[0]
        return self.at(e, CONTROL)
    def fdef(self, e):
        params = ", ".join("%s: %s" % (p, self.type(t)) for p, t in e[1])
        return "fcn(%s -> %s) %s" % (params, self.type(e[2]), self.body(e[3]))
    def body(self, es):
        """the contents of a branch, loop or function"""
        if len(es) == 1 and es[0][0] != "do" and not self.chance(self.p_brace):
            text, prec = self.ex(es[0])
            if prec > CONTROL: return text
        return self.block(es)
    def block(self, es):
        return "{" + self.seq(es) + self.rng.choice(["", ";"]) + "}"
    def seq(self, es):
        sep = self.rng.choice(["; ", ";", ";\n    ", " ;  // then\n    "])
        return sep.join(self.stmt(x) for x in es)
    def stmt(self, e):
        return self.at(e, CONTROL)
    def path(self, p):
        if any(x[0] in ("let", "set") for x in p): raise NotPretty("path")
        return "[%s]" % ", ".join(self.at(x, CONTROL) for x in p)
    def place(self, base, p):
        """base[path], with leading field names after dots now and then"""
        names, full = [], base
        while len(names) < len(p) and p[len(names)][0] == "str" and NAME.match(p[len(names)][1]) and self.chance(0.4):
            if full + "." + p[len(names)][1] in FUNCTIONS: break
            names.append(p[len(names)][1]); full = base + "." + ".".join(names)
        rest = p[len(names):]
        return full + (self.path(rest) if rest else "")
    def to(self, e, fcn):
        if fcn: return " to " + self.arg(e)
        text, prec = self.ex(e)
        return " = " + ("(%s)" % text if e[0] in ("let", "set") or self.chance(self.p_paren) else text)
    def assigns(self, ps):
        out = []
        for n, x in ps:
            text, prec = self.ex(x)
            if prec == CONTROL and (len(ps) > 1 or x[0] in ("let", "set")): text = "(%s)" % text
            out.append("%s = %s" % (n, text))
        return ", ".join(out)
    def binds(self, ps): return ", ".join("%s: %s" % (n, self.at(x, CONTROL + 1)) for n, x in ps)
    def plain(self, e):
        """may be given as a substitution: says nothing of cells, functions or named types"""
        if e[0] in ("null", "bool", "int", "str", "dbl"): return True
        if e[0] == "ref": return True
        return e[0] == "call" and all(x[0] not in ("fref", "fdef", "fill") and self.plain(x) for x in e[2])
    def ex(self, e):
        if self.plain(e) and e[0] == "call" and self.chance(self.p_sub):
            name = "s%d" % len(self.subs)
            self.subs[name] = None
            how = self.rng.random()
            if how < 0.4:
                keep, self.p_sub = self.p_sub, 0     # the text of a substitution has none of its own
                self.subs[name] = self.ex2(e)[0]
                self.p_sub = keep
            elif how < 0.7: self.subs[name] = ir.ex(e, ir.Ctx(self.D, self.rng))
            else: self.subs[name] = ("ast", ir.ex(e, ir.Ctx(self.D, self.rng)))
            return "<<%s>>" % name, ATOM
        return self.ex2(e)
    def ex2(self, e):
        k = e[0]
        if k == "null": return "null", ATOM
        if k == "bool": return ("true" if e[1] else "false"), ATOM
        if k == "int":
            if self.chance(0.1): return "int(%d)" % e[1], ATOM
            return str(e[1]), (PREC["u-"] if e[1] < 0 else ATOM)
        if k == "long": return "long(%d)" % e[1], ATOM
        if k in ("dbl", "flt"):
            x = ir.fval(e[1], e[2])
            if k == "flt": return "float(%s)" % self.number(x), ATOM
            if self.chance(0.1): return "double(%s)" % self.number(x), ATOM
            return self.number(float(x)), (PREC["u-"] if x < 0 else ATOM)
        if k == "str": return self.string(e[1]), ATOM
        if k == "lit":
            v = ir.js(e[2], e[1], self.D)
            if e[1][0] == "enum" and NAME.match(v) and self.chance(0.6): return "%s@%s" % (e[1][1], v), ATOM
            if e[1][0] == "bytes":
                import base64
                return 'bytes("%s")' % base64.b64encode(v.encode("latin-1")).decode(), ATOM
            return "json(%s, %s)" % (self.type(e[1]), self.data(v)), ATOM
        if k == "ref":
            if e[1] in self.state or e[1] in FUNCTIONS: raise NotPretty("name")
            return e[1], ATOM
        if k == "call":
            f, a = e[1], e[2]
            if f in INFIX and len(a) == 2:
                l = PREC[f]
                left = self.at(a[0], l if f not in LEVELS[4] else l + 1)
                return left + self.rng.choice([" %s ", " %s "] if f == "//" else [" %s ", "%s", " %s", "%s "]) % INFIX[f] + self.at(a[1], l + 1), l
            if f in ("!", "u-", "~") and len(a) == 1:
                if f == "u-" and a[0][0] in ("int", "dbl"):
                    if a[0][1] > 0 or self.plain(a[0]): raise NotPretty("the negative of a number")
                return {"u-": "-"}.get(f, f) + self.sp() + self.at(a[0], PREC[f]), PREC[f]
            if not DOTNAME.match(f): raise NotPretty("call of " + f)
            return "%s(%s)" % (f, (", " if self.chance(0.8) else ",").join(self.arg(x) for x in a)), ATOM
        if k == "callu": return "apply(%s)" % ", ".join(self.arg(x) for x in [e[1]] + e[2]), ATOM
        if k in ("newrec", "newmap"):
            if not e[2]:
                if k == "newmap": return "json(%s, {})" % self.type(e[1]), ATOM
                raise NotPretty("new")
            return "new(%s)" % ", ".join([self.type(e[1])] + ["%s: %s" % (self.key(n), self.arg(x)) for n, x in e[2]]), ATOM
        if k == "newarr":
            if not e[2]: return "json(%s, [])" % self.type(e[1]), ATOM
            return "new(%s)" % ", ".join([self.type(e[1])] + [self.arg(x) for x in e[2]]), ATOM
        if k == "do": return self.block(e[1]), ATOM
        if k == "let": return "var " + self.assigns(e[1]), CONTROL
        if k == "set":
            if any(n in self.state for n, x in e[1]): raise NotPretty("name")
            return self.assigns(e[1]), CONTROL
        if k in ("attr", "attrto"):
            if not e[2]: raise NotPretty("empty path")
            fcn = k == "attrto" and e[3][0] in ("fref", "fdef", "fill")
            if e[1][0] == "ref":
                self.ex(e[1])
                place = self.place(e[1][1], e[2])
            elif fcn: raise NotPretty("update of an expression by a function")
            elif k == "attrto" and len(e[2]) == 1 and e[2][0][0] == "str" and NAME.match(e[2][0][1]) and self.chance(0.3):
                return "update(%s, %s: %s)" % (self.arg(e[1]), e[2][0][1], self.arg(e[3])), ATOM
            else: place = self.at(e[1], ATOM) + self.path(e[2])
            return (place, ATOM) if k == "attr" else (place + self.to(e[3], fcn), CONTROL)
        if k == "cell": return (self.place(e[1], e[2]) if e[2] else e[1]), ATOM
        if k == "pool": return self.place(e[1], e[2]), ATOM
        if k == "cellto":
            fcn = e[3][0] in ("fref", "fdef", "fill")
            return (self.place(e[1], e[2]) if e[2] else e[1]) + self.to(e[3], fcn), CONTROL
        if k == "poolto":
            fcn = e[3][0] in ("fref", "fdef", "fill")
            if not fcn: return self.place(e[1], e[2]) + self.to(e[3], False), CONTROL
            return self.place(e[1], e[2]) + self.to(e[3] if e[3][0] != "fdef" else e[3], True) + " init " + self.at(e[4], CONTROL + 1), CONTROL
        if k == "pooldel": raise NotPretty(k)
        if k == "if": return "if (%s) %s" % (self.at(e[1], 0), self.body(e[2])), CONTROL
        if k == "ifelse": return "if (%s) %s else %s" % (self.at(e[1], 0), self.body(e[2]), self.body(e[3])), CONTROL
        if k in ("cond", "condelse"):
            text = " else ".join("if (%s) %s" % (self.at(p, 0), self.body(b)) for p, b in e[1])
            return text + (" else " + self.body(e[2]) if k == "condelse" else ""), CONTROL
        if k == "while": return "while (%s) %s" % (self.at(e[1], 0), self.body(e[2])), CONTROL
        if k == "until": return "do %s until (%s)" % (self.body(e[1]), self.at(e[2], 0)), CONTROL
        if k == "for": return "for (%s; %s; %s) %s" % (self.assigns(e[1]), self.at(e[2], 0), self.assigns(e[3]), self.body(e[4])), CONTROL
        if k == "foreach":
            seq = ", seq: true" if e[4] else self.rng.choice(["", ", seq: false"])
            return "foreach (%s: %s%s) %s" % (e[1], self.at(e[2], 0), seq, self.body(e[3])), CONTROL
        if k == "forkv": return "foreach (%s, %s: %s) %s" % (e[1], e[2], self.at(e[3], 0), self.body(e[4])), CONTROL
        if k == "cast":
            cases = " ".join("as(%s: %s) %s" % (n, self.type(t), self.body(b)) for t, n, b in e[2])
            partial = ", partial: true" if e[3] else self.rng.choice(["", "", ", partial: false"])
            return "cast (%s%s) {%s}" % (self.at(e[1], 0), partial, cases), CONTROL
        if k == "upcast": return "upcast(%s, %s)" % (self.type(e[2]), self.arg(e[1])), ATOM
        if k == "ifnn": return "ifnotnull (%s) %s" % (self.binds(e[1]), self.body(e[2])), CONTROL
        if k == "ifnnelse": return "ifnotnull (%s) %s else %s" % (self.binds(e[1]), self.body(e[2]), self.body(e[3])), CONTROL
        if k == "doc": return 'doc("a comment")', ATOM
        if k == "error": return "error(%s%s)" % (self.string(e[1]), ", code: %d" % e[2][1] if e[2][0] == "c" else ""), ATOM
        if k == "try":
            if e[2][0] == "all": return "try " + self.block(e[1]), CONTROL
            fs = ", ".join(self.string(x[1]) if isinstance(x[1], str) else str(x[1]) for x in e[2][1])
            return "try (%s) %s" % (fs, self.block(e[1])), CONTROL
        if k == "log":
            return "log(%s)" % ", ".join([self.arg(x) for x in e[1]] + (["namespace: " + self.string(e[2])] if e[2] else [])), ATOM
        raise NotPretty(k)

    def document(self):
        case, out = self.case, []
        def section(name, text): out.append("%s:%s%s" % (name, self.rng.choice([" ", "\n  ", "  // %s\n    " % name]), text))
        section("name", "Prog")
        section("input", self.type(case["in"]))
        section("output", self.type(case["out"]))
        if case["method"] != "map" or self.chance(0.3): section("method", case["method"])
        if self.D: section("types", ";\n  ".join(self.typedefs()))
        def exprs(name):
            if case.get(name): section(name, self.seq(case[name]) if len(case[name]) > 1 or case[name][0][0] != "do" else self.block(case[name]))
        for part in ("begin", "action", "end"): exprs(part)
        if case.get("fcns"): section("fcns", ";\n  ".join("%s = %s" % (f[0], self.fdef(["fdef"] + list(f[1:]))) for f in case["fcns"]) + self.rng.choice(["", ";"]))
        for part in ("cells", "pools"):
            if case.get(part):
                items = []
                for n, x in case[part].items():
                    init = ir.js(x["init"], x["t"], self.D) if part == "cells" else dict((k, ir.js(v, x["t"], self.D)) for k, v in x["init"].items())
                    opts = [("rollback", x["rb"]), ("shared", x.get("shared", False))]
                    opts = ["%s: %s" % (a, str(b).lower()) for a, b in opts if b or self.chance(0.3)]
                    t = self.type(x["t"])
                    args = [t] + opts if self.chance(0.5) else opts + ["type: " + t]
                    items.append("%s(%s) = %s" % (n, ", ".join(args), self.data(init)))
                section(part, ";\n  ".join(items))
        if case["method"] == "fold":
            section("zero", self.data(ir.js(case["zero"], case["out"], self.D)))
            exprs("merge")
        if case.get("version") is not None: section("version", str(case["version"]))
        if case.get("metadata"): section("metadata", self.data(dict(case["metadata"])))
        if case.get("options"): section("options", self.data(dict(case["options"])))
        if case.get("randseed") is not None: section("randseed", str(case["randseed"]))
        head, rest = out[0], out[1:]
        self.rng.shuffle(rest)
        text = "\n".join([head] + rest)
        if self.chance(0.1): text = text.replace("\n", "\r\n")
        if self.chance(0.2): text += "\n"
        return text

def direct(e):
    """what PrettyPFA can say: an assignment to a pool item without a function starts a missing item from the same expression"""
    if isinstance(e, list):
        if e and e[0] == "poolto" and len(e) == 5 and e[3][0] not in ("fref", "fdef", "fill"):
            if len(e[2]) != 1: raise NotPretty("deep assignment to a pool")
            return ["poolto", e[1], direct(e[2]), direct(e[3]), direct(e[3])]
        if e and e[0] == "pooldel": return ["do", [direct(e[2]), ["null"]]]
        if e and e[0] == "attrto" and e[1][0] != "ref" and e[3][0] in ("fref", "fdef", "fill"):   # the base gets a name
            n = "base%d" % id(e)
            return ["do", [["let", [[n, direct(e[1])]]], ["attrto", ["ref", n], direct(e[2]), direct(e[3])]]]
        return [direct(x) for x in e]
    if isinstance(e, tuple): return tuple(direct(x) for x in e)
    return e
