"""Rows of PrettyPFA tokens and the tree the parser makes of them.
usage: drv_tokens.py MODE SEED COUNT OUT      MODE: spelled | damaged"""
import sys, os, json, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
import titus.prettypfa as PP
import titus.errors as TE

BIN = ["||", "^^", "&&", "==", "!=", "<", "<=", ">", ">=", "|", "^", "&", "+", "-", "*", "/", "idiv", "%", "%%", "**"]
NAMES = ["x", "y", "zeta", "w1"]
P = lambda s: ["p", s]

class Gen:
    def __init__(self, rng): self.r = rng
    def name(self): return ["x", [self.r.choice(NAMES)]]
    def field(self): return ["x", [self.r.choice(NAMES)] + [self.r.choice(["f", "g", "len2"]) for _ in range(self.r.randint(1, 2))]]
    def many(self, d, sep, lo, hi):
        out = []
        for k in range(self.r.randint(lo, hi)): out += ([P(sep)] if k else []) + self.expr(d - 1)
        return out
    def expr(self, d, plain=False):
        r = self.r
        if d <= 0: return [r.choice([self.name(), ["n", r.choice([0, 1, 2, 7, 10, 2147483647])]])] if plain or r.random() < 0.9 else [self.field()]
        x = r.random()
        if x < 0.5: return self.expr(d - 1, plain) + [P(r.choice(BIN))] + self.expr(d - 1, plain)
        if x < 0.62: return [P(r.choice(["-", "-", "!", "~"]))] + self.expr(d - 1, plain)
        if x < 0.72 or plain: return [P("(")] + self.expr(d - 1, plain) + [P(")")]
        if x < 0.78: return [["x", r.choice([["f"], ["u", "f"], ["m", "sqrt"], ["a", "len"]])], P("(")] + self.many(d, ",", 0, 3) + [P(")")]
        if x < 0.84: return r.choice([self.name, self.name, self.field])() and [r.choice([self.name(), self.field()])] + [P("[")] + self.many(d, ",", 1, 2) + [P("]")] + (([P("[")] + self.many(d, ",", 1, 1) + [P("]")]) if r.random() < 0.3 else [])
        if x < 0.87: return [P("(")] + self.expr(d - 1) + [P(")"), P("[")] + self.many(d, ",", 1, 2) + [P("]")] + ([P("=")] + self.expr(d - 1) if r.random() < 0.3 else [])
        if x < 0.9: return [r.choice([self.name(), self.field()]), P("=")] + self.expr(d - 1)
        if x < 0.92: return [self.name(), P("[")] + self.many(d, ",", 1, 1) + [P("]"), P("=")] + self.expr(d - 1)
        if x < 0.94: return [P("var"), self.name(), P("=")] + self.expr(d - 1)
        if x < 0.97: return [P("{")] + self.many(d, ";", 1, 3) + ([P(";")] if r.random() < 0.3 else []) + [P("}")]
        return [P("if"), P("(")] + self.expr(d - 1) + [P(")")] + self.expr(d - 1) + ([P("else")] + self.expr(d - 1) if r.random() < 0.7 else [])

def text(tokens, r):
    out, word = "", False
    for t in tokens:
        s = str(t[1]) if t[0] == "n" else ".".join(t[1]) if t[0] == "x" else t[1]
        isword = s[0].isalnum() or s[0] == "_"
        glued = out and not (word and isword) and not (out[-1] in "<>=!*%&|^-~/" and s[0] in "<>=!*%&|^-~/>")
        out += ("" if not out else "" if glued and r.random() < 0.5 else r.choice([" ", " ", "\n  ", "\t"])) + s
        word = isword
    return out

def tree(j):
    """the JSON form of an expression -> tree"""
    if isinstance(j, bool) or j is None: return ["other"]
    if isinstance(j, int): return ["int", j]
    if isinstance(j, float): return ["other"]
    if isinstance(j, str): return ["ref", j]
    if isinstance(j, list): return ["str", j[0]] if len(j) == 1 and isinstance(j[0], str) else ["other"]
    j = dict((k, v) for k, v in j.items() if k != "@")
    k = set(j)
    many = lambda x: [tree(y) for y in x] if isinstance(x, list) and not (len(x) == 1 and isinstance(x[0], str) and False) else [tree(x)]
    if k == {"string"}: return ["str", j["string"]]
    if k == {"int"}: return ["int", j["int"]]
    if k == {"attr", "path"}: return ["attr", tree(j["attr"]), many(j["path"])]
    if k == {"attr", "path", "to"}: return ["attrto", tree(j["attr"]), many(j["path"]), tree(j["to"])]
    if k == {"set"} and len(j["set"]) == 1: return ["set", list(j["set"])[0], tree(list(j["set"].values())[0])]
    if k == {"let"} and len(j["let"]) == 1: return ["let", list(j["let"])[0], tree(list(j["let"].values())[0])]
    if k == {"do"}: return ["do", many(j["do"])]
    if k in ({"if", "then"}, {"if", "then", "else"}): return ["if", [tree(j["if"]), many(j["then"])], many(j["else"]) if "else" in j else []]
    if k in ({"cond"}, {"cond", "else"}):
        flat = []
        for b in j["cond"]: flat += [tree(b["if"]), many(b["then"])]
        return ["if", flat, many(j["else"]) if "else" in j else []]
    if len(k) == 1:
        (f, a), = j.items()
        return ["call", f, many(a)]
    return ["other"]

def main():
    mode, seed, count, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    with open(out, "w") as f:
        for n in range(count):
            r = random.Random("tokens/%s/%s/%d" % (mode, seed, n))
            g = Gen(r)
            if mode == "spelled": toks = g.expr(r.choice([2, 3, 3, 4, 5]))
            else:
                toks = g.expr(r.choice([2, 3]), plain=True)
                for _ in range(r.choice([0, 1, 1, 2])):
                    k = r.randrange(len(toks))
                    y = r.random()
                    if y < 0.4: toks = toks[:k] + toks[k+1:] or toks
                    elif y < 0.7: toks = toks[:k] + [r.choice([P(r.choice(BIN)), P("("), P(")"), P("!"), P("~"), g.name(), ["n", 3]])] + toks[k:]
                    else: toks[k] = P(r.choice(BIN)) if toks[k][0] == "p" else toks[k]
            if len(toks) > 120: toks = [["n", 1]]
            s = text(toks, r)
            try: got = ["tree", tree(json.loads(json.dumps(PP.ppfa(s).jsonNode(False, set()))))]
            except (TE.PrettyPfaException, TE.PFASyntaxException) as x: got = ["refused", str(x)[:200]]
            except Exception as x: got = ["crash", type(x).__name__ + ": " + str(x)[:200]]
            f.write(json.dumps({"id": "tokens/%s/%s/%d" % (mode, seed, n), "tokens": toks, "got": got, "doc": s}) + "\n")
if __name__ == "__main__": main()
