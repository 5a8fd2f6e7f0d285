"""Documents as text, YAML, trees and syntax trees: read, written, read again, run; and damaged documents.
usage: drv_read.py whole|broken SEED COUNT OUT"""
import sys, os, json, random, signal, copy
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir, profiles
from drv_prog import cut, alarm, Hang
import titus.errors as TE
from titus.reader import jsonToAst, yamlToAst
from titus.genpy import PFAEngine
import yaml

def spec(x):
    if x is None: return ["jn"]
    if isinstance(x, bool): return ["jb", x]
    if isinstance(x, int): return ["ji", ir.enc_num(x)]
    if isinstance(x, float): return ["jd", ir.enc_num(x)]
    if isinstance(x, str):
        e = ir.enc_str(x)
        return ["js", e[1], [ord(c) for c in x], True] if e[0] == "s" else ["js", "", e[1], False]
    if isinstance(x, (list, tuple)): return ["ja", [spec(y) for y in x]]
    return ["jo", [[k, spec(y)] for k, y in x.items() if k != "@"]]   # "@" says where a thing was, and means nothing

TYPEKEYS = {"type", "as", "ret", "input", "output"}
def places(x, at=(), out=None, params=False):
    """Where the document may be changed: not inside types and embedded values."""
    if out is None: out = []
    if isinstance(x, dict):
        for k, y in x.items():
            p = at + (k,)
            out.append(p)
            if params: continue
            if k in TYPEKEYS or k in ("value", "zero") or (k == "init" and "pool" not in x): continue
            places(y, p, out, False)
    elif isinstance(x, list):
        for k, y in enumerate(x):
            out.append(at + (k,))
            places(y, at + (k,), out, bool(at) and at[-1] == "params")
    return out

def get(x, p):
    for k in p: x = x[k]
    return x

FORMS = ["args", "as", "attr", "base64", "call", "cases", "cast", "cell", "code", "cond", "del", "do", "doc", "double", "else", "error", "fcn", "fill", "filter", "float",
         "for", "foreach", "forkey", "format", "forval", "if", "ifnotnull", "in", "init", "int", "let", "log", "long", "namespace", "new", "pack", "params",
         "partial", "path", "pool", "ret", "seq", "set", "step", "string", "then", "to", "try", "type", "unpack", "until", "upcast", "value", "while", "named", "named"]
TOP = ["name", "method", "input", "output", "begin", "action", "end", "fcns", "zero", "merge", "cells", "pools", "randseed", "doc", "version", "metadata", "options"]
def junk(rng):
    return copy.deepcopy(rng.choice([None, True, False, 0, 3, -1, 2**31, -2**31, 2**31 - 1, 2**63, 2**63 - 1, -2**63 - 1, 2.5, 3.0, "x", "x.y", "x.2", "", "1a", "a b", "x\n", "_x", "x-y", "a.1b", "int", "map", "fold", "emit", "u.f", "u.f1", "embedded",
        [], {}, ["s"], ["s", "t"], [3], [None], [[]], {"int": 3}, {"int": True}, {"int": 2**31}, {"int": 1.0}, {"long": 2**63}, {"double": "x"}, {"double": False}, {"float": 2}, {"string": "s"}, {"string": 3}, {"base64": "AAAA"}, {"base64": "!"}, {"base64": 3},
        {"fcn": "u.f"}, {"fcn": "f-g"}, {"fcn": "u.f", "fill": {"x": 3}}, {"fcn": "u.f", "fill": {}}, {"params": [], "ret": "int", "do": 3}, {"params": [{"x": "int"}], "ret": "int", "do": ["x"]}, {"params": [{"x": "int", "y": "int"}], "ret": "int", "do": "x"},
        {"params": [], "ret": "int", "do": []}, {"do": []}, {"do": 3}, {"let": {}}, {"let": {"x": 3}}, {"set": {}}, {"x": 3}, {"+": [1, 2]}, {"do": [1, 2]}, {"error": "x"}, {"error": "x", "code": 3}, {"error": "x", "code": True}, {"error": "x", "code": 2**31}, {"error": 3},
        {"try": 3}, {"try": []}, {"try": 3, "filter": []}, {"try": 3, "filter": ["x", -4]}, {"try": 3, "filter": [True]}, {"try": 3, "filter": "x"}, {"try": 3, "filter": [2.5]}, {"log": []}, {"log": 3, "namespace": "x"}, {"log": 3, "namespace": 3},
        {"if": True, "then": 3}, {"if": True, "then": []}, {"if": True, "then": 3, "else": []}, {"cond": []}, {"cond": [{"if": True, "then": 3}]}, {"cond": [{"if": True, "then": 3, "else": 3}]}, {"cond": [3]}, {"cond": [{"if": True, "then": 3}], "else": []},
        {"cond": {"if": True, "then": 3}}, {"while": True, "do": []}, {"do": [], "until": True}, {"for": {}, "while": True, "step": {"x": 3}, "do": 3}, {"for": {"x": 3}, "while": True, "step": {"x": 3}, "do": []}, {"foreach": "x", "in": "y", "do": 3},
        {"foreach": "x-y", "in": "y", "do": 3}, {"foreach": "x", "in": "y", "do": 3, "seq": 0}, {"foreach": 3, "in": "y", "do": 3}, {"forkey": "x", "forval": "1", "in": "y", "do": 3}, {"forkey": "x.y", "forval": "v", "in": "y", "do": 3}, {"forkey": "x", "forval": "v", "in": "y", "do": 3},
        {"cast": 3, "cases": []}, {"cast": 3, "cases": {}}, {"cast": 3, "cases": [{"as": "int", "named": "x", "do": 3}]}, {"cast": 3, "cases": [{"as": "int", "named": "x.y", "do": 3}]}, {"cast": 3, "cases": [{"as": "int", "do": 3}]}, {"cast": 3, "cases": [{"as": "int", "named": "x", "do": 3, "x": 3}]},
        {"cast": 3, "cases": [{"as": "int", "named": "x", "do": []}], "partial": True}, {"cast": 3, "cases": [], "partial": 1}, {"upcast": 3, "as": "double"}, {"ifnotnull": {}, "then": 3}, {"ifnotnull": {"x": 3}, "then": 3}, {"ifnotnull": {"x": 3}, "then": []}, {"ifnotnull": 3, "then": 3},
        {"pack": []}, {"pack": [{"int": 3}]}, {"pack": {"int": 3}}, {"pack": [{"int": 3, "long": 4}]}, {"pack": [3]}, {"unpack": "x", "format": [], "then": 3}, {"doc": "x"}, {"doc": 3}, {"call": "x", "args": []}, {"call": "x", "args": 3}, {"call": "x", "args": [{"fcn": "u.f"}]},
        {"attr": "x", "path": []}, {"attr": "x", "path": [["y"]]}, {"attr": "x", "path": [["y"]], "to": {"fcn": "u.f"}}, {"cell": "x"}, {"cell": "x", "path": []}, {"cell": 3}, {"cell": "x", "to": {"params": [], "ret": "int", "do": 3}}, {"pool": "x"}, {"pool": "x", "path": []}, {"pool": "x", "path": [["y"]]},
        {"pool": "x", "path": [["y"]], "to": 3}, {"pool": "x", "path": [["y"]], "to": 3, "init": 3}, {"pool": "x", "del": ["y"]}, {"del": ["y"]}, {"del": 3}, {"init": 3}, {"new": {}, "type": "int"}, {"new": [], "type": {"type": "array", "items": "int"}}, {"new": 3, "type": "int"}, {"new": [3]}, {"type": "int"},
        {"type": "int", "value": 3}, {"value": 3}, {"type": "int", "init": 3}, {"type": "int", "init": 3, "shared": True, "rollback": True}, {"type": "int", "init": 3, "shared": 1}, {"type": "int", "init": {}, "x": 3}, {"type": "int", "init": {}, "source": "embedded"}, {"type": "int", "init": 3, "source": "other"}, {"type": "int", "init": 3, "source": 3}, {"x": {"type": "int", "init": 3}}, {"x": {"type": "int"}}, {"1": {"type": "int", "init": 3}}, {"x": "y"}, {"x": 3}]))

def damage(rng, doc):
    doc = copy.deepcopy(doc)
    for _ in range(20):
        ps = places(doc)
        p = rng.choice(ps)
        inside = get(doc, p[:-1])
        k = rng.random()
        if k < 0.1 and rng.random() < 0.5: p, inside = (rng.choice(list(doc)),), doc
        if k < 0.35:
            inside[p[-1]] = junk(rng)
            return doc
        if k < 0.5:
            del inside[p[-1]]
            return doc
        if isinstance(inside, dict) and k < 0.65:
            new = rng.choice(TOP if len(p) == 1 and rng.random() < 0.8 else FORMS + ["x", "u.f", "foo"])
            if new in inside: continue
            for key, y in list(inside.items()):   # in place, keeping the order
                del inside[key]
                inside[new if key == p[-1] else key] = y
            return doc
        if isinstance(inside, dict) and k < 0.8:
            new = rng.choice(TOP if len(p) == 1 and rng.random() < 0.8 else FORMS + ["x"])
            if new in inside: continue
            inside[new] = junk(rng)
            return doc
        if isinstance(inside, list) and k < 0.8:
            inside.insert(rng.randint(0, len(inside)), junk(rng))
            return doc
        x = inside[p[-1]]
        if isinstance(x, list) and k < 0.9:
            inside[p[-1]] = [] if rng.random() < 0.5 else x[0] if len(x) == 1 else x[:1]
            return doc
        inside[p[-1]] = [x] if k < 0.95 else {"do": x}
        return doc
    return doc

def locate(rng, x):
    """The same document with marks of where things were."""
    if isinstance(x, dict):
        items = [(k, locate(rng, y)) for k, y in x.items()]
        if rng.random() < 0.4: items.insert(rng.randint(0, len(items)), ("@", "line %d" % rng.randint(1, 99)))
        return dict(items)
    if isinstance(x, list): return [locate(rng, y) for y in x]
    return x

def dots(rng, x):
    """Paths of names written with dots, here and there."""
    if isinstance(x, dict):
        x = dict((k, dots(rng, y)) for k, y in x.items())
        if set(x) == {"attr", "path"} and isinstance(x["attr"], str) and "." not in x["attr"] and rng.random() < 0.6:
            words = []
            for y in x["path"]:
                if isinstance(y, dict) and set(y) == {"int"}: y = y["int"]
                if isinstance(y, dict) and set(y) == {"string"}: y = [y["string"]]
                if isinstance(y, int) and not isinstance(y, bool) and y >= 0: words.append(str(y))
                elif isinstance(y, list) and len(y) == 1 and y[0].isalpha() and y[0].isascii(): words.append(y[0])
                else: return x
            if words: return ".".join([x["attr"]] + words)
        return x
    if isinstance(x, list): return [dots(rng, y) for y in x]
    return x

def shuffled(rng, x):
    """The same document with its fields in another order (the order of declarations in a let matters, and is kept as written)."""
    if isinstance(x, dict):
        items = [(k, y if k in TYPEKEYS or k in ("value", "zero") else shuffled(rng, y)) for k, y in x.items()]
        if rng.random() < 0.7: rng.shuffle(items)
        return dict(items)
    if isinstance(x, list): return [shuffled(rng, y) for y in x]
    return x

def vary(rng, doc):
    """Defaults left out or written out, other names and descriptions."""
    if doc["method"] == "map" and rng.random() < 0.5: del doc["method"]
    doc["name"] = rng.choice(["Prog", "Other", "x", "a.1b", "My Model", "class", "a-b", "inf", "NaN", "yes", "null", "Off", "~", "3", "1e5"])
    for part in ("cells", "pools"):
        for c in doc.get(part, {}).values():
            for k in ("rollback", "shared"):
                if c[k] is False and rng.random() < 0.4: del c[k]
            if rng.random() < 0.2: c["source"] = "embedded"
            if part == "pools" and c["init"] == {} and rng.random() < 0.5: del c["init"]
    for part in ("begin", "end"):
        if part not in doc and rng.random() < 0.1: doc[part] = []
    for part in ("fcns", "cells", "pools", "metadata", "options"):
        if part not in doc and rng.random() < 0.1: doc[part] = {}
    if rng.random() < 0.1: doc["doc"] = "what it does"
    if rng.random() < 0.1 and "randseed" not in doc: doc["randseed"] = rng.choice([0, 12345, -3, 2**63 - 1])
    if rng.random() < 0.3: doc = shuffled(rng, doc)
    return doc

class Dumper(yaml.SafeDumper): pass
def string(dumper, x):
    # what YAML 1.2 takes for a number is quoted (the library follows YAML 1.1)
    return dumper.represent_scalar("tag:yaml.org,2002:str", x, style="'" if x[:1] in "+-.0123456789" and x != "-" else None)
Dumper.add_representer(str, string)
def asyaml(rng, x):
    return yaml.dump(x, Dumper=Dumper, sort_keys=False, default_flow_style=rng.choice([None, False, True]), width=rng.choice([40, 80, 1000]))

def whole(rng, rec, case, doc):
    """Read and write the document in every way; run it as built in one of them."""
    rec["again"], rec["flags"] = [], []
    def flag(what, ok): rec["flags"].append([what, bool(ok)])
    text = json.dumps(doc)
    try:
        e, = PFAEngine.fromJson(json.loads(text))
        ast = jsonToAst(text)
        ways = {"text": lambda: PFAEngine.fromJson(text), "tree": lambda: PFAEngine.fromJson(json.loads(text)), "ast": lambda: PFAEngine.fromAst(jsonToAst(json.loads(text))),
                "file": lambda: PFAEngine.fromJson(__import__("io").StringIO(text))}
        marked = locate(rng, doc)
        ways["marked"] = lambda: PFAEngine.fromJson(copy.deepcopy(marked))
        flag("differs with locators", jsonToAst(copy.deepcopy(marked)) == ast)
        y = asyaml(rng, doc)
        rec["yaml"] = y
        flag("differs from YAML", yamlToAst(y) == ast)
        ways["yaml"] = lambda: PFAEngine.fromYaml(y)
        written = ast.toJson(lineNumbers=rng.random() < 0.5)
        rec["again"].append(["toJson", spec(json.loads(written))])
        again = jsonToAst(written)
        flag("reread differs", again == ast)
        flag("second writing differs", json.loads(again.toJson(lineNumbers=False)) == plain(json.loads(written)))
        flag("writing changes it", json.loads(ast.toJson(lineNumbers=False)) == plain(json.loads(written)))
        ways["rewritten"] = lambda: PFAEngine.fromJson(written)
        ways["rewritten tree"] = lambda: PFAEngine.fromJson(json.loads(written))
        ways["rewritten ast"] = lambda: PFAEngine.fromAst(again)
        conf = e.config.toJson(lineNumbers=rng.random() < 0.5)
        rec["again"].append(["config", spec(json.loads(conf))])
        ways["config"] = lambda: PFAEngine.fromJson(conf)
        yy = yamlToAst(asyaml(rng, json.loads(written))).toJson(lineNumbers=False)
        rec["again"].append(["yaml", spec(json.loads(yy))])
        rec["way"] = rng.choice(sorted(ways))
        e, = ways[rec["way"]]()
        run = ir.Runner(e, case, rec)
        for s in case["steps"]: run.step(s)
        run.close()
    except (TE.PFASyntaxException, TE.PFASemanticException, TE.PFAInitializationException) as x:
        rec["load"], rec["msg"] = "refused on the way", type(x).__name__ + ": " + str(x)[:200]
    except Exception as x:
        if os.environ.get("VERIF_DEBUG"): raise
        rec["load"], rec["msg"] = "crash", type(x).__name__ + ": " + str(x)[:200]

def plain(x):
    if isinstance(x, dict): return dict((k, plain(y)) for k, y in x.items() if k != "@")
    if isinstance(x, list): return [plain(y) for y in x]
    return x

KINDS = ["general", "general", "control", "scopes", "errors", "paths", "lifecycle", "rollback"]
def main():
    signal.signal(signal.SIGALRM, alarm)
    kind, seed, count, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    with open(out, "w") as f:
        done = 0
        i = -1
        while done < count:
            i += 1
            rng = random.Random("read/%s/%s/%d" % (kind, seed, i))
            case = next(iter(profiles.PROFILES[rng.choice(KINDS)](rng, i)))
            if case.get("instances", 1) != 1: continue
            if kind == "broken" and (case["D"] or len(json.dumps(case["action"])) > 3000): continue
            case.pop("snapshot", None)
            case["id"] = "read/%s/%s/%d" % (kind, seed, i)
            case["D"] = dict((n, dict(d, k="rec" if d["k"] == "record" else d["k"])) for n, d in case["D"].items())
            done += 1
            rec = ir.header(case)
            rec["kind"], rec["again"], rec["flags"], rec["yaml"], rec["way"] = kind, [], [], "", ""
            signal.alarm(30)
            try:
                doc = vary(rng, dots(rng, ir.document(case, rng)))
                if kind == "broken":
                    recs = []
                    for k in range(6):
                        r = dict(rec, id=rec["id"] + "/%d" % k)
                        d = damage(rng, doc)
                        if rng.random() < 0.3: d = damage(rng, d)
                        if rng.random() < 0.02:
                            d = junk(rng)
                            if isinstance(d, str): d = [d]   # a string would be taken as the text
                        r["doc"] = spec(d)
                        r["load"], r["msg"] = ir.load(json.loads(json.dumps(d)))
                        if r["load"] == "ok": r["msg"] = ""
                        if r["load"] == "crash" and r["msg"].startswith(("SchemaParseException", "AvroException")): r["load"] = "type"
                        recs.append(r)
                else:
                    rec["doc"] = spec(doc)
                    rec["load"], es = ir.load(json.loads(json.dumps(doc)))
                    if rec["load"] == "ok": whole(rng, rec, case, doc)
                    else: rec["msg"] = es
                    recs = [cut(rec)]
            except Hang: recs = [{"id": case["id"], "harness": "no answer within 30 s"}]
            except Exception as x:
                if os.environ.get("VERIF_DEBUG"): raise
                recs = [{"id": case["id"], "harness": type(x).__name__ + ": " + str(x)[:300]}]
            finally: signal.alarm(0)
            for r in recs: f.write(json.dumps(r) + "\n")
if __name__ == "__main__": main()
