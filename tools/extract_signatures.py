"""One-off transcription aid: writes spec/signatures.json (committed, frozen).

The table is the specification's own copy of the documented signatures; the
checks never regenerate it from the code under test."""
import sys, json, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, '/repo')
import titus.P as P, titus.signature as S
import titus.pfaast as ast
def pat(p):
    n = type(p).__name__.replace("Avro", "")
    prim = {"Null":"null","Boolean":"boolean","Int":"int","Long":"long","Float":"float","Double":"double","Bytes":"bytes","String":"string"}
    if n in prim: return [prim[n]]
    if n == "Array": return ["array", pat(p.items)]
    if n == "Map": return ["map", pat(p.values)]
    if n == "Union": return ["union", [pat(x) for x in p.types]]
    if n == "Fcn": return ["fcn", [pat(x) for x in p.params], pat(p.ret)]
    if n == "Wildcard": return ["wild", p.label, [pat(x) for x in sorted(p.oneOf or [], key=repr)]]
    if n == "WildRecord": return ["wrec", p.label, [[k, pat(v)] for k, v in sorted(p.minimalFields.items())]]
    if n == "WildEnum": return ["wenum", p.label]
    if n == "WildFixed": return ["wfixed", p.label]
    if n == "EnumFields": return ["efields", p.label, p.wildRecord]
    raise Exception(n)
def life(s):
    l = getattr(s, "lifespan", None)
    if l is None: return [-1, -1, -1]
    f = lambda v: -1 if v is None else v.major*10000+v.minor*100+v.release
    return [f(l.birth), f(l.deprecation), f(l.death)]
out = {}
for k, f in sorted(ast.FunctionTable.blank().functions.items()):
    sg = f.sig
    cases = sg.cases if isinstance(sg, S.Sigs) else [sg]
    out[k] = [{"params": [pat(list(p.values())[0]) for p in c.params], "names": [list(p.keys())[0] for p in c.params], "ret": pat(c.ret), "life": life(c)} for c in cases]
with open('/verif/spec/signatures.json', 'w') as fo:
    fo.write("{\n" + ",\n".join(json.dumps(k)+": "+json.dumps(v) for k, v in out.items()) + "\n}\n")
