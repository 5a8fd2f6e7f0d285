"""Load documents with arbitrary call graphs and ask the engines about them.
usage: drv_graph.py KIND SEED COUNT OUT"""
import sys, os, json, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir, graphs

def observe(e):
    out = {}
    for n in e.callGraph:
        d = e.callDepth(n)
        out[n] = {"calls": sorted(e.callGraph[n]), "reach": sorted(e.calledBy(n)), "rec": bool(e.isRecursive(n)), "hasrec": bool(e.hasRecursive(n)),
                  "fx": bool(e.hasSideEffects(n)), "depth": -1 if d == float("inf") else int(d)}
    return out

def main():
    kind, seed, count, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    with open(out, "w") as f:
        for i in range(count):
            rng = random.Random("graph/%s/%s/%d" % (kind, seed, i))
            case = getattr(graphs, kind)(rng, i)
            case["id"] = "graph/%s/%s/%d" % (kind, seed, i)
            rec = ir.header(case)
            doc = ir.document(case, rng)
            status, es = ir.load(json.loads(json.dumps(doc)))
            rec["load"], rec["graph"], rec["msg"] = status, {}, ""
            if status == "ok": rec["graph"] = observe(es[0])
            else: rec["msg"], rec["doc"] = es, json.dumps(doc)
            f.write(json.dumps(rec) + "\n")
main()
