"""Run engines that share cells and pools under chosen thread schedules; record what each thread saw.
usage: drv_conc.py KIND SEED COUNT OUT"""
import sys, os, json, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sched
sched.install()
import ir, conc
import titus.genpy
from titus.genpy import SharedState
FILES = set(["<string>", titus.genpy.__file__, titus.genpy.__file__.replace(".pyc", ".py")])

def one(case, rng):
    D = case["D"]
    rec = ir.header(case)
    rec.update({"threads": [], "stuck": False, "final": {}, "shared": sorted(n for n, x in list(case["cells"].items()) + list(case["pools"].items()) if x.get("shared"))})
    n = len(case["threads"])
    doc = ir.document(case, rng)
    if case["oneshare"]:
        status, es = ir.load(json.loads(json.dumps(doc)), multiplicity=n)
        rec["load"] = status
    else:
        share, es = SharedState(), []
        for i in range(n):
            rec["load"], e = ir.load(json.loads(json.dumps(doc)), sharedState=share)
            if rec["load"] != "ok":
                es = e
                break
            es += e
    if rec["load"] != "ok":
        rec["msg"] = es
        return rec
    clock = [0]
    def tick():
        clock[0] += 1
        return clock[0]
    s = sched.Sched(rng, case["switch"], FILES)
    def body(i):
        e, out = es[i], []
        rec["threads"].append(out)
        def run():
            for v in case["threads"][i]:
                act = {"in": v, "ops": [], "out": ["n"], "t0": tick(), "t1": 0}
                out.append(act)
                logs = []
                def log(vals, ns):
                    logs.append([[ir.enc(x, None, D) for x in vals], "" if ns is None else ns])
                    if ns == "op":
                        act["ops"].append({"log": list(logs), "t": tick()})
                        del logs[:]
                    s.point()
                e.log = log
                s.point()
                try: act["out"] = ir.outcome(lambda: e.action(ir.js(v, case["in"], D)), case["out"], D)
                except sched.Stuck:
                    act["out"] = ["stuck"]
                    raise
                if act["out"][0] != "v": act["ops"].append({"log": list(logs), "t": tick()})
                act["t1"] = tick()
                s.point()
        return run
    s.run([body(i) for i in range(n)])
    rec["stuck"] = s.stuck
    if not s.stuck:
        rec["final"] = [dict(zip(("cells", "pools"), ir.state_of(e, case))) for e in es]
    rec["switches"] = s.switches
    return rec

def main():
    kind, seed, count, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    with open(out, "w") as f:
        for i in range(count):
            rng = random.Random("conc/%s/%s/%d" % (kind, seed, i))
            case = conc.case(rng, kind)
            case["id"] = "conc/%s/%s/%d" % (kind, seed, i)
            f.write(json.dumps(one(case, rng)) + "\n")
main()
