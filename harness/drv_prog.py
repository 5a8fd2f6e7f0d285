"""Generate programs, run them in the engine, write the records to be judged.
usage: drv_prog.py PROFILE SEED COUNT OUT"""
import sys, os, json, random, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir, gen, profiles

class Hang(BaseException): pass
def alarm(*a): raise Hang()

def cut(rec):
    """Keep the steps before the first that ran out of time: the specification has a smaller budget than the engine."""
    for i, s in enumerate(rec.get("steps", [])):
        if s[2][0] == "timeout":
            rec["steps"] = rec["steps"][:i]
            break
    return rec

def main():
    signal.signal(signal.SIGALRM, alarm)
    profile, seed, count, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    with open(out, "w") as f:
        for i in range(count):
            rng = random.Random("%s/%s/%d" % (profile, seed, i))
            for j, case in enumerate(profiles.PROFILES[profile](rng, i)):
                case.setdefault("id", "%s/%s/%d" % (profile, seed, i) + ("/%d" % j if j else ""))
                signal.alarm(20)
                try:
                    recs = ir.run_case(case, rng)
                    if case.get("options", {}).get("timeout") and not case.get("keeptimeouts"): recs = [cut(rec) for rec in recs]
                except Hang:
                    recs = [{"id": case["id"], "harness": "no answer within 20 s"}]
                except Exception as x:
                    if os.environ.get("VERIF_DEBUG"): raise
                    recs = [{"id": case["id"], "harness": type(x).__name__ + ": " + str(x)[:300]}]
                finally:
                    signal.alarm(0)
                for rec in recs: f.write(json.dumps(rec) + "\n")
if __name__ == "__main__": main()
