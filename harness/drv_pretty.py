"""Programs written in PrettyPFA, converted and run; judged as the programs they spell.
usage: drv_pretty.py PROFILE SEED COUNT OUT"""
import sys, os, json, random, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir, gen, profiles, pretty
import titus.prettypfa as PP
import titus.errors as TE
from drv_prog import alarm, cut, Hang

def run(case, rng):
    for part in ("begin", "action", "end", "merge", "fcns"):
        if case.get(part): case[part] = pretty.direct(case[part])
    w = pretty.Writer(case, rng)
    text = w.document()
    subs = dict((k, PP.pfa(v[1]) if isinstance(v, tuple) else v) for k, v in w.subs.items())
    how = rng.random()
    def load():
        if how < 0.5: return PP.engine(text, subs=subs)
        if how < 0.75: return titus.genpy.PFAEngine.fromJson(json.loads(json.dumps(PP.jsonNode(text, lineNumbers=rng.random() < 0.5, check=rng.random() < 0.5, subs=subs))))
        return titus.genpy.PFAEngine.fromJson(PP.json(text, lineNumbers=rng.random() < 0.5, check=False, subs=subs))
    import titus.genpy
    rec = ir.header(case)
    try: es = load(); status = "ok"
    except TE.PFASyntaxException as x: status, es = "syntax", str(x)[:300]
    except TE.PFASemanticException as x: status, es = "sem", str(x)[:300]
    except TE.PFAInitializationException as x: status, es = "init", str(x)[:300]
    except TE.PrettyPfaException as x: status, es = "pretty", str(x)[:300]
    except Exception as x: status, es = "crash", type(x).__name__ + ": " + str(x)[:300]
    rec["load"] = status
    if status != "ok" or case.get("keepdoc"): rec["doc"], rec["msg"] = text, es if status != "ok" else ""
    else: rec["doc"] = text
    if status != "ok": return [rec]
    r = ir.Runner(es[0], case, rec)
    for s in case["steps"]: r.step(s)
    return [r.close()]

def main():
    signal.signal(signal.SIGALRM, alarm)
    profile, seed, count, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    skipped = 0
    with open(out, "w") as f:
        for i in range(count):
            rng = random.Random("pretty/%s/%s/%d" % (profile, seed, i))
            for j, case in enumerate(profiles.PROFILES[profile](rng, i)):
                case.setdefault("id", "pretty/%s/%s/%d" % (profile, seed, i) + ("/%d" % j if j else ""))
                signal.alarm(20)
                try: recs = [cut(r) for r in run(case, rng)]
                except pretty.NotPretty as x:
                    recs = []; skipped += 1
                    if os.environ.get("VERIF_DEBUG"): print(x)
                except Hang: recs = [{"id": case["id"], "harness": "no answer within 20 s"}]
                except Exception as x:
                    if os.environ.get("VERIF_DEBUG"): raise
                    recs = [{"id": case["id"], "harness": type(x).__name__ + ": " + str(x)[:300]}]
                finally: signal.alarm(0)
                for rec in recs: f.write(json.dumps(rec) + "\n")
    sys.stderr.write("%d programs without a PrettyPFA form\n" % skipped)
if __name__ == "__main__": main()
