"""Runs the stages of a check: drivers under the engine's interpreter, TLC on the specification modules."""
import json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
PY = os.environ.get("VERIF_PY", "/opt/venv/bin/python")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8

class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif.")
        self.n = 0
    def path(self, suffix):
        self.n += 1
        return os.path.join(self.dir, "%d%s" % (self.n, suffix))
    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

def engine_env():
    env = dict(os.environ)
    env.update({"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "LC_ALL": "C.UTF-8"})
    return env

def drive(scratch, driver, argsets, timeout):
    """Run one driver process per argument list (the output path is appended); returns (records, problems)."""
    jobs = []
    for args in argsets:
        out = scratch.path(".nd")
        p = subprocess.Popen(["timeout", str(timeout), PY, os.path.join(HARNESS, driver)] + [str(a) for a in args] + [out],
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=engine_env(), cwd=scratch.dir)
        jobs.append((p, out, args))
    recs, problems = [], []
    import threading
    errs = {}
    def reader(i, p): errs[i] = p.stderr.read()
    ths = [threading.Thread(target=reader, args=(i, j[0])) for i, j in enumerate(jobs)]
    for t in ths: t.start()
    for t in ths: t.join()
    for i, (p, out, args) in enumerate(jobs):
        rc = p.wait()
        err = errs[i].decode("utf-8", "replace")
        if os.path.exists(out):
            for line in open(out):
                line = line.strip()
                if not line: continue
                try: r = json.loads(line)
                except ValueError: continue
                if "harness" in r:
                    problems.append({"id": r.get("id", "?"), "what": r["harness"], "kind": "harness"})
                else:
                    recs.append(r)
        if rc != 0:
            problems.append({"id": "%s %s" % (driver, " ".join(map(str, args))), "what": "driver ended with status %d: %s" % (rc, err[-800:]), "kind": "driver"})
    return recs, problems

def tlc(scratch, module, env, timeout, workers=CORES, extra=(), cfg=None):
    meta = scratch.path(".meta")
    e = dict(os.environ)
    e.update(env)
    cmd = ["timeout", str(timeout), "java", "-Xss256m", "-Xmx12g", "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
           "-workers", str(workers), "-config", (cfg or module) + ".cfg"] + list(extra) + [module + ".tla"]
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout.decode("utf-8", "replace")

def says(text):
    """The JSON values a module printed with Say."""
    out = []
    for line in text.splitlines():
        if line.startswith('"@@'):
            try: out.append(json.loads(json.loads(line)[2:]))
            except ValueError: pass
    return out

def counts(text):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def judge(scratch, module, recs, timeout, env=None, search=False):
    """Judge records with a *Conform module. Returns dict(ok, skip, bad lists of (record, verdict), states, transitions, errors)."""
    res = {"ok": [], "skip": [], "bad": [], "states": 0, "transitions": 0, "errors": []}
    todo = list(recs)
    for attempt in range(6):
        if not todo: break
        f = scratch.path(".recs")
        with open(f, "w") as o:
            for r in todo: o.write(json.dumps(r) + "\n")
        rc, text = tlc(scratch, module, dict(env or {}, RECS=f), timeout)
        tr, st = counts(text)
        res["states"] += st
        res["transitions"] += tr
        seen = {}
        for s in says(text):
            seen.setdefault(s[1], []).append(s)
        for k, ss in seen.items():
            r = todo[k - 1]
            kinds = set(s[0] for s in ss)
            if "BAD" in kinds: res["bad"].append((r, [s[2] for s in ss if s[0] == "BAD"]))
            elif "SKIP" in kinds and "OK" not in kinds: res["skip"].append((r, [s[2] for s in ss]))
            else: res["ok"].append((r, []))
        if "Model checking completed. No error" in text: 
            rest = [k for k in range(1, len(todo) + 1) if k not in seen]
            if search:   # no behaviour of the specification reaches the end of the record
                for k in rest: res["bad"].append((todo[k - 1], [["bad", "no explanation", 0]]))
            elif rest: res["errors"].append("no verdict on %d records" % len(rest))
            return res
        # TLC stopped: the last state of the trace names the record it could not interpret
        ks = re.findall(r"^(?:/\\ )?i = (\d+)", text, re.M)
        bad = int(ks[-1]) if ks else 0
        tail = text[text.find("Error:"):][:1500] if "Error:" in text else text[-1500:]
        if rc == 124 or not (0 < bad <= len(todo)):
            res["errors"].append("TLC on %s stopped (status %d): %s" % (module, rc, tail))
            return res
        if bad not in seen:
            if "Overflow when computing" in tail[:300]: res["skip"].append((todo[bad - 1], [["skip", "beyond 32-bit arithmetic", 0]]))
            else: res["bad"].append((todo[bad - 1], [["bad", "record not interpretable", 0, tail[:600]]]))
        todo = [r for k, r in enumerate(todo, 1) if k not in seen and k != bad]
    else:
        if todo: res["errors"].append("too many records the specification cannot interpret")
    return res
