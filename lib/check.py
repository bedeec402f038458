"""Runs the cases of a check in parallel, decides, writes evidence and replay files."""
import os, sys, time, json, random, pickle, signal, select, traceback, hashlib, re, shutil, importlib
from . import build
from .mqtt import Violation, Timeout, World, Client
from .broker import Broker

KNOWN = os.path.join(build.VERIF, "known_findings.txt")

class Ctx:
    """What a case sees."""
    def __init__(self, pid, name, seed, tier, keep=False):
        self.pid = pid; self.name = name; self.seed = seed; self.tier = tier; self.thorough = tier == "thorough"
        self.rng = random.Random("%s/%s/%d" % (pid, name, seed)); self.counts = {}; self.keys = set(); self.samples = []; self.brokers = []; self.worlds = []
        self.evals = 0; self.script = []; self.known = []
    def broker(self, **kw):
        kw.setdefault("seed", self.rng.randrange(1, 1 << 30))
        start = kw.pop("start", True)
        b = Broker(start=False, **kw); self.brokers.append(b)
        if start: b.start()
        return b
    def world(self, b):
        w = World(self.name); w.broker = b; self.worlds.append(w); return w
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def peak(self, k, n): self.counts["max_" + k] = max(self.counts.get("max_" + k, 0), n)
    def eval(self, key=None, n=1):
        """One evaluation of the oracle; key (if not None) says it was non-trivial and identifies it."""
        self.evals += n
        if key is not None: self.keys.add(hashlib.md5(repr(key).encode()).digest()[:8])
    def sample(self, s):
        if len(self.samples) < 2: self.samples.append(s if isinstance(s, (dict, list)) else str(s)[:600])
    def step(self, *a):
        self.script.append(" ".join(str(x) for x in a)[:300])
        if len(self.script) > 5000: del self.script[:2500]
    def finish(self):
        for b in self.brokers:
            if b.proc is not None and not b.expected_dead: b.stop()
    def cleanup(self):
        for w in self.worlds:
            try: w.close()
            except Exception: pass
        for b in self.brokers: b.cleanup()

def run_case(mod, pid, case, seed, tier):
    """In a child process. Returns a result dict."""
    name, fn, params = case
    ctx = Ctx(pid, name, seed, tier)
    res = {"name": name, "status": "ok", "msg": "", "key": None}
    t0 = time.time()
    try:
        getattr(mod, fn)(ctx, **params)
        ctx.finish()
        for w in ctx.worlds: ctx.count("packets_observed", w.events)
        for b in ctx.brokers: ctx.count("broker_runs", b.runs)
    except BaseException as e:
        tb = traceback.format_exc()
        st = "violation" if isinstance(e, Violation) else "timeout" if isinstance(e, Timeout) else "builderror" if isinstance(e, build.BuildError) else "error"
        msg = str(e) if isinstance(e, (Violation, Timeout)) else tb
        key = getattr(e, "key", None)
        for b in ctx.brokers:     # a dead broker explains everything else
            try:
                r = b.reports()
                if r: st, msg = "violation", msg + "\nsanitizer / assertion report:\n" + r[0][:6000]
                elif b.proc is not None and not b.expected_dead and not b.alive(): st, msg = "violation", msg + "\nbroker died with exit status %s\n%s" % (b.proc.returncode, b.tail())
            except Exception: pass
        tail = ""
        for b in ctx.brokers:
            try: tail += b.tail(1500)
            except Exception: pass
        res.update(status=st, msg=msg, key=key, tb=tb, tail=tail, script=ctx.script[-200:])
    finally:
        try: ctx.cleanup()
        except Exception: pass
    res.update(counts=ctx.counts, keys=ctx.keys, samples=ctx.samples, evals=ctx.evals, wall=time.time() - t0, known=ctx.known)
    return res

class Pool:
    def __init__(self, jobs): self.jobs = jobs; self.run = {}
    def spawn(self, idx, fn, limit):
        r, w = os.pipe()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0); os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_DFL); signal.signal(signal.SIGTERM, lambda *_: os._exit(9))
                data = pickle.dumps(fn())
                with os.fdopen(w, "wb") as f: f.write(data)
            except BaseException:
                traceback.print_exc()
            finally: os._exit(0)
        os.close(w)
        self.run[pid] = [idx, r, b"", time.time() + limit]
    def poll(self):
        """Returns list of (idx, result or None)."""
        out = []
        if not self.run: return out
        rd, _, _ = select.select([v[1] for v in self.run.values()], [], [], 0.2)
        for pid, v in list(self.run.items()):
            done = False
            if v[1] in rd:
                d = os.read(v[1], 1 << 20)
                if d: v[2] += d
                else: done = True
            if not done and time.time() > v[3]:
                self.kill(pid); out.append((v[0], {"status": "timeout", "msg": "case exceeded its time limit (hang)", "counts": {}, "keys": set(), "samples": [], "evals": 0, "name": "", "wall": 0, "known": []}))
                continue
            if done:
                os.close(v[1]); os.waitpid(pid, 0); del self.run[pid]
                try: res = pickle.loads(v[2])
                except Exception: res = {"status": "error", "msg": "case process died", "counts": {}, "keys": set(), "samples": [], "evals": 0, "name": "", "wall": 0, "known": []}
                out.append((v[0], res))
        return out
    def kill(self, pid):
        v = self.run.pop(pid)
        kids = _descendants(pid)
        for p in kids + [pid]:
            try: os.kill(p, signal.SIGKILL)
            except OSError: pass
        os.close(v[1])
        try: os.waitpid(pid, 0)
        except OSError: pass
    def killall(self):
        for p in list(self.run): self.kill(p)

def _descendants(pid):
    out, todo = [], [pid]
    while todo:
        p = todo.pop()
        try: ks = [int(x) for x in open("/proc/%d/task/%d/children" % (p, p)).read().split()]
        except OSError: ks = []
        out += ks; todo += ks
    return out

def known_findings(pid):
    out = {}
    try:
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid: out[m.group(2)] = m.group(3).strip()
    except OSError: pass
    return out

def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--thorough" in argv: tier = "thorough"
    sys.path.insert(0, os.path.join(build.VERIF, "checks"))
    mod = importlib.import_module(pid.lower())
    t0 = time.time()
    replay = None
    if "--replay" in argv:
        replay = json.load(open(argv[argv.index("--replay") + 1])); seed = replay["seed"]; tier = replay["tier"]
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    try:
        for v in getattr(mod, "VARIANTS", ["noise"]): build.build(v)
        if hasattr(mod, "prebuild"): mod.prebuild()
    except build.BuildError as e:
        print("BUILD ERROR", e); return 2
    tb = time.time()
    if replay: cases = [tuple(replay["case"])]
    else: cases = list(mod.cases(tier, random.Random("%s/%d" % (pid, seed))))
    cases = [(c[0], c[1], c[2] if len(c) > 2 else {}) for c in cases]
    if only: cases = [c for c in cases if only in c[0]]
    jobs = int(os.environ.get("VERIF_JOBS", 0)) or getattr(mod, "JOBS", 6)
    budget = getattr(mod, "BUDGET", {}).get(tier, 420 if tier == "quick" else 3000)
    limit = getattr(mod, "CASE_LIMIT", 150 if tier == "quick" else 600)
    pool = Pool(jobs); todo = list(range(len(cases))); retry = []; attempts = {}
    results = {}; violations = []; known = {}; kf = known_findings(pid); errors = []
    agg = {"counts": {}, "keys": set(), "samples": [], "evals": 0, "retries": 0}
    stop = False
    def sub(i):
        pool.spawn(i, lambda: run_case(mod, pid, cases[i], seed, tier), limit)
    while True:
        over = time.time() - tb > budget
        while todo and len(pool.run) < jobs and not stop and not over: sub(todo.pop(0))
        if not pool.run and (not todo or over or stop):
            if retry and not stop:
                # repeat what timed out, with less load
                while retry and len(pool.run) < max(1, jobs // 3): sub(retry.pop(0))
            else: break
        for i, r in pool.poll():
            for k, v in r["counts"].items():
                agg["counts"][k] = max(agg["counts"].get(k, 0), v) if k.startswith("max_") else agg["counts"].get(k, 0) + v
            agg["keys"] |= r["keys"]; agg["evals"] += r["evals"]
            if "--verbose" in argv: print("case %-40s %-9s %.1fs evals=%d %s" % (cases[i][0], r["status"], r["wall"], r["evals"], _short(r["msg"], 500)[-500:] if r["status"] != "ok" else ""), flush=True)
            if r["status"] == "ok":
                results[i] = r
                for s in r["samples"]:
                    if len(agg["samples"]) < 8: agg["samples"].append({"case": cases[i][0], "observed": s})
                for k in r["known"]: known[k] = True
                continue
            if r["status"] == "violation" and r["key"] in kf: known[r["key"]] = True; results[i] = r; continue
            if r["status"] in ("timeout", "error") and attempts.get(i, 0) < 1 and not replay:
                attempts[i] = 1; agg["retries"] += 1; retry.append(i)
                print("note: case %s: %s - repeating it" % (cases[i][0], (r["msg"].strip().splitlines() or [""])[-1][:200]), flush=True)
                continue
            if r["status"] == "builderror": errors.append(r); stop = True; continue
            violations.append((i, r)); stop = True
    pool.killall()
    for i, r in violations:
        os.makedirs(build.VERIF + "/replay", exist_ok=True)
        fn = "%s/replay/%s-%s-%d.json" % (build.VERIF, pid, re.sub(r"[^A-Za-z0-9_.-]", "_", cases[i][0]), seed)
        json.dump({"property": pid, "case": cases[i], "seed": seed, "tier": tier, "status": r["status"], "message": r["msg"], "script": r.get("script"), "traceback": r.get("tb"), "broker": r.get("tail"),
                   "how": "python3 run.py %s --replay <this file>" % pid}, open(fn, "w"), indent=1, default=repr)
        print("case %s: %s: %s" % (cases[i][0], r["status"], _short(r["msg"])))
        print("VIOLATION property=%s replay=%s" % (pid, fn))
    for k, txt in kf.items():
        if k in known: print("KNOWN-FINDING: property=%s %s" % (pid, txt))
    cov = {"evaluations": agg["evals"], "distinct_nontrivial": len(agg["keys"]), "rule": mod.RULE, "samples": agg["samples"],
           "cases_planned": len(cases), "cases_run": len(results), "cases_repeated_after_timeout": agg["retries"], "observed": dict(sorted(agg["counts"].items()))}
    if not (only or replay):
        os.makedirs(build.VERIF + "/evidence", exist_ok=True)
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"), "coverage": cov,
                   "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 1), "violations": len(violations)}, open("%s/evidence/%s.json" % (build.VERIF, pid), "w"), indent=1)
    print("%s: %s tier, %d/%d cases, %d evaluations, %d distinct, %.0f s build, %.0f s run" % (pid, tier, len(results), len(cases), agg["evals"], len(agg["keys"]), tb - t0, time.time() - tb))
    if "--verbose" in argv: print(agg["counts"])
    if errors: print(errors[0]["msg"][:2000]); return 2
    return 1 if violations else 0

def _short(m, n=1500):
    """Head of a message; for sanitizer reports the lines that matter."""
    i = m.find("sanitizer / assertion report")
    if i >= 0:
        L = [l for l in m[i:].splitlines() if re.search(r"ERROR|WARNING|runtime error|SUMMARY|^\s+#\d+ .*(/repo/|/verif/)|Assert", l)]
        return m[:min(i, 400)] + "\n" + "\n".join(l[:220] for l in L[:14])
    return m if len(m) < n else m[:n // 2] + " ... " + m[-n // 2:]
