from common import *
import hashlib, resource, shutil, signal, re
RULE = ("A saved state is changed and saved again while one file operation (open, write, flush, sync, close, rename, unlink; any ordinal) kills the process, fails or writes short, or the disk is full beyond any size; after a kill also with the loss of what was not synced. "
        "Then each state file is loaded by a fresh broker and compared with models of the previous and the new state. Corruptions: flips, cuts, growth, zeroes of each file at any place. Evaluation = one state file judged after one fault; distinct by file, fault, operation kind and outcome.")
BUDGET = {"quick": 420}
JOBS = 7
FILES = ["retained.db", "sessions.db", "bridgenames.db", "sharenames.db"]
NEVER = 0xFFFFFFFF

def cases(tier, rng):
    n = 1 if tier == "quick" else 12
    out = []
    for i in range(30 * n): out.append(("kill-%d" % i, "at_shutdown", {"k": i, "mode": 1}))
    for i in range(12 * n): out.append(("error-%d" % i, "at_shutdown", {"k": i, "mode": 2}))
    for i in range(8 * n): out.append(("full-%d" % i, "at_shutdown", {"k": i, "mode": 3}))
    for i in range(8 * n): out.append(("short-%d" % i, "at_shutdown", {"k": i, "mode": 4}))
    for i in range(16 * n): out.append(("size-%d" % i, "at_shutdown", {"k": i, "mode": 0}))
    for i in range(14 * n): out.append(("background-%d" % i, "background", {"k": i}))
    for i in range(16 * n): out.append(("corrupt-%d" % i, "corrupt", {"k": i}))
    return out

class State:
    """Model of what is to be saved."""
    def __init__(s): s.ret = {}; s.ses = {}
    def copy(s): o = State(); o.ret = dict(s.ret); o.ses = {k: list(v) for k, v in s.ses.items()}; return o

BR = """
bridge {
  clientid_prefix fmqbr
  address 127.0.0.1
  port %d
  publish br/#
  use_saved_clientid true
}
"""
def new(ctx, **kw):
    T = kw.pop("threads", 2)
    # Bridge to a port where nobody listens: only its saved client id matters here. The log is no file, so that file size limits don't apply to it.
    return ctx.broker(threads=T, conf=dict(BIGQ, log_file="/dev/null", save_state_interval=300), storage=True, extra=BR % 1, start=False, **kw)

def change(ctx, w, b, st, big):
    """Makes random changes to the broker's state and the model."""
    r = ctx.rng; u = Uniq("%x." % r.getrandbits(32)); p = Client(w, b, "chg%x" % r.getrandbits(40), 4); p.connect()
    for i in range(r.choice([1, 3, 8])):
        cid = "s%d" % r.randint(0, 12); k = r.random()
        if k < 0.2 and cid in st.ses:     # remove
            c = Client(w, b, cid, 4); c.connect(clean=True); c.disconnect(); del st.ses[cid]; continue
        c = Client(w, b, cid, 4); c.connect(clean=False); c.sub(("q/" + cid, 2), ("q/all", 1)); w.barrier([c]); c.disconnect(); st.ses[cid] = []
    for i in range(r.choice([2, 10, 40])):
        t = "r/%d/%d" % (r.randint(0, 4), r.randint(0, 9))
        if t in st.ret and r.random() < 0.3: p.pub(t, b"", 1, True); del st.ret[t]; continue
        st.ret[t] = u(b"z" * r.choice([0, 30, 900, big])); p.pub(t, st.ret[t], 1, True)
    for i in range(r.choice([2, 10, 30])):
        m = u(b"q" * r.choice([0, 10, 500, big]))
        if r.random() < 0.5: p.pub("q/all", m, 1); [v.append(m) for v in st.ses.values()]
        elif st.ses: cid = r.choice(sorted(st.ses)); p.pub("q/" + cid, m, r.choice([1, 2])); st.ses[cid].append(m)
    m = u(); st.ret["r/version"] = m; p.pub("r/version", m, 1, True)
    c = Client(w, b, "always", 4); c.connect(clean=False); c.sub(("q/version", 1)); w.barrier([c]); c.disconnect(); m = u(); st.ses["always"] = [m]; p.pub("q/version", m, 1)
    w.barrier([p]); p.disconnect(); tick(w, b, b.threads)

def dump(ctx, b, cids):
    """What a broker knows -> State."""
    st = State(); w = World(); 
    try:
        c = Client(w, b, "dumper", 4); c.connect(); c.sub(("r/#", 1)); w.barrier([c]); w.until(lambda: True); w.settle(0.02); w.barrier([c])
        for p in c.pubs: st.ret[p.topic] = bytes(p.payload)
        cl = []
        for cid in sorted(cids):
            c = Client(w, b, cid, 4); c.connect(clean=False); cl.append(c)
        w.barrier(cl); w.barrier(cl)
        for c in cl:
            if c.connack.sp: st.ses[c.cid] = [bytes(p.payload) for p in c.pubs]
            elif c.pubs: raise Violation("session %s not present but has messages" % c.cid)
        return st
    finally: w.close()

def parse(path):
    """-> (hash matches, body)"""
    d = open(path, "rb").read()
    return len(d) >= 96 and hashlib.sha512(d[96:]).digest() == d[32:96], d[96:]
def bridges(b):
    """Saved client ids and share names."""
    x = [parse(b.dir + "/storage/" + fn) for fn in FILES[2:]]
    return [d for ok, d in x] if all(ok for ok, d in x) else None

def listing(b): return sorted(os.listdir(b.dir + "/storage"))

def judge_files(ctx, b, A, B, fa_bridge, what, key, strict_b=False):
    """Loads what is in b's storage directory in another broker and compares per file."""
    b2 = getattr(ctx, "judge", None)
    if b2 is None: b2 = ctx.judge = new(ctx)
    for fn in listing(b2): os.unlink(b2.dir + "/storage/" + fn)
    for fn in os.listdir(b.dir + "/storage"): shutil.copy(b.dir + "/storage/" + fn, b2.dir + "/storage/" + fn)
    for fn in FILES:
        if not os.path.exists(b2.dir + "/storage/" + fn): raise Violation("%s: %s is gone; there: %s" % (what, fn, listing(b2)))
    br = bridges(b2)
    if br != fa_bridge: raise Violation("%s: bridgenames.db or sharenames.db damaged or the names changed: %r, was %r" % (what, br, fa_bridge))
    b2.start()
    st = dump(ctx, b2, set(A.ses) | set(B.ses)); b2.kill()
    res = []
    for fn, g, a, n in (("retained.db", st.ret, A.ret, B.ret), ("sessions.db", st.ses, A.ses, B.ses)):
        if fn == "sessions.db":
            norm = lambda x: {k: sorted(v) for k, v in x.items()}
            g, a, n = norm(g), norm(a), norm(n)
        if g == n: o = "new"
        elif g == a and not strict_b: o = "old"
        else:
            ks = [k for k in sorted(set(g) | set(n)) if g.get(k) != n.get(k)]; ka = [k for k in sorted(set(g) | set(a)) if g.get(k) != a.get(k)]
            raise Violation("%s: %s is %s: differs from the new state at %s and from the old one at %s (has %d entries, new %d, old %d)" % (what, fn, "not the new version" if strict_b else "neither the old nor the new version", ks[:5], ka[:5], len(g), len(n), len(a)))
        ctx.eval((fn, o) + key); ctx.count("files_%s" % o); res.append(o)
    ctx.eval(("bridgenames.db",) + key)
    return res

def oplog(b):
    """-> list of (op, path, other, result)"""
    out = []
    try:
        for l in open(b.dir + "/oplog"):
            p = l.rstrip("\n").split(" ")
            if len(p) < 5: continue        # the size limit hit this log as well
            out.append((p[1], os.path.basename(p[2]), os.path.basename(p[3]), p[4] if p[1] != "FAULT" else p[2]))
    except FileNotFoundError: pass
    return out

def order(ctx, ops, what):
    """Trace monitor: a file gets its final name only after everything written to it was synced."""
    dirty = {}
    for op, a, o, res in ops:
        if op == "open": dirty[a] = True
        elif op in ("write", "flush"):
            dirty[a] = True
        elif op == "sync" and res == "0": dirty[a] = False
        elif op == "rename" and res == "0":
            ctx.eval(("order", re.sub(r"\..*", "", a)))
            if dirty.get(a, True): raise Violation("%s: %s was renamed to %s without having been synced after its last write" % (what, a, o))
    return {a for a, d in dirty.items() if d}


def setup(ctx, b, big):
    """State A saved; returns the model and the bridge file's body."""
    b.start(); w = ctx.world(b); A = State(); change(ctx, w, b, A, big); change(ctx, w, b, A, big); b.stop(); w.close()
    return A, bridges(b)

def snapshot(b): return {fn: open(b.dir + "/storage/" + fn, "rb").read() for fn in FILES}
def restore(b, files):
    for fn in listing(b): os.unlink(b.dir + "/storage/" + fn)
    for fn, d in files.items(): open(b.dir + "/storage/" + fn, "wb").write(d)

def at_shutdown(ctx, k, mode):
    r = ctx.rng; big = r.choice([100, 3000, 20000]); b = new(ctx); A, bra = setup(ctx, b, big); fa = snapshot(b); names = {1: "kill", 2: "I/O error", 3: "disk full", 4: "short write", 0: "size limit"}
    if bra is None: raise Violation("bridgenames.db or sharenames.db not valid after an ordinary stop")
    # dry run: how many operations does a save of the changed state take, and of which kinds
    ops = []; n = 6 if not ctx.thorough else 25
    for it in range(n + 1):
        restore(b, fa); b.start(); w = World(); B = A.copy()
        try: change(ctx, w, b, B, big)
        finally: w.close()
        open(b.dir + "/oplog", "w").close(); at = 0; kind = "none"
        if it:
            if mode:
                # either any ordinal, or one of a rare kind
                kinds = [i + 1 for i, o in enumerate(ops) if o[0] != "write"]
                at = r.choice(kinds) if r.random() < 0.6 and kinds else r.randint(1, len(ops))
                b.faults(at, mode); kind = ops[at - 1][0]
            else:
                lim = r.choice([0, 1, 95, 96, 100, r.randint(0, 5000), r.randint(0, max(map(len, fa.values()))), 4096, 8192]); at = lim
                resource.prlimit(b.proc.pid, resource.RLIMIT_FSIZE, (lim, resource.RLIM_INFINITY)); kind = "size"
        b.expected_dead = True; b.proc.send_signal(signal.SIGTERM)
        try: rc = b.proc.wait(60)
        except Exception: raise Violation("broker does not stop when %s hits operation %d (%s): %s" % (names[mode], at, kind, b.stacks()))
        b.errf.close(); what = "%s at %s %d" % (names[mode], kind, at) if it else "ordinary stop"
        log = oplog(b); b.faults(0, 0, 0)
        if mode == 1 and it:
            if rc != -9 and rc != 0: raise Violation("%s: exit status %s" % (what, rc))
        elif rc < 0 or rc in (66, 77) or rc > 1: b.check_reports(); raise Violation("%s: exit status %s: %s" % (what, rc, b.tail()))
        b.check_reports()
        loss = order(ctx, [x for x in log if x[0] != "FAULT"], what) if mode or not it else set()
        if it == 0: ops = [x for x in log if x[0] != "FAULT"]; ctx.peak("operations_per_save", len(ops))
        ctx.step(what, "exit", rc, "files", listing(b)); ctx.count("saves")
        if it and mode == 1 and rc == -9 and r.random() < 0.6:
            for fn in listing(b):     # the power went: nothing that was not synced has to be there
                p = b.dir + "/storage/" + fn
                if fn in loss: size = os.path.getsize(p); os.truncate(p, r.randint(0, size)); ctx.count("unsynced_files_lost")
        f = "none" if not it else (ops[at - 1][1].split(".")[0] if mode and at <= len(ops) else "any")
        judge_files(ctx, b, A, B, bra, what, (names[mode], kind, f), strict_b=not it)
        left = [x for x in listing(b) if x not in FILES]
        if left and mode != 1 and kind != "unlink": raise Violation("%s: temporary files left behind: %s" % (what, left))

def background(ctx, k):
    """Errors while a running broker saves; the broker goes on, and the next save is complete."""
    r = ctx.rng; big = r.choice([100, 3000, 20000]); b = new(ctx, threads=r.choice([1, 2, 4])); A, bra = setup(ctx, b, big); b.start(); prev = A; cur = A.copy(); w = ctx.world(b)
    alive = Client(w, b, "canary", 4); alive.connect(); alive.sub(("can", 1))
    for it in range(6 if not ctx.thorough else 25):
        change(ctx, w, b, cur, big); open(b.dir + "/oplog", "w").close(); b.faults(0, 0, 0); fault = r.random() < 0.75; mode = at = 0
        if fault:
            mode = r.choice([2, 2, 3, 4, 5, 0])
            if mode: at = r.randint(1, 300) if r.random() < 0.5 else r.choice([1, 2, 3, 4, 5]); b.faults(at, mode)
            else: at = r.choice([0, 95, r.randint(0, 20000)]); resource.prlimit(b.proc.pid, resource.RLIMIT_FSIZE, (at, resource.RLIM_INFINITY))
        b.advance(301)
        end = time.monotonic() + 40; last = [0, time.monotonic()]; done = False
        while not done:
            alive.pub("can", b"x", 1); time.sleep(0.02); n = b.get("ops")
            if n != last[0]: last = [n, time.monotonic()]
            ops = oplog(b)
            # the bridge file is the last one; after errors: nothing more happens
            done = any(x[0] == "rename" and x[2] == "bridgenames.db" for x in ops) or (fault and n and time.monotonic() - last[1] > 0.7)
            if time.monotonic() > end and not done: raise Violation("background save %s does not finish (%d operations): %s" % ((mode, at), n, ops[-5:]))
            b.check_alive()
        b.faults(0, 0, 0); resource.prlimit(b.proc.pid, resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        what = "background save with fault %d at %d" % (mode, at) if fault else "background save"; ops = [x for x in oplog(b) if x[0] != "FAULT"]
        if not fault or mode: order(ctx, ops, what)
        ctx.step(what, listing(b), "operations", b.get("ops")); ctx.count("background_saves")
        res = judge_files(ctx, b, prev, cur, bra, what, ("background", mode if fault else -1), strict_b=not fault)
        left = [x for x in listing(b) if x not in FILES]
        if left and mode != 2 and not any(x[0] == "unlink" and x[3] != "0" for x in ops): raise Violation("%s: temporary files left behind: %s" % (what, left))
        if not fault: prev = cur.copy()
        else:
            # what each file holds now is known from the outcome
            p2 = State(); p2.ret = dict(cur.ret if res[0] == "new" else prev.ret); p2.ses = {k2: list(v) for k2, v in (cur if res[1] == "new" else prev).ses.items()}; prev = p2
    b.stop(); judge_files(ctx, b, prev, cur, bra, "final stop", ("final",), strict_b=True)

def corrupt(ctx, k):
    r = ctx.rng; big = r.choice([100, 3000]); b = new(ctx); A, bra = setup(ctx, b, big); fa = snapshot(b)
    for it in range(9 if not ctx.thorough else 60):
        restore(b, fa); fn = r.choice(FILES); d = bytearray(fa[fn]); kind = r.choice(["bit", "bit", "byte", "cut", "cut", "cuthead", "empty", "grow", "zero", "hash", "magic", "swap"])
        if kind == "bit": i = r.randrange(32, len(d)); d[i] ^= 1 << r.randrange(8)
        elif kind == "byte": i = r.randrange(96, len(d)); d[i] = (d[i] + r.randint(1, 255)) & 255
        elif kind == "cut": d = d[:r.randint(96, len(d) - 1)]
        elif kind == "cuthead": d = d[:r.randint(1, 95)]
        elif kind == "empty": d = bytearray()
        elif kind == "grow": d += os.urandom(r.choice([1, 100, 5000]))
        elif kind == "zero": i = r.randrange(96, len(d)); j = min(len(d), i + r.choice([8, 512, 4096])); d[i:j] = bytes(j - i); 
        elif kind == "hash": d[32:96] = bytes(64)
        elif kind == "magic": i = r.randrange(0, 32); d[i] ^= 1 << r.randrange(8)
        elif kind == "swap": o = r.randrange(96, len(d) - 20); d[o:o + 20] = bytes(reversed(d[o:o + 20]))
        d = bytes(d)
        if d == fa[fn]: continue
        open(b.dir + "/storage/" + fn, "wb").write(d); what = "%s with corruption %s" % (fn, kind); ctx.step(what)
        starts = 0; accepted = False
        while True:
            starts += 1; b.start(wait=False); end = time.monotonic() + 30; up = False
            while time.monotonic() < end and not up and b.proc.poll() is None:
                try: s = socket.create_connection(("127.0.0.1", b.port), 5); s.close(); up = True
                except OSError: time.sleep(0.01)
            if up: break
            rc = b.proc.poll(); b.expected_dead = True; b.check_reports()
            if rc not in (1, 99): raise Violation("%s: start ends with %s: %s" % (what, rc, b.tail()))
            for o in FILES:
                if o != fn and open(b.dir + "/storage/" + o, "rb").read() != fa[o]: raise Violation("%s: refused start changed %s" % (what, o))
            kept = [x for x in listing(b) if x.startswith(fn) and open(b.dir + "/storage/" + x, "rb").read() == d]
            if not kept: raise Violation("%s: refused start lost the file: %s" % (what, listing(b)))
            if kind == "magic": break
            if os.path.exists(b.dir + "/storage/" + fn): raise Violation("%s: start refused, but the file was not moved aside" % what)
            if starts > 2: raise Violation("%s: the broker still does not start" % what)
        b.expected_dead = False
        ctx.eval(("corrupt", fn, kind, starts)); ctx.count("corruptions")
        if not up: ctx.count("refused_version"); b.expected_dead = True; continue
        # running: nothing from the damaged file, everything from the others
        st = dump(ctx, b, A.ses)
        norm = lambda x: {k2: sorted(v) for k2, v in x.items()}
        er = {} if fn == "retained.db" else A.ret; es = {} if fn == "sessions.db" else A.ses
        if kind == "magic" and fn == "sharenames.db": pass      # not part of the version; rewritten at the start
        elif kind == "magic" and open(b.dir + "/storage/" + fn, "rb").read() == d: er, es = A.ret, A.ses
        elif not [x for x in listing(b) if x.startswith(fn + ".corrupt.") and open(b.dir + "/storage/" + x, "rb").read() == d]: raise Violation("%s: not moved aside: %s" % (what, listing(b)))
        if st.ret != er: raise Violation("%s: retained messages after the start: %d, expected %d" % (what, len(st.ret), len(er)))
        if norm(st.ses) != norm(es): raise Violation("%s: sessions after the start %s, expected %s" % (what, sorted(st.ses), sorted(es)))
        b.stop()      # and saving works
        for o in FILES:
            if not parse(b.dir + "/storage/" + o)[0]: raise Violation("%s: afterwards saved %s not valid" % (what, o))
