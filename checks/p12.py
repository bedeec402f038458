from common import *
RULE = ("Messages with intervals from 1 s to 0xFFFFFFFF or none wait in session queues (offline, window-blocked, in flight), in the retained store, in shared groups and in saved state across restarts while simulated time passes; each delivery (or its absence) is compared with "
        "the publication time and interval by a reference clock, and the interval in it with original minus waited. Evaluation = one message's fate at one delivery opportunity; distinct by (path, interval, waited class, versions, QoS).")
BUDGET = {"quick": 420}
TOL = 1.3

def cases(tier, rng):
    n = 1 if tier == "quick" else 8
    out = [("queue-%d" % i, "queue", {"k": i}) for i in range(8 * n)]
    out += [("retained-%d" % i, "retained", {"k": i}) for i in range(6 * n)]
    out += [("restart-%d" % i, "restart", {"k": i}) for i in range(6 * n)]
    out += [("live-%d" % i, "live", {"k": i}) for i in range(3 * n)]
    out += [("blocked-%d" % i, "blocked", {"k": i}) for i in range(3 * n)]
    return out

E = [None, None, 1, 2, 5, 10, 20, 30, 60, 100, 1000, 100000, 2147483647, 2147483648, 4294967295]
def clock(b):
    t0 = time.monotonic(); return lambda: time.monotonic() - t0 + b.get("clock") / 1e9
def expiry(p):
    x = p.propall("expiry")
    return x[0] if x else None

def judge(ctx, what, m, p, now, t1, ver, tol=TOL, ceil=None):
    """m: dict(pay, t, e, q), p: the delivery or None, delivered some time within [now, t1]"""
    e = m["e"] if ceil is None else min(m["e"] or ceil, ceil)
    lo, hi = now - m["t"], t1 - m["t"]
    if p is None:
        if e is None: raise Violation("%s: message %r without interval is missing after %.1f s" % (what, m["pay"], lo))
        if lo < e - tol and hi < e - tol: raise Violation("%s: message %r with interval %d is missing after %.1f s" % (what, m["pay"], e, hi))
        ctx.count("expired"); return "expired"
    if e is not None and lo > e + tol: raise Violation("%s: message %r with interval %d was delivered after %.1f s" % (what, m["pay"], e, lo))
    if ver == 5:
        g = expiry(p)
        if e is None:
            if g is not None: raise Violation("%s: message %r got an interval of %d it was not published with" % (what, m["pay"], g))
        else:
            if g is None: raise Violation("%s: message %r lost its interval %d" % (what, m["pay"], e))
            if not e - hi - tol <= g <= max(e - lo + tol, 0): raise Violation("%s: message %r published with interval %d has %d after waiting %.1f s" % (what, m["pay"], e, g, lo))
            ctx.count("intervals_compared")
    ctx.count("delivered"); return "delivered"

def queue(ctx, k):
    """Session queues: offline, in flight (unacknowledged) and resumed several times, shared groups."""
    r = ctx.rng; T = r.choice([1, 3]); b = ctx.broker(threads=T, conf=dict(BIGQ, expire_sessions_after_seconds=4000000000)); w = ctx.world(b); now = clock(b); u = Uniq("q")
    P = [Client(w, b, "p%d" % v, v).connect(keepalive=65535) for v in (4, 5)]
    for p in P: p.ack = True
    S = {}
    for i in range(4):
        ver = [5, 5, 4, 3][i]; c = Client(w, b, "s%d" % i, ver).connect(clean=False, keepalive=65535, pr={"session_expiry": 0xFFFFFFFF, "receive_max": 60000} if ver == 5 else None); f = "$share/g%d/e/#" % i if r.random() < 0.4 and ver != 3 else "e/#"
        c.sub((f, 2)); S[c.cid] = {"ver": ver, "q": [], "c": c, "hold": False}
    for rd in range(26):
        # some go offline; some stay connected but stop acknowledging
        for cid, s in S.items():
            if s["c"] and r.random() < 0.6: w.barrier([s["c"]]); w.barrier([s["c"]]); drop_and_wait(w, b, s["c"], T, r.choice(["drop", "rst"])); s["c"] = None
        for _ in range(r.randint(1, 12)):
            p = r.choice(P); e = r.choice(E) if p.ver == 5 else None; q = r.choice([1, 2]); pay = u(); m = {"pay": pay, "t": now(), "e": e, "q": q}
            p.pub("e/%d" % r.randint(0, 3), pay, q, pr=[("expiry", e)] if e is not None else None); m["t"] = (m["t"] + now()) / 2
            w.barrier([p])
            for cid, s in S.items():
                if s["c"] is None: s["q"].append(m)
                else:
                    w.barrier([s["c"]]); x = [y for y in s["c"].pubs if bytes(y.payload) == pay]
                    if len(x) != 1: raise Violation("live message %r arrived %d times" % (pay, len(x)))
                    judge(ctx, "live", m, x[0], m["t"], now(), s["ver"]); ctx.eval(("live", e, s["ver"], q))
            if r.random() < 0.4: b.advance(r.choice([0.5, 1, 3, 4, 9, 30]))
        b.advance(r.choice([0, 0, 1, 5, 20, 50, 300, 5000 if rd % 5 == 0 else 8]))
        if r.random() < 0.3: tick(w, b, T)
        for cid, s in S.items():
            if s["c"] is None and r.random() < 0.7:
                c = Client(w, b, cid, s["ver"]); hold = r.random() < 0.35; c.ack = not hold; t1 = now()
                c.connect(clean=False, keepalive=65535, pr={"session_expiry": 0xFFFFFFFF, "receive_max": 60000} if s["ver"] == 5 else None); w.barrier([c]); w.barrier([c]); t2 = now()
                if not c.connack.sp and s["ver"] != 3: raise Violation("session lost")
                by = {}
                for x in c.pubs: by.setdefault(bytes(x.payload), []).append(x)
                for m in s["q"]:
                    x = by.pop(m["pay"], [])
                    if len(x) > 1: raise Violation("message %r came %d times" % (m["pay"], len(x)))
                    res = judge(ctx, "session queue of %s" % cid, m, x[0] if x else None, t1, t2, s["ver"]); ctx.eval(("queue", m["e"], int(min(20, t1 - m["t"])), s["ver"], m["q"], res))
                if by: raise Violation("unexpected %s" % list(by))
                if hold:     # leave them unacknowledged: they are redelivered, with the time that passed since taken off
                    drop_and_wait(w, b, c, T); s["q"] = [m for m in s["q"] if m["e"] is None or now() - m["t"] < m["e"] + TOL]; ctx.count("unacknowledged_resumes")
                else: s["q"] = []; s["c"] = c
                c.pubs = []
    ctx.sample({"queue": str({c: len(s["q"]) for c, s in S.items()})})

def retained(ctx, k):
    """The retained store with and without a configured maximum age; new and old subscriptions; purge; QoS."""
    r = ctx.rng; T = r.choice([1, 2]); ceil = [None, None, 50, 3000, 5, 100000][k % 6]; conf = dict(BIGQ)
    if ceil: conf["expire_retained_messages_after_seconds"] = ceil
    b = ctx.broker(threads=T, conf=conf); w = ctx.world(b); now = clock(b); u = Uniq("r"); P = [Client(w, b, "p%d" % v, v).connect(keepalive=65535) for v in (3, 5)]; R = {}; live = Client(w, b, "live", 5).connect(keepalive=65535); live.sub(("e/#", 2 | 8))
    for rd in range(45):
        for _ in range(r.randint(1, 6)):
            p = r.choice(P); e = r.choice(E) if p.ver == 5 else None; t = "e/%d" % r.randint(0, 25); pay = u(); q = r.randint(0, 2); m = {"pay": pay, "t": now(), "e": e, "q": q}
            p.pub(t, pay, q, retain=True, pr=[("expiry", e)] if e is not None else None); w.barrier([p]); R[t] = m; w.barrier([live])
            x = [y for y in live.pubs if bytes(y.payload) == pay]
            if len(x) != 1: raise Violation("live copy of %r arrived %d times" % (pay, len(x)))
            judge(ctx, "live retained publish", m, x[0], m["t"], now(), 5); live.pubs = []
        b.advance(r.choice([0, 0.5, 1, 3, 4, 8, 15, 40, 90, 1000 if rd % 7 == 0 else 2]))
        if r.random() < 0.2: tick(w, b, T)
        if r.random() < 0.08: b.advance(4000); tick(w, b, T)
        if r.random() < 0.7:
            ver = r.choice([4, 5, 5]); c = Client(w, b, "", ver) if ver == 5 else Client(w, b, "x%d" % rd, 4); c.connect(); t1 = now(); c.sub((r.choice(["e/#", "e/+", "#", "+/+"]), r.randint(0, 2))); w.barrier([c]); w.barrier([c]); w.settle(0.06 if r.random() < .1 else 0); t2 = now(); got = {}
            for x in c.pubs:
                if x.topic in got: raise Violation("two retained messages on %s" % x.topic)
                got[x.topic] = x
            for t, m in R.items():
                x = got.pop(t, None)
                if x is not None and bytes(x.payload) != m["pay"]: raise Violation("retained message of %s is %r, expected %r" % (t, x, m["pay"]))
                if x is not None and ceil is None and m["e"] is None and ver == 5:     # the retained store's default maximum age
                    if (expiry(x) or 4294967295) < 2147483647 - (t2 - m["t"]) - 2: raise Violation("retained message without interval got %s" % expiry(x))
                    ctx.eval(("ret", None, "d")); continue
                res = judge(ctx, "retained store", m, x, t1, t2, ver, ceil=ceil or (2147483647 if m["e"] else None) if m["e"] or ceil else None); ctx.eval(("retained", ceil, m["e"], int(min(20, t1 - m["t"])), ver, res))
            if got: raise Violation("unexpected retained %s" % got)
            c.disconnect()

def restart(ctx, k):
    """Both through state files, with time passing before, during and after the broker's absence, several times."""
    r = ctx.rng; T = 2; ceil = r.choice([None, 3000]); conf = dict(BIGQ, expire_sessions_after_seconds=4000000000)
    if ceil: conf["expire_retained_messages_after_seconds"] = ceil
    b = ctx.broker(threads=T, conf=conf, storage=True); w = ctx.world(b); now = clock(b); u = Uniq("p"); Q = []; R = {}; gen = 0
    s = Client(w, b, "sess", 5).connect(pr={"session_expiry": 0xFFFFFFFF}); s.sub(("e/#", 2)); drop_and_wait(w, b, s, T)
    for rd in range(7):
        p = Client(w, b, "p%d" % rd, 5).connect(keepalive=65535)
        for _ in range(r.randint(5, 15)):
            e = r.choice(E); pay = u(); q = r.choice([1, 2]); ret = r.random() < 0.5; t = "e/%d" % r.randint(0, 9); m = {"pay": pay, "t": now(), "e": e, "q": q, "gen": rd}
            p.pub(t, pay, q, retain=ret, pr=[("expiry", e)] if e is not None else None); w.barrier([p]); Q.append(m)
            if ret: R[t] = m
            if r.random() < 0.2: b.advance(r.choice([1, 4, 9]))
        p.disconnect(); b.advance(r.choice([0, 2, 15, 40])); b.stop(); b.advance(r.choice([0, 3, 10, 30, 80, 500])); b.start(); b.advance(r.choice([0, 0, 3, 20]))
        tol = lambda m: TOL + 2.0 * (rd - m["gen"] + 1)
        c = Client(w, b, "x", 5).connect(); t1 = now(); c.sub(("e/#", 2)); w.barrier([c]); w.barrier([c]); t2 = now(); got = {x.topic: x for x in c.pubs}
        for t, m in R.items():
            x = got.pop(t, None)
            if x is not None and bytes(x.payload) != m["pay"]: raise Violation("retained message of %s is %r, expected %r" % (t, x, m["pay"]))
            if ceil is None and m["e"] is None:
                if x is None: raise Violation("retained message %r lost in restart" % m["pay"])
                if (expiry(x) or 4294967295) < 2147483647 - (t2 - m["t"]) - tol(m): raise Violation("retained message without interval got %s after %.0f s" % (expiry(x), t2 - m["t"]))
                ctx.eval(("ret-restart", None)); continue
            res = judge(ctx, "retained store after restart", m, x, t1, t2, 5, tol(m), ceil=ceil or 2147483647); ctx.eval(("ret-restart", m["e"], rd - m["gen"], res))
        if got: raise Violation("unexpected retained %s" % got)
        c.disconnect()
        if r.random() < 0.6 or rd == 6:
            c = Client(w, b, "sess", 5); t1 = now(); ackit = r.random() < 0.6; c.ack = ackit; c.connect(clean=False, pr={"session_expiry": 0xFFFFFFFF}); w.barrier([c]); w.barrier([c]); t2 = now(); by = {bytes(x.payload): x for x in c.pubs}
            if not c.connack.sp: raise Violation("session lost in restart")
            for m in Q:
                res = judge(ctx, "session queue after restart", m, by.pop(m["pay"], None), t1, t2, 5, tol(m)); ctx.eval(("queue-restart", m["e"], rd - m["gen"], res))
            if by: raise Violation("unexpected %s" % list(by))
            drop_and_wait(w, b, c, T)
            Q = [] if ackit else [m for m in Q if m["e"] is None or now() - m["t"] < m["e"] - TOL]     # near the end: either way
            if not ackit:
                c = None

def live(ctx, k):
    """Copies made at once: the interval is passed on as published, for all version/QoS/alias/identifier combinations (packet caching in the broker)."""
    r = ctx.rng; b = ctx.broker(threads=r.choice([1, 4]), conf=BIGQ); w = ctx.world(b); u = Uniq("l"); S = []; now = clock(b)
    for i in range(10):
        ver = r.choice([3, 4, 5, 5, 5]); c = Client(w, b, "s%d" % i, ver).connect(pr={"topic_alias_max": r.choice([0, 5])} if ver == 5 else None); c.sub(("e/#", r.randint(0, 2)), pr={"sub_id": r.randint(1, 99)} if ver == 5 and r.random() < 0.4 else None); S.append(c)
    P = [Client(w, b, "p%d" % v, v).connect() for v in (3, 4, 5)]
    for rd in range(250):
        p = r.choice(P); e = r.choice(E) if p.ver == 5 else None; q = r.randint(0, 2); m = {"pay": u(), "e": e, "q": q, "t": now()}
        p.pub("e/%d" % r.randint(0, 8), m["pay"], q, pr=[("expiry", e)] if e is not None else None); w.barrier([p], S)
        for c in S:
            x = [y for y in c.pubs if bytes(y.payload) == m["pay"]]
            if len(x) != 1: raise Violation("%r arrived %d times at %s" % (m["pay"], len(x), c.name))
            judge(ctx, "live", m, x[0], m["t"], now(), c.ver); c.pubs = []; ctx.eval(("live", e, q, c.ver, p.ver))

def blocked(ctx, k):
    """Retained messages held back by a small window or a slow reader arrive with what is left, or not at all once expired."""
    r = ctx.rng; T = 2; b = ctx.broker(threads=T, conf=BIGQ); w = ctx.world(b); now = clock(b); u = Uniq("b"); p = Client(w, b, "p", 5).connect(keepalive=65535)
    for rd in range(6):
        R = {}
        for i in range(40):
            e = r.choice([None, 5, 20, 30, 60, 100000]); m = {"pay": u(), "e": e, "q": 1, "t": now()}; p.pub("e/%d" % i, m["pay"], 1, retain=True, pr=[("expiry", e)] if e else None); R["e/%d" % i] = m
        c = Client(w, b, "c%d" % rd, 5); c.ack = False; c.connect(keepalive=65535, pr={"receive_max": 4}); c.sub(("e/#", 1)); w.until(lambda: len(c.pubs) >= 4, 10, "first retained messages"); n = 0; gone = 0; t0 = now()
        def advance(s): b.advance(s)
        while True:
            seen = len(c.pubs)
            for x in c.pubs[n:]:
                m = R.pop(x.topic, None)
                if m is None or bytes(x.payload) != m["pay"]: raise Violation("unexpected %r" % x)
                judge(ctx, "window-blocked retained delivery", m, x, last if n else m["t"], now(), 5, ceil=2147483647 if m["e"] else None) if m["e"] else None; ctx.eval(("blocked", m["e"], int(now() - t0) // 5))
            new = c.pubs[n:]; n = seen
            if not new: break
            last = now()
            if r.random() < 0.3: b.advance(r.choice([2, 6, 15])); last = now() - 0.0
            for x in new: c.do_ack(PUBACK, x.pid)
            try: w.until(lambda: len(c.pubs) > n, 1.5, "more")
            except Timeout: pass
            w.settle(0.08)
        for t, m in R.items():
            if m["e"] is None or now() - m["t"] < m["e"] - 3: raise Violation("retained message %r with interval %s is missing after %.1f s" % (m["pay"], m["e"], now() - m["t"]))
            ctx.count("expired")
        c.drop()
        for i in range(40): p.pub("e/%d" % i, b"", 0, retain=True)
        w.barrier([p])
