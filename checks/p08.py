from common import *
RULE = ("Storms of connections with one client id (versions, clean start, expiry and wills mixed, pipelined SUBSCRIBEs, connections that do not read, several worker threads, targeted delays in take-over, teardown and "
        "clean-up code): one connection must remain, be fully functional (subscription, each message once, queue, will, resumable session), also after the simulated time of all scheduled clean-ups has passed; "
        "every other one must be closed, MQTT 5 ones with 0x8E. Evaluation = one connection's fate; distinct by (version, clean, expiry, position, outcome).")
BUDGET = {"quick": 420}
SLOW = ["clientDisconnectActions", "assignActiveConnection", "registerClientAndKickExistingOne", "removeSession|queueSessionRemoval", "serverInitiatedDisconnect|ThreadData::serverInitiated", "sendAllPendingQosData",
        "Client::~Client|queueClientDisconnectActions", "removeExpiredSessionsClients", None]

def cases(tier, rng):
    n = 1 if tier == "quick" else 10
    out = [("storm-%d" % i, "storm", {"k": i, "rounds": 22}) for i in range(18 * n)]
    out += [("chain-%d" % i, "chain", {"k": i}) for i in range(6 * n)]
    out += [("stuck-%d" % i, "stuck", {"k": i}) for i in range(3 * n)]
    out += [("teardown-%d" % i, "teardown", {"k": i}) for i in range(8 * n)]
    return out

def storm(ctx, k, rounds):
    r = ctx.rng; T = r.choice([2, 4, 6]); b = ctx.broker(threads=T, conf=BIGQ, noise=r.choice([0, 200, 500])); w = ctx.world(b)
    s = SLOW[k % len(SLOW)]
    if s: b.slow(s, r.choice([500, 3000]), r.choice([1, 3]))
    ctx.count("delayed_functions", 1 if s else 0)
    pub = Client(w, b, "pub", 5).connect(); wl = Client(w, b, "willsub", 5).connect(); wl.sub(("will/#", 1)); uq = Uniq()
    base = b.fds(); prev = None
    for rd in range(rounds):
        cid = "s%d" % r.choice([0, 0, 1]); n = r.randint(2, 9); cs = []
        old = [c for c in w.clients if c.cid == cid and c.open]
        for i in range(n):
            ver = r.choice([3, 4, 5, 5, 5]); c = Client(w, b, cid, ver, name="%s.%d.%d" % (cid, rd, i)); cs.append(c)
            c.clean = r.random() < 0.35; c.exp = r.choice([0, 30, 1000]) if ver == 5 else 0
            c.wpay = uq("w") if 0 else ("w%d.%d" % (rd, i)) if r.random() < 0.5 else None
            c.pipe = r.random() < 0.5
        r.shuffle(cs)
        for c in cs:
            c.connect(clean=c.clean, pr={"session_expiry": c.exp} if c.ver == 5 else None, wait=False,
                      will=dict(topic="will/" + cid, payload=c.wpay, qos=1) if c.wpay else None)
            if c.pipe: c.send(subscribe(c.ver, 7, [("s/" + cid, 2)]))
            if r.random() < 0.2: w.pump()
        allc = old + cs
        def stable(): return sum(1 for c in allc if c.open) == 1 and all(c.connack or not c.open for c in allc)
        w.until(stable, 30, lambda: "one of %d connections with id %s to remain (open: %s)" % (n, cid, [c.name for c in allc if c.open]))
        live = [c for c in allc if c.open][0]
        if live in old: raise Violation("an older connection survived all new ones")
        w.barrier([live]); w.settle(0.003)
        if not live.open: raise Violation("the last connection with id %s was closed, too (%r)" % (cid, live.disc))
        for c in allc:
            if c is live: continue
            if c.ver == 5 and c.connack and (c.disc is None or c.disc.rc != 0x8E): raise Violation("taken-over MQTT 5 connection %s got %r instead of DISCONNECT 0x8E" % (c.name, c.disc))
            ctx.eval((c.ver, c.clean if hasattr(c, "clean") else None, getattr(c, "exp", 0), bool(c.connack), c.disc.rc if c.disc else None))
        if live.disc: raise Violation("the remaining connection got %r" % live.disc)
        # it works
        live.sub(("s/" + cid, 2)); live.pubs.clear(); pays = []
        for i in range(5): p = uq(); pays.append(p); pub.pub("s/" + cid, p, qos=i % 3)
        w.barrier([pub], [live])
        d = diff(pays, [bytes(p.payload) for p in live.pubs])
        if d: raise Violation("remaining connection %s (v%d clean %s expiry %s) after a storm of %d: %s" % (live.name, live.ver, live.clean, live.exp, n, d))
        if r.random() < 0.25:      # all scheduled clean-ups
            elapse(w, b, r.choice([12, 40]), T)
            pay = uq(); pub.pub("s/" + cid, pay, qos=1); w.barrier([pub], [live])
            if [bytes(p.payload) for p in live.pubs[5:]] != [pay]: raise Violation("remaining connection %s got %s after the clean-up of the others' sessions" % (live.name, live.pubs[5:]))
        ctx.count("storms"); ctx.count("connections", n)
        if r.random() < 0.5:
            # its session and will are its own
            w.barrier([live]); nw = len(wl.pubs); surv = live.ver == 5 and live.exp > 0 or live.ver < 5 and not live.clean
            before = b.fds(); live.drop(rst=r.random() < 0.5); w.until(lambda: b.fds() < before, 30, "removal of the connection"); tick(w, b, T); w.barrier([pub], [wl])
            got = [bytes(p.payload).decode() for p in wl.pubs]
            if live.wpay and got.count(live.wpay) != 1: raise Violation("will of the remaining connection was published %d times" % got.count(live.wpay))
            pay = uq(); pub.pub("s/" + cid, pay, qos=1)
            c = Client(w, b, cid, 5); c.clean = False; c.exp = 1000; c.wpay = None; c.connect(clean=False, pr={"session_expiry": 1000}); w.barrier([c])
            if bool(c.connack.sp) != surv: raise Violation("session present %d after the remaining connection (v%d clean %s expiry %s) ended" % (c.connack.sp, live.ver, live.clean, live.exp))
            if [bytes(p.payload) for p in c.pubs] != ([pay] if surv else []): raise Violation("queue of the remaining connection's session: %s" % c.pubs)
            ctx.eval(("resume", live.ver, live.clean, live.exp, surv)); live = c
        prev = live
    lives = [c for c in w.clients if c.open and c.cid in ("s0", "s1")]
    w.until(lambda: b.fds() <= base + len(lives), 30, lambda: "closed connections to be removed (%d fds, expected %d)" % (b.fds(), base + len(lives)))
    ctx.sample({"delayed": s, "threads": T, "rounds": rounds})

def chain(ctx, k):
    """One persistent session handed from connection to connection while it is being published to: each message arrives once (QoS 2), with a session that stays intact."""
    r = ctx.rng; T = 4; b = ctx.broker(threads=T, conf=BIGQ, noise=300); w = ctx.world(b); b.slow(SLOW[k % 6], 1500, 2)
    pub = Client(w, b, "pub", 5).connect(); sent = {}; uq = Uniq(); R = Receiver("c")
    def nxt():
        c = Client(w, b, "chain", r.choice([4, 5])); R.attach(c); c.connect(clean=False, pr={"session_expiry": 5000}); return c
    c = nxt(); c.sub(("ch/1", 2), ("ch/2", 1)); olds = []
    for i in range(60):
        for _ in range(r.randint(0, 4)):
            p = uq(); q = r.choice([1, 2]); sent[p] = q; pub.pub("ch/%d" % (1 if q == 2 else 2), p, qos=q, wait=r.random() < 0.5)
        old = c; c = nxt()
        if not c.connack.sp: raise Violation("session lost at take-over %d" % i)
        olds.append(old)
        if r.random() < 0.3: w.until(lambda: not old.open, 30, "close of the old connection")
        ctx.eval(("chain", c.ver, old.ver, len(c.pubs) > 0))
    w.until(lambda: not any(o.open for o in olds), 30, "close of old connections")
    elapse(w, b, 14, T); w.barrier([pub], [c]); w.barrier([c]); w.barrier([c])
    # what an old connection had received after the hand-over but not acknowledged comes again
    R.judge(sent, "chain ")
    ctx.count("chain_messages", len(sent))

def stuck(ctx, k):
    """The old connection does not read: the new one is served all the same, and the old one's requests are not."""
    r = ctx.rng; b = ctx.broker(threads=3, conf=BIGQ); w = ctx.world(b); pub = Client(w, b, "pub", 4).connect(); watch = Client(w, b, "watch", 4).connect(); watch.sub("from/old")
    for ver in (4, 5):
        for clean in (True, False):
            cid = "k%d%d" % (ver, clean); o = Client(w, b, cid, ver, rcvbuf=4096); o.connect(clean=clean, keepalive=120, pr={"session_expiry": 300}); o.sub(("big/" + cid, 0)); o.pause()
            for i in range(300): pub.pub("big/" + cid, b"x" * 60000)
            w.barrier([pub]); n = b.fds()
            c = Client(w, b, cid, r.choice([4, 5])).connect(clean=clean, pr={"session_expiry": 300}); c.sub(("small/" + cid, 1))
            o.send(publish(o.ver, "from/old", b"late")); w.settle(0.02)
            for i in range(20): pub.pub("small/" + cid, "m%d" % i, qos=1)
            w.barrier([pub], [c], [watch])
            if [bytes(p.payload) for p in c.pubs if p.topic.startswith("small")] != [b"m%d" % i for i in range(20)]: raise Violation("new connection while the old one does not read: %s" % c.pubs)
            tick(w, b, 3); w.barrier([pub], [watch])
            if watch.pubs: raise Violation("a PUBLISH the old connection sent long after the take-over was carried out")
            if r.random() < 0.5:
                # with its keep-alive at the latest it goes
                elapse(w, b, 200, 3); w.until(lambda: b.fds() <= n, 30, "removal of the stuck old connection")
            o.resume(); w.until(lambda: not o.open, 30, "close of the old connection")
            pub.pub("small/" + cid, "end", qos=1); w.barrier([pub], [c])
            if bytes(c.pubs[-1].payload) != b"end" or not c.open: raise Violation("the end of the stuck connection damaged the new one")
            ctx.eval(("stuck", ver, clean, c.ver))

def teardown(ctx, k):
    """The old connection's teardown runs at a late, chosen moment relative to what the new one does."""
    r = ctx.rng; T = 4; b = ctx.broker(threads=T, conf=BIGQ); w = ctx.world(b)
    b.slow(["clientDisconnectActions", "Client::~Client", "queueOrSendWillMessage|sendWill", "Session::assignActiveConnection", "queueSessionRemoval", "removeSession", "queueClientDisconnectActions", "clearWill"][k % 8], 4000, 1)
    pub = Client(w, b, "pub", 5).connect(); wl = Client(w, b, "wl", 5).connect(); wl.sub(("w", 1)); n = 0
    for rd in range(40):
        cid = "t%d" % rd; o = Client(w, b, cid, r.choice([4, 5])); oexp = r.choice([0, 100]); oclean = r.random() < 0.4; how = r.choice(["takeover", "drop", "disconnect", "rst"])
        o.connect(clean=oclean, pr={"session_expiry": oexp} if o.ver == 5 else None, will=dict(topic="w", payload="old%d" % rd, qos=1) if r.random() < 0.5 else None); o.sub(("t/" + cid, 1))
        persist = oexp > 0 if o.ver == 5 else not oclean
        if how == "drop": o.drop()
        elif how == "rst": o.drop(rst=True)
        elif how == "disconnect": o.disconnect(wait=r.random() < 0.5)
        time.sleep(r.choice([0, 0, 0.002, 0.006]))
        clean = r.random() < 0.3; exp = r.choice([0, 200]); delay = r.choice([0, 30])
        c = Client(w, b, cid, r.choice([4, 5])); c.connect(clean=clean, pr={"session_expiry": exp} if c.ver == 5 else None,
            will=dict(topic="w", payload="new%d" % rd, qos=1, props={"will_delay": delay} if c.ver == 5 else None))
        sp = persist and not clean
        if bool(c.connack.sp) != sp: raise Violation("session present %d, expected %d (old v%d clean %s expiry %d %s)" % (c.connack.sp, sp, o.ver, oclean, oexp, how))
        c.sub(("u/" + cid, 1)); w.until(lambda: not o.open, 30, "close of the old connection"); tick(w, b, T)
        p1, p2 = "a%d" % rd, "b%d" % rd; pub.pub("t/" + cid, p1, qos=1); pub.pub("u/" + cid, p2, qos=1); w.barrier([pub], [c])
        want = ([p1.encode()] if sp else []) + [p2.encode()]; got = [bytes(p.payload) for p in c.pubs]
        if got != want: raise Violation("after the old connection's teardown (v%d %s) the new one (v%d clean %s expiry %d) receives %s instead of %s" % (o.ver, how, c.ver, clean, exp, got, want))
        # its session is registered, resumable, and its will intact
        w.barrier([c]); c.pubs.clear(); fd = b.fds(); c.drop(); w.until(lambda: b.fds() < fd, 30, "removal"); tick(w, b, T); pub.pub("u/" + cid, "off", qos=1); w.barrier([wl])
        per = exp > 0 if c.ver == 5 else not clean; wills = [bytes(p.payload) for p in wl.pubs]; due = c.ver == 4 or not delay or not per
        if wills.count(b"new%d" % rd) != (1 if due else 0): raise Violation("will of the new connection published %d times at its end (v%d delay %d persistent %s)" % (wills.count(b"new%d" % rd), c.ver, delay, per))
        if not due and r.random() < 0.7:
            elapse(w, b, 36, T); w.barrier([wl])
            if [bytes(p.payload) for p in wl.pubs].count(b"new%d" % rd) != 1: raise Violation("delayed will of the new connection was not published once (old: v%d %s)" % (o.ver, how))
        d = Client(w, b, cid, 4); d.connect(clean=False); w.barrier([d])
        if bool(d.connack.sp) != per or [bytes(p.payload) for p in d.pubs] != ([b"off"] if per else []): raise Violation("session of the new connection (v%d clean %s expiry %d, old v%d %s): session present %d, queue %s" % (c.ver, clean, exp, o.ver, how, d.connack.sp, d.pubs))
        d.drop(); ctx.eval(("teardown", o.ver, oclean, oexp, how, c.ver, clean, exp, delay))
