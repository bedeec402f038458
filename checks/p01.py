from common import *

RULE = ("script cases: random subscription sets (filters over a small alphabet incl. empty levels, '+', '#', duplicates within one SUBSCRIBE, No Local, Retain As Published, "
        "identifiers, mixed MQTT 3.1/3.1.1/5 clients, some sessions offline) mutated at random, then bursts of publishes from several connections; every copy each session got is compared "
        "with a reference matcher. churn cases: the same with concurrent subscribe/unsubscribe of overlapping filters, purging of empty tree nodes and scheduling noise. "
        "Evaluation = one (message, session) decision; non-trivial = topic/filter-set pairs with at least one matching filter, distinct by (topic, matching options).")

def cases(tier, rng):
    n = 36 if tier == "quick" else 300
    out = [("matrix", "matrix"), ("depth", "depth"), ("dollar", "dollar"), ("dupsub", "dupsub"), ("resub-offline", "resub_offline")]
    out += [("script-%d" % i, "script", {"k": i, "rounds": 36 if tier == "quick" else 60}) for i in range(n)]
    out += [("churn-%d" % i, "churn", {"k": i, "rounds": 10 if tier == "quick" else 40}) for i in range(6 if tier == "quick" else 60)]
    out += [("purge-%d" % i, "purge", {"k": i, "rounds": 30 if tier == "quick" else 300}) for i in range(4 if tier == "quick" else 30)]
    return out

class Sess:
    def __init__(self, c, persistent): self.c = c; self.subs = {}; self.persistent = persistent; self.exp = []; self.mark = 0

def expected(s, pubcli, topic, qos, retain, payload):
    out = []
    for f, (q, nl, rap, sid) in s.subs.items():
        if not match(f, topic): continue
        if nl and s.c is not None and pubcli == s.c.cid: continue
        r = retain and rap and s.c.ver == 5
        out.append((payload, topic, min(qos, q), bool(r), sid if s.c.ver == 5 else None))
    return out

def got(c, frm, published_before=()):
    return [(bytes(p.payload), p.topic, p.qos, p.retain, p.prop("sub_id")) for p in c.pubs[frm:]]

def check_sess(ctx, s, what, ignore_retained):
    g = got(s.c, s.mark); s.mark = len(s.c.pubs)
    # what came from the retained store (older message, retain flag) is property P09's concern
    e = s.exp; es = set(e)
    g = [x for x in g if not (x[3] and x[0] in ignore_retained and x not in es)]
    d = diff(e, g)
    if d: raise Violation("%s: session %s (v%d) with subscriptions %s: %s" % (what, s.c.cid, s.c.ver, s.subs, d))
    s.exp = []

def wait_expected(w, sessions):
    """QoS>0 messages beyond the receive window come later; wait for the counts, then look for extras."""
    def ok():
        return all(not s.c.open or len(s.c.pubs) - s.mark >= len(s.exp) for s in sessions)
    try: w.until(ok, 20, "deliveries")
    except Timeout: pass       # the comparison tells precisely what is missing

def script(ctx, k, rounds):
    r = ctx.rng
    b = ctx.broker(threads=r.choice([1, 2, 4]), noise=r.choice([0, 0, 300]))
    w = ctx.world(b); u = Uniq("s%d-" % k)
    levels = r.sample(LEVELS, r.randint(2, 4))
    S = []
    for i in range(6):
        ver = r.choice([3, 4, 5, 5]); pers = r.random() < 0.5
        c = Client(w, b, "sub%d" % i, ver)
        c.connect(clean=not pers, pr={"session_expiry": 100000 if pers else 0})
        S.append(Sess(c, pers))
    P = [Client(w, b, "pub%d" % i, r.choice([3, 4, 5])).connect() for i in range(3)]
    for rd in range(rounds):
        # mutate subscriptions
        for s in r.sample(S, r.randint(1, 4)):
            if not s.c.open: continue
            for _ in range(r.randint(1, 3)):
                if s.subs and r.random() < 0.35:
                    fs = [r.choice(list(s.subs)) if r.random() < 0.75 else rfilter(r, 4, levels) for _ in range(r.randint(1, 2))]
                    s.c.unsub(*fs)
                    for f in fs: s.subs.pop(f, None)
                    ctx.step(s.c.cid, "unsub", fs)
                else:
                    fs = []
                    sid = r.choice([None, 1, 127, 128, 268435455]) if s.c.ver == 5 else None
                    for _ in range(r.randint(1, 4)):
                        f = r.choice(list(s.subs)) if s.subs and r.random() < 0.3 else rfilter(r, 4, levels)
                        o = (r.randint(0, 2), r.random() < 0.3, r.random() < 0.5) if s.c.ver == 5 else (r.randint(0, 2), False, False)
                        fs.append((f, o))
                    s.c.sub(*[(f, subopt(*o, rh=2 if s.c.ver == 5 else 0)) for f, o in fs], pr={"sub_id": sid} if sid else None)
                    for f, o in fs: s.subs[f] = o + (sid,)
                    ctx.step(s.c.cid, "sub", fs, sid)
        # disconnect / reconnect a persistent one
        for s in S:
            if s.persistent and r.random() < 0.2:
                if s.c.open:
                    if r.random() < 0.5: s.c.disconnect()
                    else: s.c.drop()
                    w.barrier([x.c for x in S] + P)
                    ctx.step(s.c.cid, "offline")
        dead = set(u_p for u_p in [])
        pend = []
        old = set(getattr(ctx, "oldret", ()))
        for _ in range(r.randint(5, 25)):
            p = r.choice(P + [s.c for s in S if s.c.open])
            t = rtopic(r, 4, levels); q = r.randint(0, 2); rt = r.random() < 0.15; pay = u()
            off_ok = True
            p.pub(t, pay, qos=q, retain=rt, wait=False)
            n = 0
            for s in S:
                e = expected(s, p.cid, t, q, rt, pay)
                if not s.c.open: e = [x for x in e if x[2] > 0]
                s.exp += e; n += len(e)
                ctx.eval((t, tuple(sorted(repr(x[2:]) for x in e))) if e else None)
            if rt: old.add(pay)
            ctx.step(p.cid, "pub", t, q, rt, pay, "expected copies", n)
        ctx.oldret = old
        w.barrier(P + [s.c for s in S], P + [s.c for s in S])
        # bring some back
        for s in S:
            if not s.c.open and (r.random() < 0.5 or rd == rounds - 1):
                o = s.c; c = Client(w, b, o.cid, o.ver); c.connect(clean=False, pr={"session_expiry": 100000})
                if o.ver > 3 and not c.connack.sp: raise Violation("session of %s lost" % o.cid)
                s.c = c; s.mark = 0
        live = [s for s in S if s.c.open]
        wait_expected(w, live)
        w.barrier([s.c for s in live], [s.c for s in live])
        for s in live: check_sess(ctx, s, "round %d" % rd, old)
    ctx.sample({"subscriptions": {s.c.cid: {f: o for f, o in list(s.subs.items())[:6]} for s in S[:2]}, "last_topic": t})
    ctx.count("messages", u.n)

def matrix(ctx):
    """Every filter over {a,b,'',+,#} up to 3 levels against every topic up to 3 levels, in one go."""
    import itertools
    b = ctx.broker(threads=2); w = ctx.world(b)
    topics = ["/".join(t) for n in (1, 2, 3) for t in itertools.product(["a", "b", ""], repeat=n)]
    topics = [t for t in topics if t]
    filts = set()
    for n in (1, 2, 3, 4):
        for t in itertools.product(["a", "b", "", "+"] if n < 4 else ["a", "", "+"], repeat=n):
            filts.add("/".join(t)); filts.add("/".join(t[:-1] + ("#",)))
    filts = sorted(f for f in filts if f)
    subs = [Client(w, b, "m%d" % i, [4, 5][i % 2]).connect() for i in range(8)]
    own = {c.cid: [] for c in subs}
    for i, f in enumerate(filts): own[subs[i % 8].cid].append(f)
    p = Client(w, b, "p", 5).connect()
    for phase in range(2):
        for c in subs:
            L = own[c.cid]
            for j in range(0, len(L), 50): c.sub(*[(f, 0) for f in L[j:j + 50]])
        for c in subs: c.pubs.clear()
        for t in topics: p.pub(t, t, wait=False)
        w.barrier([p], subs)
        for c in subs:
            exp = [t for t in topics for f in own[c.cid] if match(f, t)]
            d = diff(exp, [x.topic for x in c.pubs])
            for t in topics: ctx.eval((t, c.cid, phase))
            if d: raise Violation("phase %d, filters of %s: %s" % (phase, c.cid, d))
        # unsubscribe every second, one by one in the other order
        for c in subs:
            L = own[c.cid]; gone = L[phase::2][::-1]
            for j in range(0, len(gone), 40): c.unsub(*gone[j:j + 40])
            own[c.cid] = [f for f in L if f not in gone]
            c.pubs.clear()
        for t in topics: p.pub(t, t, wait=False)
        w.barrier([p], subs)
        for c in subs:
            exp = [t for t in topics for f in own[c.cid] if match(f, t)]
            d = diff(exp, [x.topic for x in c.pubs])
            if d: raise Violation("after unsubscribing, filters of %s: %s" % (c.cid, d))
    ctx.count("filters", len(filts)); ctx.count("topics", len(topics))

def depth(ctx):
    """Deep topics and long levels."""
    b = ctx.broker(threads=2); w = ctx.world(b)
    s = Client(w, b, "s", 5).connect(); p = Client(w, b, "p", 4).connect()
    deep = "/".join("l%d" % i for i in range(100)); long1 = "x" * 2000 + "/" + "y" * 1500; slashes = "/" * 90
    fs = [deep, "/".join(["+"] * 100), "l0/#", "/".join(deep.split("/")[:60]) + "/#", long1, "+/" + "y" * 1500, slashes, "/" * 89 + "+", "#"]
    fs = list(dict.fromkeys(fs))
    s.sub(*[(f, 0) for f in fs])
    ts = [deep, deep + "/z", long1, slashes, "/" * 91, "l0", "l0/", "/".join(deep.split("/")[:60]), "/".join(deep.split("/")[:59])]
    for t in ts: p.pub(t, "x", wait=False)
    w.barrier([p], [s])
    d = diff([t for t in ts for f in fs if match(f, t)], [x.topic for x in s.pubs])
    for t in ts: ctx.eval(t[:50])
    if d: raise Violation("deep topics: " + d[:500])

def dollar(ctx):
    b = ctx.broker(threads=2); w = ctx.world(b)
    c = Client(w, b, "w", 5).connect(); c.sub(("#", 0), ("+/#", 0), ("+/broker/#", 0), ("+", 0))
    s = Client(w, b, "s", 4).connect(); s.sub(("$SYS/#", 0))
    s2 = Client(w, b, "s2", 4).connect(); s2.sub(("$SYS/broker/+", 0))
    p = Client(w, b, "p", 4).connect()
    for i in range(4):
        p.pub("$SYS/foo", "x", wait=False); p.pub("$x/foo", "x", wait=False); p.pub("$", "x", wait=False); p.pub("a$/foo", "ok%d" % i, wait=False)
        n = len(s.pubs)
        b.advance(11); w.until(lambda: len(s.pubs) > n + 5, 20, "$SYS topics"); ctx.eval(("sys", i))
    w.barrier([p, s], [c, s, s2])
    t = [x.topic for x in c.pubs]
    if any(x.startswith("$") for x in t): raise Violation("leading wildcard matched %s" % [x for x in t if x.startswith("$")][:3])
    if sorted(t) != sorted(["a$/foo"] * 8): raise Violation("'#' and '+/#' got %s" % t)
    if any(not match("$SYS/#", x.topic) for x in s.pubs): raise Violation("$SYS/# got other topics")
    if any(not match("$SYS/broker/+", x.topic) for x in s2.pubs): raise Violation("$SYS/broker/+ got other topics")
    ctx.count("sys_messages", len(s.pubs))

def dupsub(ctx):
    """Last of duplicates within one SUBSCRIBE wins."""
    b = ctx.broker(threads=1); w = ctx.world(b)
    p = Client(w, b, "p", 5).connect()
    for ver in (4, 5):
        for qs in ((0, 2), (2, 0), (1, 2, 0), (2, 1, 1)):
            s = Client(w, b, "s%d" % ver, ver).connect()
            s.sub(*[("d/t", q) for q in qs])
            p.pub("d/t", "x", qos=2); w.barrier([p], [s])
            ctx.eval((ver, qs))
            g = [x.qos for x in s.pubs]
            if g != [qs[-1]]: raise Violation("SUBSCRIBE with the same filter at QoS %s: delivered with QoS %s" % (qs, g))
            s.disconnect()

def resub_offline(ctx):
    """Re-subscribing and unsubscribing around reconnects, sessions replaced by clean start."""
    b = ctx.broker(threads=2); w = ctx.world(b); r = ctx.rng
    p = Client(w, b, "p", 5).connect()
    for i in range(12):
        cid = "r%d" % (i % 3)
        s = Client(w, b, cid, 5).connect(clean=True, pr={"session_expiry": 1000})
        s.sub(("q/%d/#" % i, 1))
        s.disconnect()
        s2 = Client(w, b, cid, 5).connect(clean=(i % 2 == 0), pr={"session_expiry": 1000})
        s2.sub(("z/#", 1))
        p.pub("q/%d/x" % i, "m", qos=1); p.pub("q/%d/x" % (i - 3), "old", qos=1); p.pub("z", "n", qos=1)
        w.barrier([p], [s2], [s2])
        exp = ["n"] + (["m"] if i % 2 else [])
        g = [x.payload.decode() for x in s2.pubs]
        ctx.eval(i)
        if sorted(g) != sorted(exp): raise Violation("clean=%s: got %s expected %s" % (i % 2 == 0, g, exp))
        s2.drop()

def churn(ctx, k, rounds):
    """Stable subscribers must be unaffected by, and churners must see exactly, concurrent (un)subscribing with noise and node purging."""
    r = ctx.rng
    b = ctx.broker(threads=4, noise=r.choice([20, 60, 200]), slow_mod=r.choice([0, 30, 80]), slow_us=800,
                   conf={"subscription_node_lifetime": 0, **BIGQ})
    w = ctx.world(b); u = Uniq("c%d-" % k)
    base = ["t/%s/%s" % (x, y) for x in "abc" for y in "123"]
    stable = []
    for i in range(4):
        c = Client(w, b, "st%d" % i, r.choice([4, 5])).connect(); fs = r.sample(["t/+/1", "t/a/#", "t/b/2", "t/+/+", "t/c/3", "#"], 3)
        c.sub(*[(f, 1) for f in fs]); stable.append((c, fs, []))
    ch = [Client(w, b, "ch%d" % i, r.choice([4, 5])).connect() for i in range(8)]
    pubs = [Client(w, b, "p%d" % i, 4).connect() for i in range(3)]
    st = {c.cid: {"state": "idle"} for c in ch}
    n = [0]
    def drive(c):
        """subscribe -> after SUBACK publish own message, must come back -> unsubscribe -> after UNSUBACK publish, must not."""
        s = st[c.cid]
        if s["state"] == "idle":
            t = r.choice(base) + "/" + r.choice(["x", "y"]); f = r.choice([t, t[:-1] + "+", t.rsplit("/", 1)[0] + "/#"])
            s.update(state="subbing", t=t, f=f, pid=c.sub((f, 1), wait=False))
        elif s["state"] == "subbing" and c.acks.get((SUBACK, s["pid"])):
            c.acks.pop((SUBACK, s["pid"])); s["pay"] = u(); c.pub(s["t"], s["pay"], qos=1, wait=False); c.ping_sent += 1; c.send(PING)
            note(s["t"], s["pay"]); s.update(state="inside", pong=c.ping_sent)
        elif s["state"] == "inside" and c.pongs >= s["pong"]:
            k2 = [x for x in c.pubs if bytes(x.payload) == s["pay"]]
            if len(k2) != 1: raise Violation("%s subscribed %s, published %s itself after SUBACK, received it %d times" % (c.cid, s["f"], s["t"], len(k2)))
            ctx.eval(("churn", s["f"], s["t"]))
            s.update(state="unsubbing", pid=c.unsub(s["f"], wait=False))
        elif s["state"] == "unsubbing" and c.acks.get((UNSUBACK, s["pid"])):
            c.acks.pop((UNSUBACK, s["pid"])); s["pay"] = u(); c.pub(s["t"], s["pay"], qos=1, wait=False); c.ping_sent += 1; c.send(PING)
            note(s["t"], s["pay"]); s.update(state="outside", pong=c.ping_sent)
        elif s["state"] == "outside" and c.pongs >= s["pong"]:
            k2 = [x for x in c.pubs if bytes(x.payload) == s["pay"]]
            if k2: raise Violation("%s unsubscribed %s, yet received %r afterwards" % (c.cid, s["f"], k2[0]))
            ctx.eval(("churn-un", s["f"], s["t"])); c.pubs.clear(); s["state"] = "idle"; n[0] += 1
    def note(t, pay):
        for c, fs, e in stable:
            for f in fs:
                if match(f, t): e.append((t, pay))
    for rd in range(rounds):
        end = time.monotonic() + 0.7; nextp = 0
        while time.monotonic() < end:
            w.pump(0.002)
            for c in ch: drive(c)
            if u.n - nextp > 3:
                nextp = u.n
                for p in pubs:
                    t = r.choice(base); pay = u(); p.pub(t, pay, qos=r.randint(0, 1), wait=False); note(t, pay)
        b.advance(1850)     # purge tick
        allc = ch + pubs; w.barrier(allc, [c for c, _, _ in stable], [c for c, _, _ in stable])
        try: w.until(lambda: all(len(c.pubs) >= len(e) for c, _, e in stable), 20)
        except Timeout: pass
        for c, fs, e in stable:
            d = diff(e, [(x.topic, bytes(x.payload)) for x in c.pubs])
            ctx.eval(("stable", rd, c.cid), n=len(e) + 1)
            if d: raise Violation("stable subscriber %s %s: %s" % (c.cid, fs, d))
            c.pubs.clear(); e.clear()
    ctx.count("churn_cycles", n[0]); ctx.count("noise_hits", b.get("noise_hits")); ctx.count("messages", u.n)

def purge(ctx, k, rounds):
    """A subscription made while the tree is being purged must not get lost: idle nodes, purge tick and SUBSCRIBE collide."""
    r = ctx.rng
    b = ctx.broker(threads=4, noise=500, conf={"subscription_node_lifetime": r.choice([0, 10])})
    b.slow(r"SubscriptionNode::addSubscriber", r.choice([2000, 8000]), r.choice([1, 2, 4]))
    w = ctx.world(b); N = 24; cl = [Client(w, b, "c%d" % i, 4).connect() for i in range(N)]
    p = Client(w, b, "p", 4).connect(); wide = r.choice([3, 40])    # more than 15 children: clean-up is spread over several ticks
    for rd in range(rounds):
        tops = ["pg/%d/%d/x" % (rd % 5, i % wide * 100 + i) for i in range(N)]
        for c, t in zip(cl, tops): c.sub((t, 0), wait=False)
        w.barrier(cl)
        for c, t in zip(cl, tops): c.unsub(t, wait=False)
        w.barrier(cl)
        b.advance(1850)
        # the main loop wakes up every 100 ms at most: spread subscribes over that time
        for c, t in zip(cl, tops):
            w.settle(r.random() * 0.01); c.sub((t, 0), wait=False)
        w.barrier(cl)
        for c in cl: c.pubs.clear()
        for t in tops: p.pub(t, "v%d" % rd, wait=False)
        w.barrier([p], cl)
        for c, t in zip(cl, tops):
            ctx.eval(("purge", rd, t))
            if [x.topic for x in c.pubs] != [t]: raise Violation("round %d: %s subscribed to %s (acknowledged) but received %s" % (rd, c.cid, t, [x.topic for x in c.pubs]))
            c.unsub(t, wait=False)
        w.barrier(cl)
    ctx.count("purge_rounds", rounds); ctx.count("targeted_delays", b.get("thits"))
