from common import *
RULE = ("Every way a connection can end (normal DISCONNECT, DISCONNECT with other codes, close, reset, protocol error, keep-alive, take-over with and without clean start, removal, broker's shutdown) crossed with will properties, will delay, "
        "session expiry, resumption and simulated time; observers on all will topics count each will and compare content and time. Storms of take-overs check that each connection's will is its own. "
        "Evaluation = one will's fate; distinct by (version, end, delay, expiry, continuation).")
BUDGET = {"quick": 420}

def cases(tier, rng):
    n = 1 if tier == "quick" else 8
    out = [("ends-%d" % v, "ends", {"ver": v}) for v in (3, 4, 5)]
    out += [("delay-%d" % i, "delay", {"k": i}) for i in range(12 * n)]
    out += [("own-%d" % i, "own", {"k": i}) for i in range(8 * n)]
    out += [("storm-%d" % i, "storm", {"k": i}) for i in range(6 * n)]
    out += [("same-time-%d" % i, "same_time", {"k": i}) for i in range(3 * n)]
    out += [("content-%d" % i, "content", {"k": i}) for i in range(3 * n)]
    out += [("off", "off")]
    return out

def watcher(w, b):
    c = Client(w, b, "watcher", 5).connect(keepalive=65535); c.sub(("w/#", subopt(2, rap=True))); return c
def wills(c, pay): pay = pay.encode() if isinstance(pay, str) else pay; return sum(1 for p in c.pubs if bytes(p.payload) == pay)

def ends(ctx, ver):
    r = ctx.rng; T = 2; b = ctx.broker(threads=T, conf=dict(BIGQ, max_packet_size=100000), noise=200); w = ctx.world(b); wt = watcher(w, b); n = 0
    E = {"close": 1, "rst": 1, "disconnect": 0, "disconnect+later": 0, "proto": 1, "half": 1, "takeover": 1, "takeoverclean": 1, "toolarge": 1, "second-connect": 1, "pub+close": 1, "keepalive": 1}
    if ver == 5: E.update({"disc04": 1, "disc81": 1, "discexp": 0, "disc00": 0, "badalias": 1})
    for how, due in E.items():
        for rd in range(6):
            n += 1; pay = "will-%d" % n; q = r.randint(0, 2); ret = r.random() < 0.3; cid = "c%d" % n; clean = r.random() < 0.5
            c = Client(w, b, cid, ver); c.connect(clean=clean, keepalive=10 if how == "keepalive" else 60000, will=dict(topic="w/%d" % n, payload=pay, qos=q, retain=ret), pr={"session_expiry": r.choice([0, 100, 5000])} if ver == 5 else None)
            if r.random() < 0.5: c.sub(("x", 1))
            if r.random() < 0.5: c.pub("x/y", "hello", qos=2)
            w.barrier([c], [wt])
            if wills(wt, pay): raise Violation("will published while its connection is up")
            f = b.fds()
            if how == "close": c.drop()
            elif how == "rst": c.drop(rst=True)
            elif how in ("disconnect", "disc00"): c.disconnect()
            elif how == "disconnect+later": c.send(disconnect(ver) + PING + publish(ver, "x/z", b"after")); c.wait_closed()
            elif how == "proto": c.send(b"\x00\x00"); c.wait_closed()
            elif how == "half": c.send(publish(ver, "x", b"abcdef")[:5]); c.drop()
            elif how == "toolarge": c.send(publish(ver, "x", b"a" * 200000)[:50]); c.wait_closed()
            elif how == "second-connect": c.send(connect(ver, cid, clean)); c.wait_closed()
            elif how == "pub+close": c.send(publish(ver, "x", b"abcdef") * 5); c.drop()
            elif how == "keepalive": b.advance(9); tick(w, b, T); b.advance(14); tick(w, b, T); b.advance(6); tick(w, b, T); c.wait_closed()
            elif how == "badalias": c.send(publish(5, "", b"x", pr=[("topic_alias", 9)])); c.wait_closed()
            elif how.startswith("takeover"): o = Client(w, b, cid, ver).connect(clean=how.endswith("clean")); c.wait_closed()
            elif how == "disc04": c.disconnect(rc=4)
            elif how == "disc81": c.disconnect(rc=0x81)
            elif how == "discexp": c.disconnect(pr={"session_expiry": 50}) if dict(c.connack.props).get("session_expiry", 1) and False else c.disconnect(pr={})
            w.until(lambda: b.fds() <= (f if how.startswith("takeover") else f - 1), 30, "the broker to remove the connection"); tick(w, b, T); tick(w, b, T); w.barrier([wt])
            if wills(wt, pay) != due: raise Violation("will published %d times after end '%s' of a v%d connection, expected %d" % (wills(wt, pay), how, ver, due))
            if due:
                p = [p for p in wt.pubs if bytes(p.payload) == pay.encode()][0]
                if (p.topic, p.qos, p.retain) != ("w/%d" % n, q, ret): raise Violation("will %s QoS %d retain %d arrived as %r" % (pay, q, ret, p))
            ctx.eval((ver, how, clean, q, ret)); ctx.count("wills_due" if due else "wills_cancelled")
    elapse(w, b, 30, T); elapse(w, b, 6000, T, 3000); w.barrier([wt])
    for i in range(1, n + 1):
        if wills(wt, "will-%d" % i) > 1: raise Violation("will-%d published again later" % i)
    if any(p.topic == "x/z" for p in wt.pubs): raise Violation("packet after DISCONNECT processed")

def delay(ctx, k):
    """Will delay and session expiry: due at the minimum, cancelled by resumption, not by clean start."""
    r = ctx.rng; T = r.choice([1, 2, 3]); b = ctx.broker(threads=T, conf=BIGQ, noise=r.choice([0, 200])); w = ctx.world(b); wt = watcher(w, b); t0 = time.monotonic(); now = lambda: time.monotonic() - t0 + b.get("clock") / 1e9
    P = {}; n = 0       # payload -> dict(due, state)
    def check():
        w.barrier([wt])
        for pay, s in P.items():
            g = wills(wt, pay)
            if g > 1: raise Violation("will %s published %d times" % (pay, g))
            if s["state"] == "cancelled" and g: raise Violation("will %s published although %s (%s)" % (pay, s["why"], s))
            if s["state"] == "pending":
                if g and now() < s["due"] - 1.2: raise Violation("will %s published %.1f s early (%s)" % (pay, s["due"] - now(), s))
                if not g and now() > s["due"] + (14 if s["byexp"] else 5): raise Violation("will %s not published %.1f s after it was due (%s)" % (pay, now() - s["due"], s))
                if g: s["state"] = "done"
    for rd in range(45):
        n += 1; cid = "d%d" % n; pay = "will-%d" % n; d = r.choice([0, 1, 5, 20, 60, 300, 100000]); e = r.choice([0, 5, 30, 100, 5000, 0xFFFFFFFF]); clean = r.random() < 0.5
        c = Client(w, b, cid, 5); c.connect(clean=clean, will=dict(topic="w/%d" % n, payload=pay, qos=r.randint(0, 2), props={"will_delay": d} if d or r.random() < 0.5 else None), pr={"session_expiry": e})
        end = r.choice(["close", "rst", "disc04", "takeover-resume", "takeover-clean", "close", "disc04exp"])
        s = {"state": "pending", "d": d, "e": e, "end": end}; P[pay] = s; s["byexp"] = min(d, e) == e and e > 0
        if end.startswith("takeover"):
            cl = end.endswith("clean"); o = Client(w, b, cid, r.choice([4, 5])).connect(clean=cl, pr={"session_expiry": 100}); c.wait_closed(); tick(w, b, T)
            if cl or d == 0 or e == 0: s["due"] = now(); s["byexp"] = False          # session ended / no delay
            else: s["state"] = "cancelled"; s["why"] = "the session was resumed before the delay passed"
            ctx.eval((end, d, e, clean, o.ver))
        else:
            if end == "disc04exp" and e:
                e = r.choice([0, 10, 50]); s["e"] = e; s["byexp"] = min(d, e) == e and e > 0; drop_and_wait(w, b, c, T, lambda c: c.disconnect(rc=4, pr={"session_expiry": e}))
            elif end.startswith("disc04"): drop_and_wait(w, b, c, T, lambda c: c.disconnect(rc=4))
            else: drop_and_wait(w, b, c, T, "drop" if end == "close" else "rst")
            s["due"] = now() + min(d, e); nxt = r.choice(["wait", "wait", "resume", "clean", "resume-again"])
            ctx.eval((end, d, e, clean, nxt))
            if nxt != "wait" and min(d, e) > 0:
                part = r.choice([0, 0.3, 0.6]) * min(d, e, 300)
                if part: elapse(w, b, part, T); check()
                if s["state"] == "pending" and now() < s["due"] - 3:
                    o = Client(w, b, cid, r.choice([4, 5])); own = r.random() < 0.4
                    if own: n += 1
                    o.connect(clean=nxt == "clean", pr={"session_expiry": 1000}, will=dict(topic="w/x%d" % n, payload="own-%d" % n, qos=1, props={"will_delay": 30} if o.ver == 5 else None) if own else None)
                    if nxt == "clean": s["due"] = now(); s["byexp"] = False; s["why"] = "clean start"
                    else: s["state"] = "cancelled"; s["why"] = "the session was resumed in time"
                    if r.random() < 0.6:
                        drop_and_wait(w, b, o, T, lambda c: c.disconnect())
                        if own: P["own-%d" % n] = {"state": "cancelled", "why": "normal DISCONNECT", "after": s}
                    elif own:
                        drop_and_wait(w, b, o, T); P["own-%d" % n] = {"state": "pending", "due": now() + (30 if o.ver == 5 else 0), "byexp": False, "after": s}
        check()
        if r.random() < 0.4: elapse(w, b, r.choice([2, 6, 15, 40]), T); check()
        if r.random() < 0.08: elapse(w, b, 400, T, 100); check()
    elapse(w, b, 320, T); check(); elapse(w, b, 5100, T, 1300); elapse(w, b, 20, T); check()
    for _ in range(2): b.advance(48000); tick(w, b, T); w.barrier([wt])
    elapse(w, b, 30, T); check()
    left = [p for p, s in P.items() if s["state"] == "pending"]
    if left: raise Violation("wills never published: %s" % [(p, P[p]) for p in left[:3]])
    ctx.count("wills", len(P)); ctx.sample({"some": [str(x) for x in list(P.items())[:3]]})

def own(ctx, k):
    """The end of an old connection (late teardown, its will, its DISCONNECT) leaves the will of the new one alone."""
    r = ctx.rng; T = 4; b = ctx.broker(threads=T, conf=BIGQ); w = ctx.world(b); wt = watcher(w, b)
    b.slow(["clientDisconnectActions", "queueOrSendWillMessage", "sendWill", "clearWill", "Client::~Client", "queueWillMessage", "assignActiveConnection", "handleDisconnect"][k % 8], 4000, 1)
    for rd in range(45):
        cid = "o%d" % rd; od, nd = r.choice([0, 0, 4, 40]), r.choice([0, 5, 20]); clean = r.random() < 0.3
        o = Client(w, b, cid, 5); o.connect(clean=True, pr={"session_expiry": 500}, will=dict(topic="w/o", payload="old%d" % rd, qos=1, props={"will_delay": od}))
        f = b.fds(); how = r.choice(["takeover", "takeover", "close", "disconnect", "discthentake"])
        if how == "close": o.drop()
        elif how == "disconnect": o.disconnect(wait=False)
        elif how == "discthentake": o.send(disconnect(5))
        c = Client(w, b, cid, 5); c.connect(clean=clean, pr={"session_expiry": 500}, will=dict(topic="w/n", payload="new%d" % rd, qos=1, props={"will_delay": nd}))
        w.until(lambda: not o.open and b.fds() <= f, 30, "close of the old connection"); tick(w, b, T); w.barrier([wt])
        if wills(wt, "new%d" % rd): raise Violation("will of the live connection published at the old one's end (%s)" % how)
        c.drop(); w.until(lambda: b.fds() <= f - 1, 30, "removal"); tick(w, b, T); w.barrier([wt])
        if wills(wt, "new%d" % rd) != (nd == 0): raise Violation("will with delay %d published %d times right at the end (old end %s)" % (nd, wills(wt, "new%d" % rd), how))
        if nd: elapse(w, b, nd + 4, T); w.barrier([wt])
        g = wills(wt, "new%d" % rd)
        if g != 1: raise Violation("will of the new connection (delay %d) published %d times; old connection's end: %s, its delay %d, clean start %s" % (nd, g, how, od, clean))
        g = wills(wt, "old%d" % rd); exp = {0, 1} if how == "discthentake" else {0} if how == "disconnect" else {1} if od == 0 or clean else {0}
        if how == "disconnect": exp = {0, 1}          # its DISCONNECT may still be unread when the new connection takes over
        if g not in exp: raise Violation("will of the old connection (delay %d) published %d times, expected %s; end: %s, new connection with clean start %s" % (od, g, exp, how, clean))
        ctx.eval(("own", od, nd, clean, how))

def storm(ctx, k):
    """Storms with wills without delay: each connection that was accepted and closed by a take-over has its will published once, the remaining one not until it ends."""
    r = ctx.rng; T = 5; b = ctx.broker(threads=T, conf=BIGQ, noise=400); w = ctx.world(b); wt = watcher(w, b)
    if k % 2: b.slow("clientDisconnectActions|sendWill", 1500, 3)
    live = None; n = 0
    for rd in range(25):
        cs = []
        for i in range(r.randint(2, 8)):
            n += 1; c = Client(w, b, "st", r.choice([3, 4, 5]), name="st%d" % n); c.pay = "s%d" % n; cs.append(c)
        f = b.fds() - len(cs) if rd else None
        for c in cs: c.connect(clean=r.random() < 0.5, pr={"session_expiry": 100} if c.ver == 5 else None, wait=False, will=dict(topic="w/s", payload=c.pay, qos=r.randint(0, 2)))
        allc = cs + ([live] if live else [])
        w.until(lambda: sum(c.open for c in allc) == 1 and all(c.connack or not c.open for c in allc), 30, "the storm to end")
        live = [c for c in allc if c.open][0]; base = b.fds()
        w.settle(0.01); tick(w, b, T); tick(w, b, T); w.barrier([wt])
        for c in allc:
            g = wills(wt, c.pay); exp = 0 if c is live else 1
            if c is not live and c.connack is None: continue
            if g != exp:
                w.settle(0.3); tick(w, b, T); w.barrier([wt]); g = wills(wt, c.pay)
            if g != exp: raise Violation("will of %s (v%d, %s) published %d times, expected %d" % (c.name, c.ver, "remaining" if c is live else "taken over", g, exp))
            ctx.eval(("storm", c.ver, c is live)); ctx.count("wills")

def same_time(ctx, k):
    """Delay and session expiry equal, so that both clean-ups run at the same moment in different threads: still once."""
    r = ctx.rng; T = 6; b = ctx.broker(threads=T, conf=BIGQ); w = ctx.world(b); wt = watcher(w, b); b.slow(["sendWill", "removeSession", "sendQueuedWillMessages"][k % 3], 1000, 2); n = 0
    for rd in range(8):
        cs = []
        for i in range(25):
            n += 1; e = r.choice([20, 20, 21, 19]); c = Client(w, b, "e%d" % n, 5); c.pay = "e%d" % n; c.connect(pr={"session_expiry": 20}, will=dict(topic="w/e", payload=c.pay, qos=1, props={"will_delay": e})); cs.append(c)
        f = b.fds()
        for c in cs: c.drop()
        w.until(lambda: b.fds() <= f - 25, 30, "removal"); tick(w, b, T); w.barrier([wt])
        if any(wills(wt, c.pay) for c in cs): raise Violation("will early")
        b.advance(31); tick(w, b, T); tick(w, b, T); b.advance(11); tick(w, b, T); w.barrier([wt])
        for c in cs:
            if wills(wt, c.pay) != 1: raise Violation("will published %d times when delay and expiry coincide" % wills(wt, c.pay))
            ctx.eval(("same", rd)); ctx.count("wills")

def content(ctx, k):
    """Properties, payload bytes and sizes; will to oneself's session; wildcard subscribers; ordering of retained copy."""
    r = ctx.rng; b = ctx.broker(threads=2, conf=BIGQ); w = ctx.world(b); wt = watcher(w, b); w4 = Client(w, b, "w4", 4).connect(); w4.sub(("w/#", 2))
    for rd in range(60):
        n = rd; ver = r.choice([3, 4, 5]); pay = ("%d-%d;" % (k, n)).encode() + os.urandom(r.choice([0, 1, 50, 127, 128, 3000, 16384, 65000])); up = [("k%d" % r.randint(0, 2), "v%d" % i) for i in range(r.randint(0, 3))]; pr = []
        if ver == 5:
            if r.random() < 0.5: pr.append(("content_type", "text/é"))
            if r.random() < 0.5: pr.append(("response_topic", "resp/x"))
            if r.random() < 0.5: pr.append(("correlation", os.urandom(r.choice([0, 1, 40]))))
            if r.random() < 0.5: pr.append(("expiry", r.choice([500, 500, 30])))
            pr += [("user", u) for u in up]
        full = pr + ([("will_delay", 3)] if ver == 5 and r.random() < 0.3 else []); r.shuffle(full); q = r.randint(0, 2); ret = r.random() < 0.4
        order = [u for k2, u in full if k2 == "user"]
        c = Client(w, b, "c%d" % n, ver); c.connect(will=dict(topic="w/é/%d" % n, payload=pay, qos=q, retain=ret, props=full), pr={"session_expiry": 100} if ver == 5 else None)
        if r.random() < 0.15: elapse(w, b, 40, 2)           # the lifetime starts with the publication
        off = Client(w, b, "off", 5); off.connect(clean=True, pr={"session_expiry": 500}); off.sub(("w/é/%d" % n, 2)); off.disconnect()
        drop_and_wait(w, b, c, 2)
        if ("will_delay", 3) in full: elapse(w, b, 6, 2)
        w.barrier([wt, w4])
        late = Client(w, b, "late", 5).connect(); late.sub(("w/é/%d" % n, 2)); w.barrier([late])
        if len(late.pubs) != ret: raise Violation("retained will (retain %s): new subscriber got %s" % (ret, late.pubs))
        off = Client(w, b, "off", 5); off.connect(clean=False, pr={"session_expiry": 0}); w.barrier([off])
        for o in [wt, w4] + ([late] if ret else []) + ([off] if q else []):
            g = [p for p in o.pubs if p.topic == "w/é/%d" % n]
            if len(g) != 1 or bytes(g[0].payload) != pay or g[0].qos != q: raise Violation("will (v%d q%d %d bytes) arrived at %s as %s" % (ver, q, len(pay), o.name, g))
            p = g[0]; pd = [(a, v) for a, v in p.props if a not in ("topic_alias", "user", "expiry")]
            if o.ver == 5:
                if sorted(pd) != sorted((a, v) for a, v in pr if a not in ("user", "expiry")): raise Violation("will properties %s arrived as %s" % (pr, p.props))
                if p.propall("user") != order: raise Violation("will user properties %s arrived as %s" % (order, p.propall("user")))
                e = dict(pr).get("expiry")
                if o is late and e is None: pass          # the retained store's maximum age
                elif (e is None) != (p.prop("expiry") is None) or e and not e - (8 if o in (late, off) else 4) <= p.prop("expiry") <= e: raise Violation("will expiry %s arrived as %s" % (e, p.prop("expiry")))
            o.pubs.clear()
        late.disconnect(); off.disconnect(); ctx.eval((ver, len(pay), q, ret, tuple(a for a, _ in full)))

def off(ctx):
    """wills_enabled false: none are published."""
    b = ctx.broker(threads=2, conf=dict(BIGQ, wills_enabled="false")); w = ctx.world(b); wt = watcher(w, b)
    for ver in (3, 4, 5):
        for d in ("drop", "rst"):
            c = Client(w, b, "c%d%s" % (ver, d), ver); c.connect(will=dict(topic="w/1", payload="x", qos=1, retain=True)); drop_and_wait(w, b, c, 2, d); w.barrier([wt]); ctx.eval(("off", ver, d))
    if wt.pubs: raise Violation("wills published although disabled: %s" % wt.pubs)
