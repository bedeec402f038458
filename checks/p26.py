from common import *
from soup import Soup
import p17, p14, socket, struct, time
RULE = ("Counters: random histories of connects, refused and unfinished connections, publishes, wills, subscriptions, takeovers, session ends and expiries, retained sets, deletes and expiries; at quiet moments each $SYS figure is compared with independent counts of what the clients did and saw, also after the periodic clean-ups. "
        "Churn: the same round of connections of nine transports, failures at each stage, sessions, subscriptions, retained messages, wills, aliases, queues is repeated; after each round everything is ended or expired and file descriptors, sessions, subscriptions, retained messages, nodes and the bytes the allocator has given out are compared between rounds; LeakSanitizer at exit. Evaluation = one figure compared; distinct by figure, value and history.")
BUDGET = {"quick": 480}
JOBS = 7
ASSUMPTIONS = ["subscriptions/count is documented in the code as an approximation until the periodic clean-up of the tree has run; judged after it. A shared subscription counts once per group."]

def cases(tier, rng):
    n = 1 if tier == "quick" else 8
    return [("counters-%d" % i, "counters", {"k": i}) for i in range(8 * n)] + [("churn-%s-%d" % (k, i), "churn", {"kind": k}) for i in range(n) for k in ("connect", "failures", "sessions", "retained", "wills", "tls", "soup", "plugin", "bridge")]

SYS = "$SYS/broker/"
class Stats:
    """Collects the $SYS batches an observer sees."""
    def __init__(self, ctx, w, b, T):
        self.w = w; self.b = b; self.T = T; self.off = 0.0; self.batches = []; self.cur = {}; self.n = 0; self.ctx = ctx
        c = self.obs = Client(w, b, "obs", 4, name="obs"); c.connect(); old = c._publish
        def pub(p):
            self.n += 1
            if not p.retain and p.topic.startswith(SYS) and bytes(p.payload).isdigit():
                self.cur[p.topic[len(SYS):]] = int(bytes(p.payload))
                if p.topic == SYS + "subscriptions/count": self.batches.append((dict(self.cur), self.n, time.monotonic() + self.off)); self.cur = {}
            old(p); c.pubs.clear()
        c._publish = pub; c.sub("$SYS/broker/#"); w.barrier([c])
    def advance(self, s): self.b.advance(s); self.off += s
    def elapse(self, secs, step=9.0, keep=()):
        while secs > 0: s = min(step, secs); secs -= s; self.advance(s); tick_n(self); self.w.barrier([self.obs], list(keep))
    def snap(self):
        """(figures, publishes this observer had got when its last figure arrived, time)"""
        tick_n(self); n = len(self.batches); self.advance(10.2)
        self.w.until(lambda: len(self.batches) > n, 30, "$SYS figures"); self.w.barrier([self.obs]); return self.batches[-1]
def tick_n(st): tick(st.w, st.b, st.T); st.b.ticks = getattr(st.b, "ticks", 0) + 1 + st.T

def counters(ctx, k):
    r = ctx.rng; T = r.choice([1, 2, 3]); b = ctx.broker(threads=T, conf=dict(BIGQ, expire_retained_messages_after_seconds=r.choice([86400 * 300, 5000]))); w = ctx.world(b); u = Uniq(); st = Stats(ctx, w, b, T); M = dict(sock=0, conn=0, recv=0, ret=0)
    exp_ret = b.conf["expire_retained_messages_after_seconds"]
    cl = {}; ses = {"obs": set([SYS + "#"])}; ret = {}; dead_pubs = [0]; u2 = [0]; gone = [0]
    def close_count(c): dead_pubs[0] += c.total
    def new(cid, ver, clean, **kw):
        c = Client(w, b, cid, ver); M["sock"] += 1; c.total = 0; old = c._publish
        def pub(p): c.total += 1; old(p); c.pubs.clear()
        c._publish = pub; M["conn"] += 1; se = kw.pop("se", 0 if clean else 0xFFFFFFFF)
        c.connect(clean=clean, pr=[("session_expiry", se)] if ver == 5 else None, **kw)
        if clean or cid not in ses: ses[cid] = set()
        c.lasting = se > 0 if ver == 5 else not clean; c.se = se; return c
    def quiet(c): w.barrier(list(cl.values())); w.barrier([c])    # nothing is on its way to it
    def end(c, how="disc"):
        quiet(c)
        if c.will and how == "drop": M["willret"] = 1
        if how == "disc": c.disconnect()
        else: drop_and_wait(w, b, c, T); b.ticks = getattr(b, "ticks", 0) + 1 + T
        close_count(c); cl.pop(c.cid, None)
        if not c.lasting: ses.pop(c.cid, None)
    def delivered(): return dead_pubs[0] + sum(c.total for c in cl.values())
    b.ticks = 0; tick_n(st)
    def shot():
        w.barrier(list(cl.values())); w.barrier(list(cl.values()) + [st.obs]); w.barrier([st.obs])
        s, n, t = st.snap(); w.barrier(list(cl.values()))
        return dict(s=s, sysn=n, t=t, M=dict(M), ticks=b.ticks, deliv=delivered(), open=len(cl) + 1, ses=len(ses), batch=sum(1 for _ in s))
    def sysretained():
        c = Client(w, b, "sysr", 4); M["sock"] += 1; M["conn"] += 1; c.connect(); c.sub("$SYS/#"); w.barrier([c]); w.barrier([c]); n = len({p.topic for p in c.pubs if p.retain}); c.disconnect(); dead_pubs[0] += len(c.pubs); return n
    prev = shot(); nsys = sysretained(); hist = []
    def compare(final=False):
        nonlocal prev
        cur = shot(); s, p = cur["s"], prev["s"]; dt = cur["t"] - prev["t"]; tk = cur["ticks"] - prev["ticks"]; dm = {x: cur["M"][x] - prev["M"].get(x, 0) for x in cur["M"]}
        want = {"network/socketconnects/total": p["network/socketconnects/total"] + dm["sock"] + tk, "clients/mqttconnects/total": p["clients/mqttconnects/total"] + dm["conn"] + tk,
                "clients/total": cur["open"], "load/messages/received/total": p["load/messages/received/total"] + dm["recv"], "sessions/total": cur["ses"],
                # what a batch says was true before it was sent itself
                "load/messages/sent/total": p["load/messages/sent/total"] + cur["deliv"] - prev["deliv"] + (cur["sysn"] - cur["batch"]) - (prev["sysn"] - prev["batch"]),
                "retained messages/count": len(ret) + nsys}
        want["load/messages/set_retained/total"] = p["load/messages/set_retained/total"] + dm["ret"]
        for x, v in want.items():
            ctx.eval((x, v, k, len(hist)))
            if s[x] != v: raise Violation("$SYS %s is %d, counted %d (before: %d); since then: %s" % (x, s[x], v, p[x], hist[-30:]))
        for x in ("load/messages/received", "clients/mqttconnects", "network/socketconnects"):
            # per second since the previous publishing, which may have been in between
            if s[x + "/persecond"] > (s[x + "/total"] - p[x + "/total"]): raise Violation("$SYS %s/persecond is %d with a growth of %d" % (x, s[x + "/persecond"], s[x + "/total"] - p[x + "/total"]))
        prev = cur; del hist[:]; ctx.count("snapshots")
    for rnd in range(5 if not ctx.thorough else 20):
        for i in range(r.choice([5, 25, 60])):
            x = r.random()
            if x < 0.2 and len(cl) < 12:
                cid = "c%d" % r.randint(0, 15)
                if cid in cl:      # takeover
                    o = cl[cid]; quiet(o); clean = r.random() < 0.5; lasting = o.lasting; ver = r.choice([4, 5])
                    n0 = o.total; c = new(cid, ver, clean); w.until(lambda: not o.open, 30, "takeover"); dead_pubs[0] += o.total
                    if not clean and not lasting: ses[cid] = set()
                    cl[cid] = c; hist.append("takeover")
                else:
                    had = cid in ses; c = new(cid, r.choice([3, 4, 5]), r.random() < 0.5); cl[cid] = c; hist.append("connect")
            elif x < 0.26:
                # connections that don't make it: unfinished, malformed, wrong protocol, second CONNECT
                kind = r.choice(["silent", "garbage", "badconnect", "partial", "twice", "badproto"])
                q = socket.create_connection(("127.0.0.1", b.port)); M["sock"] += 1; q.settimeout(5); n = b.fds()
                if kind == "garbage": q.sendall(b"\xf0\x00\xff" * 10)
                elif kind == "badconnect": q.sendall(b"\x10\x0c\x00\x04MQTT\x04\x01\x00\x3c\x00\x00"); M["conn"] += 1
                elif kind == "badproto": q.sendall(b"\x10\x0c\x00\x04MQTX\x04\x02\x00\x3c\x00\x00"); M["conn"] += 1
                elif kind == "partial": q.sendall(b"\x10\x20\x00\x04MQTT\x04")
                elif kind == "twice":
                    d = connect(4, "twice", True); q.sendall(d); q.recv(4); q.sendall(d); M["conn"] += 1
                if kind not in ("silent", "partial"):
                    try:
                        while q.recv(100): pass
                    except OSError: pass
                q.close(); tick_n(st); w.until(lambda: b.fds() < n or n == b.fds(), 30, "x"); hist.append(kind)
            elif x < 0.55 and cl:
                c = cl[r.choice(sorted(cl))]; q = r.choice([0, 1, 2]); rt = r.random() < 0.4; t = "t/%d" % r.randint(0, 30); pay = b"" if rt and r.random() < 0.3 else u(); pr = None; e = None
                if c.ver == 5 and r.random() < 0.3: e = r.choice([500, 3000, 100000]); pr = [("expiry", e)]
                c.pub(t, pay, q, rt, pr=pr); M["recv"] += 1; hist.append("pub")
                if rt:
                    M["ret"] += 1
                    if pay: ret[t] = time.monotonic() + st.off + min(e or 1 << 40, exp_ret)
                    else: ret.pop(t, None)
            elif x < 0.75 and cl:
                c = cl[r.choice(sorted(cl))]; f = r.choice(["t/#", "t/%d" % r.randint(0, 20), "+/1", "x/%d/y" % r.randint(0, 40), "$share/g/t/2", "$share/h/t/#", "#", "deep/a/b/c/%d" % r.randint(0, 3)])
                c.sub((f, r.choice([0, 1, 2]))); ses[c.cid].add(f); hist.append("sub " + f)
            elif x < 0.85 and cl:
                c = cl[r.choice(sorted(cl))]
                if ses[c.cid]: f = r.choice(sorted(ses[c.cid])); c.unsub(f); ses[c.cid].discard(f); hist.append("unsub")
            elif cl:
                c = cl[r.choice(sorted(cl))]; how = r.choice(["disc", "disc", "drop"]); end(c, how); hist.append(how)
        w.barrier(list(cl.values())); compare()
        if r.random() < 0.5:    # expiry of retained messages and cleaning of the trees
            secs = r.choice([700.0, 4200.0, 8000.0]); st.elapse(secs, r.choice([40.0, 900.0]), list(cl.values())); w.barrier(list(cl.values()))
            # now everything is one full period past its due
            t = time.monotonic() + st.off
            st.elapse(2 * 3960.0, 990.0, list(cl.values())); gone_t = {x for x, v in ret.items() if v <= t}
            amb = {x for x, v in ret.items() if t < v <= time.monotonic() + st.off}
            while amb:     # let those expire fully too
                st.elapse(2 * 3960.0, 990.0, list(cl.values())); t2 = time.monotonic() + st.off; gone_t |= amb; amb = {x for x, v in ret.items() if t2 - 2 * 3960 - 100 < v <= t2 and x not in gone_t}
            for x in gone_t: ret.pop(x)
            hist.append("expire %d" % len(gone_t)); ctx.count("retained_expired", len(gone_t)); compare()
            subs = sum(sum(not f.startswith("$share/") for f in v) for v in ses.values()) + len({f for v in ses.values() for f in v if f.startswith("$share/")})
            st.elapse(2 * 1850.0, 950.0, list(cl.values())); s = st.snap()[0]; ctx.eval(("subscriptions", subs, k, rnd))
            if s["subscriptions/count"] != subs: raise Violation("$SYS subscriptions/count is %d after the clean-up, counted %d" % (s["subscriptions/count"], subs))
            w.barrier(list(cl.values())); prev = shot()
            compare()

# ---------------------------------------------------------------- repeated rounds
def measure(st, T, w, b):
    s = st.snap()[0]; tick_n(st); tick_n(st); b.heap(); time.sleep(0.02); h = min(b.heap() for _ in range(3))
    return {"heap": h, "fds": b.fds(), "clients": s["clients/total"], "sessions": s["sessions/total"], "retained": s["retained messages/count"], "nodes": s["retained messages/node_count"], "subscriptions": s["subscriptions/count"]}

def churn(ctx, kind):
    r = ctx.rng; T = 2; R = 7 if not ctx.thorough else 15; seed = r.getrandbits(40); scale = 1 if not ctx.thorough else 3
    conf = dict(expire_sessions_after_seconds=600, subscription_node_lifetime=600, retained_message_node_lifetime=600, expire_retained_messages_after_seconds=3000)
    if kind == "plugin": so = p14.plugin(); conf.update(plugin=so, plugin_opt_log="{dir}/plug")
    s = Site2(ctx, T, kind, conf); b = s.b; w = s.w; st = Stats(ctx, w, b, T); seen = []
    rnd = -1
    def grows():
        # a leak adds something in each round; what else varies doesn't always go up
        h = [m["heap"] for m in seen]; return all(y - x > 256 for x, y in zip(h[2:], h[3:]))
    while rnd + 1 < R or rnd + 1 < 2 * R and grows():
        import random
        rnd += 1
        rr = random.Random(seed)      # every round is the same, so that what is allocated at the most is the same too
        ROUNDS[kind](ctx, rr, s, st, scale); w.clients[:] = [c for c in w.clients if c.open]
        st.elapse(3000.0, 200.0); st.elapse(98000.0 * 1, 49000.0); st.elapse(3 * 4000.0, 900.0)    # keep-alive slots (up to 98302 s), sessions, wills, retained messages, nodes of trees
        st.elapse(98400.0 - 12000, 43000.0); st.elapse(9000.0, 900.0)
        if kind == "bridge": settle_bridge(s, st)
        m = measure(st, T, w, b); seen.append(m); ctx.count("rounds")
        base = seen[min(1, rnd)]
        for x in ("fds", "clients", "sessions", "retained", "subscriptions", "nodes"):
            ctx.eval((kind, x, m[x]))
            if m[x] != base[x] and rnd > 1: raise Violation("%s: %s is %d after round %d, %d after round 2: %r" % (kind, x, m[x], rnd + 1, base[x], seen))
    e = 2 if kind == "bridge" else 1
    if m["sessions"] != e or m["clients"] != e: raise Violation("%s: %d sessions and %d connections left" % (kind, m["sessions"], m["clients"]))
    h = [m["heap"] for m in seen]; ctx.eval((kind, "heap")); ctx.sample({"kind": kind, "heap": h, "last": seen[-1]})
    ctx.peak("heap_growth_%s" % kind, h[-1] - h[2])
    if grows(): raise Violation("%s: allocated memory grows with each identical round: %r" % (kind, h))
    for c in w.clients: c.drop()
    b.stop(timeout=120)

class Site2(p17.Site):
    def __init__(self, ctx, T, kind, conf):
        if kind in ("failures", "tls", "connect"): p17.Site.__init__(self, ctx, threads=T, **conf); self.b.leaks = True; self.b.port = self.b.ports["tcp"]; return
        ext = ""
        self.remote = None
        if kind == "bridge":
            self.remote = ctx.broker(threads=1, conf=dict(expire_sessions_after_seconds=600)); self.w2 = ctx.world(self.remote)
            ext = "\nbridge {\n clientid_prefix br\n address 127.0.0.1\n inet_protocol ip4\n port %d\n publish out/#\n subscribe in/# 2\n local_clean_start false\n keepalive 60000\n remote_clean_start true\n}\n" % self.remote.port
        self.b = ctx.broker(threads=T, conf=dict(BIGQ, **conf), extra=ext, leaks=True, start=False); self.b.quarantine = 0; self.b.start(); self.w = ctx.world(self.b); self.ctx = ctx

def finish(s, st, cs):
    w = s.w; w.barrier([c for c in cs if c.open])
    for c in cs:
        if c.open: c.disconnect()

def r_connect(ctx, r, s, st, scale):
    for i in range(60 * scale):
        kind = r.choice(p17.KINDS); c = s.client(kind, r.choice(["", "a%d" % (i % 7), "uniq%d" % r.getrandbits(30)]), r.choice([4, 5])); c.connect(keepalive=r.choice([0, 5, 60, 60000, 65535]), pr=None)
        if r.random() < 0.5: c.sub("a/b/%d" % r.randint(0, 5)); c.pub("a/b/1", b"x" * r.choice([1, 3000]), 1)
        s.w.barrier([c]); c.disconnect() if r.random() < 0.7 else c.drop(rst=r.random() < 0.5)
    ctx.count("connections", 60 * scale)

def r_failures(ctx, r, s, st, scale):
    b = s.b; import ssl
    for i in range(60 * scale):
        p = r.choice(["tcp", "tls", "ws", "wss", "px", "pxws", "pxtls", "unix"]); q = socket.socket(socket.AF_UNIX) if p == "unix" else socket.socket(); q.connect(b.path("sock") if p == "unix" else ("127.0.0.1", b.ports[p])); q.settimeout(5)
        HS = b"GET /mqtt HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Protocol: mqtt\r\nSec-WebSocket-Version: 13\r\n\r\n"
        d = r.choice([b"", b"\x10", connect(5, "f", True, 60000)[:-1], b"\xf0\x00\xff" * 20, b"\x10\x0c\x00\x04MQTT\x04\x01\x00\x3c\x00\x00", b"\x10\xff\xff\xff\x7f" + b"x" * 3000, b"\x16\x03\x01\x02\x00\x01" + b"\0" * 90, b"GET / HTTP/1.1\r\n\r\n", HS, HS[:60], HS + ws_frame(connect(4, "g", True, 60000) + b"\xff\xff"), HS + b"\x82\xff" + b"\xff" * 12, connect(4, "h", True, 60000) + b"\x30\x05\x00\x09ab", connect(4, "", False, 60000), connect(4, "i", True, 60000, will=dict(topic="w/x", payload=b"w", qos=0, retain=False)) + connect(4, "i", True, 60000)])
        if p in ("px", "pxws", "pxtls") and r.random() < 0.8: d = proxy_v2() + d
        try:
            q.sendall(d)
            if r.random() < 0.3: q.shutdown(socket.SHUT_WR)
            elif r.random() < 0.3: q.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            if r.random() < 0.3: q.settimeout(0.05); q.recv(1000)
        except OSError: pass
        q.close()
    ctx.count("failures", 60 * scale)

def r_sessions(ctx, r, s, st, scale):
    w = s.w; b = s.b; live = {}
    for i in range(50 * scale):
        cid = "s%d" % r.randint(0, 12); ver = r.choice([4, 5]); c = Client(w, b, cid, ver)
        c.connect(clean=r.random() < 0.3, pr=[("session_expiry", r.choice([0, 5, 300, 0xFFFFFFFF])), ("topic_alias_max", 10)] if ver == 5 else None); old = live.get(cid); live[cid] = c
        for f in r.sample(["q/#", "q/+/x", "$share/g/q/1", "q/%d" % r.randint(0, 100), "$share/h/q/#", "deep/" + "/".join(str(r.randint(0, 1)) for _ in range(12))], 3): c.sub((f, r.randint(0, 2)))
        if r.random() < 0.5: c.unsub("q/#")
        c.ack = r.random() < 0.7
        for j in range(3): c.pub("q/%d" % r.randint(0, 5), b"m" * r.choice([1, 900]), r.choice([0, 1]), pr=[(35, 1)] if ver == 5 and r.random() < 0.3 else None)
        if r.random() < 0.5: w.barrier([c]); (c.disconnect() if r.random() < 0.5 else c.drop())
    for c in live.values():
        if c.open: w.barrier([c]); c.drop()
    ctx.count("sessions", 50 * scale)

def r_retained(ctx, r, s, st, scale):
    w = s.w; c = Client(w, s.b, "ret", 5); c.connect(); seen = set()
    for i in range(150 * scale):
        t = "r/%d/%d" % (r.randint(0, 40), r.randint(0, 20)) if r.random() < 0.7 else "r/" + "/".join(str(r.randint(0, 2)) for _ in range(10)); seen.add(t)
        c.send(publish(5, t, b"" if r.random() < 0.3 else b"v" * r.choice([1, 2000]), 0, True, None, pr=[("expiry", r.choice([1, 500, 2000]))] if r.random() < 0.5 else None))
        if i % 30 == 0: d = Client(w, s.b, "rd%d" % i, 4); d.connect(); d.sub("r/#"); w.barrier([d]); d.disconnect(); w.barrier([c])
    w.barrier([c])
    for t in sorted(seen):
        if r.random() < 0.5: c.send(publish(5, t, b"", 0, True, None))
    w.barrier([c]); c.disconnect(); ctx.count("retained", 150 * scale)

def r_wills(ctx, r, s, st, scale):
    w = s.w; b = s.b; o = Client(w, b, "wo", 4); o.connect(); o.sub(("w/#", 2))
    for i in range(50 * scale):
        ver = r.choice([4, 5]); c = Client(w, b, "w%d" % r.randint(0, 15), ver)
        c.connect(clean=r.random() < 0.5, pr=[("session_expiry", r.choice([0, 50, 500]))] if ver == 5 else None, will=dict(topic="w/%d" % i, payload=b"w" * 200, qos=r.randint(0, 2), retain=r.random() < 0.3, props={"will_delay": r.choice([0, 10, 100, 400])} if ver == 5 else None))
        c.drop() if r.random() < 0.7 else c.disconnect(rc=4 if ver == 5 and r.random() < 0.5 else 0)
        if i % 12 == 0: st.elapse(20.0)
    w.barrier([o]); o.disconnect(); ctx.count("wills", 50 * scale)

def r_tls(ctx, r, s, st, scale):
    for i in range(40 * scale):
        c = s.client(r.choice(["tls12", "tls13", "wss", "pxtls"]), "t%d" % r.randint(0, 9), 4); c.connect(); c.sub("t/#"); c.pub("t/1", b"x" * r.choice([1, 20000]), 1); s.w.barrier([c])
        c.drop(rst=r.random() < 0.3)
    ctx.count("connections", 40 * scale)

def r_soup(ctx, r, s, st, scale):
    old = ctx.rng; ctx.rng = r; so = Soup(ctx, s.w, s.b, 12)
    try: so.run(400 * scale, lambda i: st.advance(7) if i % 60 == 0 else None)
    finally: so.close(); ctx.rng = old
    # the leftovers of the retained messages
    c = Client(s.w, s.b, "cleaner", 4); retry_connect(lambda: c.connect())
    from soup import TOP
    for t in TOP: c.pub(t, b"", 1, True)
    s.w.barrier([c]); c.disconnect(); ctx.count("soup_steps", 400 * scale)

def r_plugin(ctx, r, s, st, scale):
    w = s.w; b = s.b
    for i in range(50 * scale):
        k = r.choice(["good", "bad", "throw", "async-5-good", "async-5-bad", "delay-5-good", "task-5-good", "ext", "ext-open", "abort-async"]); ver = 5 if k.startswith("ext") else r.choice([4, 5]); c = Client(w, b, "p%d" % r.randint(0, 9), ver); c.errors_ok = True
        if k == "ext": c.connect(pr=[(21, "M"), (22, b"good:u")], expect=None)
        elif k == "ext-open":
            c.connect(pr=[(21, "M"), (22, b"more")], wait=False); w.until(lambda: not c.open or any(p.type == AUTH for p in c.inbox), 10, "AUTH"); c.drop(); continue
        elif k == "abort-async": c.connect(user="u", pw="async-20-good", wait=False); c.drop(); continue
        else:
            c.connect(user="u", pw=k, wait=False); w.until(lambda: not c.open or c.connack, 10, "verdict"); 
        if c.open and c.connack and not c.connack.rc:
            c.sub("x/#", "deny-s/1", check=False); c.pub("x/%d" % (i % 5), b"x", 0); c.pub("cmd/publish/0/0", b"y", 0); c.pub("cmd/task/3", b"", 0); c.pub("x/deny-w/1", b"", 0); w.barrier([c]); c.disconnect()
        else: c.drop()
    c = Client(w, b, "joiner", 4); c.connect(); c.pub("cmd/join", b"", 0); w.barrier([c]); c.disconnect(); ctx.count("logins", 50 * scale)

def settle_bridge(s, st):
    # big steps of the clock make its lookups time out; it must be there in the same state each time the figures are taken
    o = Client(s.w2, s.remote, "probe", 4); o.connect(); o.sub("out/probe"); p = Client(s.w, s.b, "prober", 4); p.connect()
    for i in range(400):
        p.pub("out/probe", b"?", 0); s.w.barrier([p]); tick_n(st); time.sleep(0.02); s.w2.barrier([o])
        if o.pubs: break
        st.advance(2.3)
    else: raise Violation("the bridge didn't come back within 920 s of small steps")
    o.disconnect(); p.disconnect()

def r_bridge(ctx, r, s, st, scale):
    w = s.w; b = s.b; w2 = s.w2; settle_bridge(s, st)
    for i in range(6 * scale):
        p = Client(w, b, "bp%d" % i, 4); p.connect(); q = Client(w2, s.remote, "rp%d" % i, 4); q.connect()
        for j in range(5): p.pub("out/%d" % j, b"o" * 300, r.choice([0, 1, 2])); q.pub("in/%d" % j, b"i" * 300, r.choice([0, 1, 2]))
        w.barrier([p]); w2.barrier([q]); p.disconnect(); q.disconnect()
        if i % 2:    # kick the bridge off by taking over its remote session
            L = [x for x in s.remote.log().split("\n") if "ClientID='br" in x and "logged in" in x]
            if L:
                cid = L[-1].split("ClientID='")[1].split("'")[0]; t = Client(w2, s.remote, cid, 4); t.connect(); t.disconnect(); st.elapse(11.0)
    ctx.count("bridge_breaks", 3 * scale)
ROUNDS = {n[2:]: f for n, f in list(globals().items()) if n.startswith("r_")}
