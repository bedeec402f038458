from common import *
import p17, socket, struct, time, ssl
RULE = ("Many clients with their own keep-alive (0 to 65535), protocol version and transport follow random activity scripts (pings, publishes, halves of packets, silence until close to the limit; traffic to them all the time) while simulated time passes in steps; never completed connections of every kind; bridges to a scripted remote that answers or doesn't. "
        "Oracle: no connection ends before last activity + 1.5 K, every one ends by then plus 12 s (one timer slot and one checking interval), its will comes once, unfinished connections end within 190 s. Evaluation = one connection's end (or survival) judged; distinct by K, version, transport, script and granularity of the clock.")
BUDGET = {"quick": 420}
JOBS = 6
ASSUMPTIONS = ["Every byte that arrives counts as activity (the implementation's reading of 'control packet'), except while the server itself doesn't read because the client's write buffer is full."]
SLACK = 12.0

def cases(tier, rng):
    n = 1 if tier == "quick" else 10
    out = [("alive-%d" % i, "alive", {"k": i}) for i in range(20 * n)] + [("long-%d" % i, "long", {"k": i}) for i in range(3 * n)] + [("unfinished-%d" % i, "unfinished", {"k": i}) for i in range(8 * n)]
    out += [("bridge-%d" % i, "bridge", {"k": i}) for i in range(10 * n)]
    return out

class Now:
    """Simulated time as the broker sees it (up to the time an instruction takes)."""
    def __init__(self, b): self.b = b; self.off = 0.0
    def __call__(self): return time.monotonic() + self.off
    def advance(self, s): self.b.advance(s); self.off += s

def judge_closed(ctx, now, c, what):
    """Called when c was found closed; now() is after the close."""
    t = now(); ref = c.t0 if t < c.tconf + 1.5 * c.eff else c.tconf    # unconfirmed activity may have come too late
    if c.eff == 0: raise Violation("%s without keep-alive disconnected (%r): %s" % (c.name, c.disc, what))
    if t < ref + 1.5 * c.eff: raise Violation("%s (keep-alive %d) disconnected %.3f s after its last packet (%r): %s" % (c.name, c.eff, t - ref, c.disc, what))

def new_client(ctx, s, kind, i, K, will, now, ver=None):
    r = ctx.rng; v = ver or r.choice([3, 4, 5, 5]); c = s.client(kind, "k%d" % i, v, name="k%d.%s.v%d.K%d" % (i, kind, v, K)); c.kind = kind; c.K = K; c.t0 = c.tconf = now()
    c.connect(clean=v != 5 or r.random() < 0.5, keepalive=K, will=dict(topic="will/%d" % i, payload=b"w%d" % i, qos=r.choice([0, 1, 2])) if will else None, pr=[("session_expiry", 500000)] if v == 5 else None)
    c.t1 = now(); c.haswill = will; c.wills = 0; c.half = b""; c.idx = i; ka = c.connack.prop("server_keepalive") if v == 5 else None
    if v == 5:
        c.eff = K if ka is None else ka
        if ka is not None and ka != K and not (K < 5 and ka == 5): raise Violation("server keep alive %d for %d" % (ka, K))
    else: c.eff = K
    return c

def act(ctx, c, how, now, obs, u):
    """One activity; t0/t1: bounds of the time the server got it (t1 set when confirmed)."""
    if c.half: c.t0 = now(); c.send(c.half); c.half = b""; c.ping_sent += 1; c.expect_pong = c.ping_sent; return
    if how == "half": c.t0 = now(); c.send(PING[:1]); c.half = PING[1:]; c.unsure = True; return
    if how == "pub":
        m = u(); c.t0 = now(); c.send(publish(c.ver, "act", m, 0, False)); c.sent_pubs.append(m); c.unsure = True; return
    c.t0 = now(); c.send(PING); c.ping_sent += 1

def alive(ctx, k):
    r = ctx.rng; s = p17.Site(ctx, threads=2); b = s.b; w = s.w; now = Now(b); u = Uniq(); T = 2; big = r.random() < 0.5
    obs = Client(w, b, "obs", 4, port=b.ports["tcp"], name="obs"); obs.connect(); obs.sub("will/#", "act"); pub = Client(w, b, "pub", 4, port=b.ports["tcp"]); pub.connect(); b.port_tick = b.ports["tcp"]
    cs = []; N = 28
    for i in range(N):
        K = r.choice([0, 1, 2, 3, 4, 5, 5, 6, 7, 7, 8, 9, 10, 11, 13, 15, 20, 21, 30] + ([45, 61, 90] if big else []))
        c = new_client(ctx, s, r.choice(p17.KINDS), i, K, r.random() < 0.7, now); cs.append(c); c.sent_pubs = []; c.unsure = False; c.judged = False
        if r.random() < 0.6: c.sub("to/%d" % i); c.t1 = now(); c.gets = True
        else: c.gets = False
        c.life = r.choice([0, 0, 1, 2, 4, 8]); c.how = r.choice(["ping", "ping", "pub", "half", "mix"]); c.margin = r.choice([0.3, 0.6, 1.0, 2.0])
    steps = r.choice([0.5, 0.97, 1.0, 1.7, 3.1]); total = 90 if not big else 260; passed = 0.0
    for c in cs: c.t0 = c.tconf = now()
    w.barrier([obs, pub], cs)
    for c in cs: c.t1 = now()
    while passed < total:
        passed += steps; now.advance(steps)
        for c in cs:
            if c.open and c.gets and r.random() < 0.7: pub.send(publish(4, "to/%d" % c.idx, b"x", 0, False))
        # whose turn is it? Those who have life left act when the next step would be too late.
        before = {c: len(c.inbox) for c in cs}; todo = []
        for c in cs:
            if not c.open or not c.eff or c.life <= 0: continue
            if now() + steps + c.margin >= c.t0 + 1.5 * c.eff or (c.half and r.random() < 0.3):
                # if a real-time delay already made it too late, then the broker may be right to have closed it; judged by time only
                act(ctx, c, c.how if c.how != "mix" else r.choice(["ping", "pub", "half"]), now, obs, u); c.life -= 0 if c.half else 1; todo.append(c)
        w.barrier([pub]); tick_at(w, b, T); w.barrier([obs], [c for c in (pub,)])
        t = now()
        for c in todo:
            if c.open: c.t1 = t; c.tconf = c.t0
        for c in cs:
            if c.judged: continue
            if not c.open: judge_closed(ctx, now, c, "step %.2f, script %s" % (steps, c.how)); c.judged = True; ctx.count("expired"); ctx.eval((c.eff, c.ver, c.kind, c.how, steps, c.haswill)); ctx.peak("slowest_s_after_limit", round(now() - c.t1 - 1.5 * c.eff, 1))
            elif c.eff and t > c.t1 + 1.5 * c.eff + SLACK + 2 * steps: raise Violation("%s (keep-alive %d) is still connected %.1f s after its last packet (%s)" % (c.name, c.eff, t - c.t1, c.how))
    for c in cs:
        if c.open and not c.eff: ctx.eval((0, c.ver, c.kind, "forever", steps)); ctx.count("without_keepalive_survivors")
        elif c.open: ctx.count("survivors")
    elapse_at(w, b, now, 6.0, T); w.barrier([obs]); w.barrier([obs])
    got = [bytes(p.payload) for p in obs.pubs if p.topic.startswith("will/")]
    for c in cs:
        n = got.count(b"w%d" % c.idx); e = 1 if c.haswill and c.judged else 0
        if not c.open and not c.judged: continue    # ended in the last moments
        if n != e: raise Violation("will of %s came %d times; %s" % (c.name, n, "disconnected by keep-alive" if c.judged else "still connected"))
        ctx.count("wills", n)
    acts = [bytes(p.payload) for p in obs.pubs if p.topic == "act"]; sent = [m for c in cs for m in c.sent_pubs]
    ctx.count("activity_messages", len(acts))
    for m in acts:
        if m not in sent: raise Violation("unknown message %r" % m)

def tick_at(w, b, T):
    """tick() on the plain listener; these connections live shortly."""
    p = b.port; b.port = b.ports["tcp"]
    try: tick(w, b, T)
    finally: b.port = p
def elapse_at(w, b, now, secs, T):
    now.advance(secs / 2); tick_at(w, b, T); now.advance(secs / 2); tick_at(w, b, T)

def long(ctx, k):
    r = ctx.rng; s = p17.Site(ctx, threads=2); b = s.b; w = s.w; now = Now(b); T = 2; cs = []
    obs = Client(w, b, "obs", 4, port=b.ports["tcp"]); obs.connect(keepalive=0); obs.sub("will/#")
    for i in range(14):
        K = r.choice([600, 3599, 7200, 32767, 32768, 43690, 43691, 50000, 65534, 65535]); c = new_client(ctx, s, r.choice(p17.KINDS), i, K, True, now); c.judged = False; c.again = r.random() < 0.5; cs.append(c)
    w.barrier([obs])
    while any(not c.judged for c in cs):
        L = [c for c in cs if not c.judged]; nxt = min(c.t0 + 1.5 * c.eff for c in L); gap = nxt - now()
        if gap > 60: now.advance(gap - r.choice([3.0, 20.0, 50.0]))
        elif gap > 2: now.advance(gap - r.choice([1.0, 1.5]))
        else: now.advance(2.0)
        tick_at(w, b, T); t = now()
        for c in L:
            if not c.open: judge_closed(ctx, now, c, "long"); c.judged = True; ctx.count("expired"); ctx.eval((c.eff, c.ver, c.kind, "long", c.again)); continue
            if t > c.t1 + 1.5 * c.eff + SLACK: raise Violation("%s (keep-alive %d) is still connected %.1f s after its last packet" % (c.name, c.eff, t - c.t1))
            if c.again and t + 50 > c.t0 + 1.5 * c.eff and t + 2 < c.t0 + 1.5 * c.eff: c.again = False; c.t0 = now(); c.send(PING); c.ping_sent += 1; w.until(lambda: not c.open or c.pongs >= c.ping_sent, 30, "PINGRESP"); c.t1 = now(); c.tconf = c.t0 if c.open else c.tconf; ctx.count("late_pings")
    elapse_at(w, b, now, 6.0, T); w.barrier([obs]); got = sorted(bytes(p.payload) for p in obs.pubs)
    if got != sorted(b"w%d" % c.idx for c in cs): raise Violation("wills of %d clients: %r" % (len(cs), got))

def unfinished(ctx, k):
    """Connections that never complete CONNECT."""
    import p14
    r = ctx.rng; plug = k % 2 == 0
    if plug:
        so = p14.plugin(); s = p17.Site(ctx, threads=2, plugin=so, plugin_opt_log="{dir}/plug")
    else: s = p17.Site(ctx, threads=2)
    b = s.b; w = s.w; now = Now(b); T = 2; socks = []
    def add(kind, sk, acts=None): socks.append({"kind": kind, "s": sk, "t0": now(), "acts": acts or [], "done": False}); sk.setblocking(False)
    def raw(name):
        if name == "unix": q = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM); q.connect(b.path("sock")); return q
        return socket.create_connection(("127.0.0.1", b.ports[name]))
    HS = b"GET /mqtt HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Protocol: mqtt\r\nSec-WebSocket-Version: 13\r\n\r\n"
    CON = connect(5, "never", True, 65535); ports = ["tcp", "tls", "ws", "wss", "px", "pxws", "pxtls", "unix"]
    for p in ports: add("silent-" + p, raw(p))
    def at(*x): return list(x)
    for i in range(6):
        p = r.choice(ports); t = r.choice([14.9, 16.0, 20.0, 29.0, 31.0, 45.0]); first = {"tls": b"\x16", "wss": b"\x16", "pxtls": proxy_v2()[:1], "px": proxy_v2()[:1], "pxws": proxy_v2()[:1], "ws": b"G"}.get(p, CON[:1])
        add("one byte at %.1f-%s" % (t, p), raw(p), [(t, first)])
    full = {"tcp": CON, "unix": CON, "ws": HS, "px": proxy_v2() + CON, "pxws": proxy_v2() + HS, "pxtls": proxy_v2()}
    for p, data in full.items():
        n = r.randint(1, len(data) - 1) if p not in ("pxtls",) else len(data); add("partial-" + p, raw(p), [(0, data if p in ("ws", "pxws") and r.random() < 0.5 else data[:n])])
        step = r.choice([3.0, 7.0, 12.0, 14.0])    # one byte now and then, forever
        d = data if p in ("px", "pxws") else data
        off = len(proxy_v2()) if p in ("px", "pxws", "pxtls") else 0; acts = [(1.0, d[:off + 1])] if off else [(1.0, d[:1])]
        if p == "pxtls": d = d + b"\x16\x03\x01\x02\x00\x01" + b"\x00" * 300
        acts += [(1.0 + step * j, d[off + j:off + j + 1]) for j in range(1, min(60, len(d) - off - 1))]
        if p == "tcp" or p == "unix": acts = [(1.0 + step * j, x) for j, x in enumerate([b"\x10", b"\xff", b"\x01"] + [b"\x00"] * 60)]
        add("trickle-%g-%s" % (step, p), raw(p), acts)
    add("half packets before CONNECT", raw("tcp"), [(j * 9.0, b"\xc0\x00") for j in range(60)])    # dropped pings
    if plug:
        for j in range(4):
            K = r.choice([0, 5, 60000, 65535]); add("extended auth K=%d" % K, raw("tcp"), [(0, connect(5, "ext%d" % j, True, K, pr=[(21, "M"), (22, b"more")]))] + ([(20.0, auth(0x18, [(21, "M"), (22, b"more")])), (35.0, auth(0x18, [(21, "M"), (22, b"more")])), (100.0, auth(0x18, [(21, "M"), (22, b"more")]))] if r.random() < 0.5 else []))
            K = r.choice([0, 60000]); add("no verdict K=%d" % K, raw("tcp"), [(0, connect(r.choice([4, 5]), "nov%d" % j, True, K, user="x", pw="never"))])
    # and ones that do complete, late, must be served
    late = []
    for p in ("tcp", "ws", "unix"):
        c = Client(w, b, "late" + p, 4, port=b.ports.get(p), ws=p == "ws", unix=b.path("sock") if p == "unix" else None); c.when = r.choice([8.0, 13.0]); c.done = False; late.append(c)
    t0 = now(); LIMIT = 190.0; gap = r.choice([1.0, 2.0, 4.0])
    while now() - t0 < LIMIT + 5 and not all(x["done"] for x in socks):
        for x in socks:
            if x["done"]: continue
            while x["acts"] and now() - t0 >= x["acts"][0][0]:
                d = x["acts"].pop(0)[1]
                try: x["s"].sendall(d)
                except OSError: pass
            try:
                while True:
                    d = x["s"].recv(4096)
                    if not d: raise ConnectionResetError
                    ctx.count("bytes_answered", len(d))
            except BlockingIOError: pass
            except OSError:
                x["done"] = True; x["s"].close(); ctx.eval((x["kind"], gap)); ctx.count("closed"); ctx.peak("last_closed_after_s", round(now() - t0, 1))
        for c in late:
            if not c.done and now() - t0 >= c.when:
                c.done = True; c.connect(keepalive=65535); ctx.count("late_but_complete")
        now.advance(gap); tick_at(w, b, T)
    bad = [x["kind"] for x in socks if not x["done"]]
    if bad: raise Violation("connections that never completed CONNECT still open after %d s: %s" % (now() - t0, ", ".join(bad)))
    for c in late:
        if not c.open: raise Violation("%s, which completed CONNECT %.1f s after opening the connection, was disconnected" % (c.name, c.when))

class Remote:
    """A scripted remote broker for one bridge."""
    def __init__(self, tlsctx=None):
        self.l = socket.socket(); self.l.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); self.l.bind(("127.0.0.1", 0)); self.l.listen(20); self.l.setblocking(False); self.port = self.l.getsockname()[1]; self.cur = None; self.conns = 0; self.answer = True; self.events = []
    def poll(self, t):
        try:
            while True:
                c, _ = self.l.accept(); c.setblocking(False); self.cur = {"s": c, "buf": b"", "t": t, "start": t, "open": True, "v": None}; self.conns += 1; self.events.append((t, "accept"))
        except BlockingIOError: pass
        c = self.cur
        if not c or not c["open"]: return
        try:
            while True:
                d = c["s"].recv(65536)
                if not d: raise ConnectionResetError
                c["buf"] += d
        except BlockingIOError: pass
        except OSError: c["open"] = False; c["s"].close(); self.events.append((t, "closed")); return
        while len(c["buf"]) >= 2:
            n = 0; i = 1
            while i < len(c["buf"]):
                x = c["buf"][i]; n |= (x & 127) << 7 * (i - 1); i += 1
                if not x & 128: break
            if len(c["buf"]) < i + n: break
            pk, c["buf"] = c["buf"][:i + n], c["buf"][i + n:]; typ = pk[0] >> 4; self.events.append((t, NAMES.get(typ, typ))); c["t"] = t
            if typ == CONNECT:
                v = pk[i + 6] & 127; c["v"] = v; c["K"] = struct.unpack(">H", pk[i + 8:i + 10])[0]
                if self.connack: c["s"].sendall(packet(CONNACK, 0, b"\0\0" + (props([(19, self.ska)] if self.ska else []) if v == 5 else b"")))
                if v == 5 and self.ska: c["K"] = self.ska
            elif typ == SUBSCRIBE: pid = pk[i:i + 2]; c["s"].sendall(packet(SUBACK, 0, pid + (b"\0" if c["v"] == 5 else b"") + b"\0"))
            elif typ == PINGREQ and self.answer: self.pong = t; c["s"].sendall(packet(PINGRESP, 0, b""))
    connack = True; ska = None; pong = None

def bridge(ctx, k):
    r = ctx.rng; R = Remote(); K = r.choice([10, 11, 13, 15, 20, 25, 60]); v5 = r.random() < 0.6; R.ska = r.choice([None, None, 10, 12, 30]) if v5 else None
    ext = "\nbridge {\n clientid_prefix br\n address 127.0.0.1\n inet_protocol ip4\n port %d\n keepalive %d\n protocol_version %s\n publish out/#\n subscribe in/# 0\n}\n" % (R.port, K, "mqtt5" if v5 else "mqtt3.1.1")
    b = ctx.broker(threads=2, extra=ext); w = ctx.world(b); now = Now(b); T = 2; step = r.choice([0.5, 1.0, 1.3]); p = Client(w, b, "p", 4); p.connect(keepalive=0)
    def go(secs, cond=None):
        t = now()
        while now() - t < secs:
            now.advance(step); tick(w, b, T); time.sleep(0.004); R.poll(now())
            if cond and cond(): return True
        return False
    if not go(40, lambda: R.cur and R.cur["open"] and R.cur["v"]): raise Violation("bridge doesn't connect")
    eff = R.cur["K"]; limit = eff + 1 + 2 * step; traffic = r.choice(["none", "out", "none"]); t_end = now() + 8 * eff
    if (R.ska or K) != eff: raise Violation("bridge asks for keep-alive %d, configured %d" % (R.cur["K"], K))
    c0 = R.conns; worst = 0.0
    while now() < t_end:
        if traffic == "out" and r.random() < 0.1: p.pub("out/x", b"m")
        last = R.cur["t"]; go(step); worst = max(worst, now() - last)
        if not R.cur["open"] or R.conns != c0: raise Violation("bridge left a remote that answers its pings: %r" % R.events[-6:])
        if now() - R.cur["t"] > limit: raise Violation("bridge with keep-alive %d sent nothing for %.1f s (clock steps of %.1f s): %r" % (eff, now() - R.cur["t"], step, R.events[-6:]))
    ctx.eval((eff, v5, traffic, step, "kept")); ctx.peak("bridge_silence_permille_of_keepalive", int(1000 * worst / eff)); ctx.count("bridge_pings", sum(e[1] == "PINGREQ" for e in R.events))
    # now a remote that stays silent: it's to be left, and connected again
    R.answer = False; t = now(); cur = R.cur
    while cur["open"] and now() - t < 2.5 * eff + SLACK + 5: now.advance(step); tick(w, b, T); time.sleep(0.004); R.poll(now())
    if cur["open"]: raise Violation("bridge with keep-alive %d still connected to a remote that is silent for %.1f s" % (eff, now() - t))
    if R.pong and now() < R.pong + 1.5 * eff: raise Violation("bridge left the remote after %.1f s silence (keep-alive %d)" % (now() - R.pong, eff) + ": %r now %r pong %r" % (R.events[-8:], now(), R.pong))
    ctx.eval((eff, v5, "silent", step)); R.answer = True
    if not go(60, lambda: R.cur is not cur and R.cur["open"] and R.cur["v"]): raise Violation("bridge doesn't reconnect after it gave up on a silent remote")
    # one that never sends CONNACK
    R.connack = False; R.cur["s"].close(); R.cur["open"] = False; n = R.conns
    if not go(60, lambda: R.conns > n): raise Violation("bridge doesn't reconnect after the remote closed the connection")
    cur = R.cur; t = now()
    while cur["open"] and now() - t < 2.5 * K + SLACK + 10: now.advance(step); tick(w, b, T); time.sleep(0.004); R.poll(now())
    if cur["open"]: raise Violation("bridge waits for CONNACK for %.1f s" % (now() - t))
    ctx.eval((K, v5, "no connack", step)); ctx.count("bridges")
