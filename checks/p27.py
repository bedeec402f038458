from common import *
from soup import Soup
import p17, p14, signal, subprocess, time, threading, os
RULE = ("Shutdown: brokers under random loads (nine transports, streaming publishers with windows, online and offline durable subscribers, retained writers, wills, clients that don't read, connections in all stages of being made, saving in the background, reloads, plugin threads, slow name lookups, slowed code) get SIGTERM or SIGINT at a random moment, also repeatedly, also at start-up; "
        "the monitor requires exit status 0 in time, DISCONNECT 0x8B for each MQTT 5 connection that reads, and, from the restarted broker, each message acknowledged before the signal (QoS 2 once), each acknowledged retained message, each will that was due; sanitizer and leak reports. Evaluation = one message, will, client or exit judged; distinct by kind, quality of service, transport, moment.")
BUDGET = {"quick": 480}
JOBS = 6; NEVER = 0xFFFFFFFF
ASSUMPTIONS = ["SIGTERM before the signal handlers are installed (the first milliseconds of the process) ends it with that signal; then only the saved state is judged."]
FEATS = ("soup", "saving", "reload", "slowreader", "plugin", "dns", "halfopen", "slow", "manyret", "late", "twice", "clock")

def cases(tier, rng):
    n = 1 if tier == "quick" else 10
    return [("load-%d" % i, "load", {"k": i}) for i in range(40 * n)] + [("startup-%d" % i, "startup", {"k": i}) for i in range(4 * n)] + [("deferred-%d" % i, "deferred", {"k": i}) for i in range(6 * n)] + [("idle-%d" % i, "idle", {"k": i}) for i in range(2 * n)]

class Publ:
    """A publisher with a window; knows what was acknowledged."""
    def __init__(self, s, name, ver, kind, q, topics, retain=False, user=()):
        self.name = name; self.q = q; self.topics = topics; self.retain = retain; self.n = 0; self.open = {}; self.acked = []; self.sent = []; self.stopped = False
        c = self.c = s.client(kind, name, ver, ack=False, name=name); c.errors_ok = True; c.connect(**dict(user)); c.on_packet = self.packet
    def packet(self, p):
        if p.type in (PUBACK, PUBREC) and p.pid in self.open:
            m = self.open.pop(p.pid)
            if not self.stopped and (p.rc or 0) < 0x80: self.acked.append(m)
            if p.type == PUBREC: self.c.send(packet(PUBREL, 2, bytes([p.pid >> 8, p.pid & 255])))
    def go(self, r, n):
        c = self.c
        for i in range(n):
            if not c.open or len(self.open) >= 20: return
            self.n += 1; t = r.choice(self.topics); m = (t, b"%s.%d.%s" % (self.name.encode(), self.n, b"x" * r.choice([0, 10, 300, 5000]))); pid = self.n % 60000 + 1; self.open[pid] = m; self.sent.append(m)
            try: c.send(publish(c.ver, m[0], m[1], self.q, self.retain, pid))
            except OSError: return

def wait_exit(ctx, b, ws, t0, limit, what):
    while b.proc.poll() is None:
        for w in ws: w.pump(0.002)
        if time.monotonic() - t0 > limit: st = b.stacks(); b.proc.kill(); raise Violation("%s: no exit within %d s\n%s" % (what, limit, st))
    b.errf.close(); ctx.peak("shutdown_ms", int(1000 * (time.monotonic() - t0)))
    for w in ws:
        for _ in range(3): w.pump(0)
    b.check_reports()

def load(ctx, k):
    r = ctx.rng; T = r.choice([1, 2, 3, 4]); on = {f for f in FEATS if r.random() < 0.35}; what = "%s, %d threads" % (sorted(on), T); ctx.step(what)
    conf = dict(save_state_interval=300, expire_sessions_after_seconds=0); user = {}
    if "plugin" in on: conf.update(plugin=p14.plugin(), plugin_opt_log="{dir}/plug"); user = dict(user="u", pw="good")
    s = Site(ctx, T, conf, "dns" in on)
    b = s.b; w = s.w; u = Uniq()
    # ---- participants
    K = lambda: r.choice(p17.KINDS)
    subs = []
    for i in range(6):
        ver = r.choice([4, 5]); c = s.client("tcp", "off%d" % i, ver); c.connect(clean=False, pr=[("session_expiry", NEVER)] if ver == 5 else None, **user); q = r.choice([1, 2]); c.sub(("own/#", q), ("will/#", 2)); w.barrier([c]); c.disconnect(); subs.append(dict(cid=c.cid, ver=ver, q=q, rx=Receiver(c.cid), on=False))
    def attach(x, kind, clean=False): c = s.client(kind, x["cid"], x["ver"]); x["rx"].attach(c); c.errors_ok = True; c.connect(clean=clean, pr=[("session_expiry", NEVER)] if x["ver"] == 5 else None, **user); x["c"] = c; return c
    for i in range(4):
        x = dict(cid="on%d" % i, ver=r.choice([4, 5]), q=r.choice([1, 2]), rx=Receiver("on%d" % i), on=True); c = attach(x, K()); c.ping_sent += 0; c.send(subscribe(c.ver, 9, [("own/#", x["q"]), ("will/#", 2)])); w.until(lambda: any(p.type == SUBACK for p in c.inbox) or c.acks.get((SUBACK, 9)), 20, "SUBACK"); subs.append(x)
    watch = []
    for i in range(8):
        kind = p17.KINDS[(i + k) % len(p17.KINDS)]; c = s.client(kind, "watch%d" % i, 5, name="watch%d" % i); c.errors_ok = True; c.connect(keepalive=60000, **user); c.sub("$SYS/broker/none"); watch.append((kind, c))
    wills = []; live = []
    for i in range(6):
        ver = r.choice([3, 4, 5]); delay = r.choice([0, 0, 100000]) if ver == 5 else 0; q = r.choice([1, 2]); c = s.client(K(), "will%d" % i, ver); c.errors_ok = True; pay = u(b"w" * r.choice([1, 3000])); rt = r.random() < 0.3
        c.connect(clean=True, will=dict(topic="will/%d" % i, payload=pay, qos=q, retain=rt, props={"will_delay": delay} if ver == 5 else None), pr=[("session_expiry", r.choice([0, NEVER]) if delay else 0)] if ver == 5 else None, **user)
        wills.append(dict(c=c, pay=pay, q=q, due=not delay, topic="will/%d" % i, retain=rt))
    liveobs = s.client("tcp", "liveobs", 5); liveobs.errors_ok = True; liveobs.connect(**user); liveobs.sub(("will/#", 0)); w.barrier([liveobs])
    pubs = [Publ(s, "p%d" % i, r.choice([4, 5]), K(), r.choice([1, 2]), ["own/%d" % i, "own/%d/x" % i], user=user) for i in range(3)]
    rets = [Publ(s, "r%d" % i, r.choice([4, 5]), K(), 1, ["ret/%d/%d" % (i, j) for j in range(r.choice([3, 200]))], retain=True, user=user) for i in range(2)]
    if "manyret" in on:
        c = pubs[0].c
        for i in range(4000): c.send(publish(c.ver, "many/%d/%d" % (i % 7, i), b"m" * 50, 0, True))
        w.barrier([c])
    so = Soup(ctx, w, b, n=8, kinds=[{}, {"ws": True, "port": b.ports["ws"]}], users=[("u", "good"), ("u", "async-3-good"), ("x", "bad")] if "plugin" in on else None, cmd="plugin" in on) if "soup" in on else None
    if "slowreader" in on:
        c = s.client("tcp", "slow", 4, rcvbuf=4096); c.errors_ok = True; c.connect(clean=False, **user); c.sub(("own/#", 1), ("many/#", 0)); c.pause()
    if "slow" in on: b.slow(r.choice(["etainedMessage", "Session::", "Client::", "SubscriptionStore", "ThreadData", "aveS", "MainApp"]), r.choice([300, 3000]), r.choice([10, 50]))
    stop = [False]
    def disturb():
        try: disturb_()
        except OSError: pass      # a reload replaces the listeners
    def disturb_():
        x = r.random()
        if x < 0.3 and "reload" in on: b.conf["max_qos_bytes_pending_per_client"] = r.choice([1 << 28, 1 << 29]); b.write("flashmq.conf", b.conf_text()); b.hup(); ctx.count("reloads")
        elif x < 0.5 and "saving" in on: b.advance(301); ctx.count("background_saves")
        elif x < 0.7 and "clock" in on: b.advance(r.choice([2.1, 10.1, 61, 2000])); ctx.count("clock_jumps")
        elif x < 0.9 and "halfopen" in on:
            p = r.choice(["tcp", "tls", "ws", "wss", "px"]); q = socket.socket(); q.connect(("127.0.0.1", b.ports[p])); q.sendall(r.choice([b"", b"\x10", connect(5, "half", True, 60000)[:-3], b"\x16\x03\x01", b"GET /"])); s.open.append(q)
        elif x < 0.95 and "manyret" in on: c = s.client("tcp", "", 4); c.errors_ok = True; c.connect(**user, wait=False); c.send(subscribe(4, 1, [("#", 0)]))
    # ---- load
    for i in range(r.choice([3, 30, 150])):
        for p in pubs + rets: p.go(r, r.choice([1, 5, 20]))
        if so: so.run(4)
        if r.random() < 0.15: disturb()
        w.pump(0 if r.random() < 0.7 else 0.003)
    if r.random() < 0.5:
        for p in pubs + rets: p.go(r, 20)
    if r.random() < 0.4: disturb()
    late = []
    if "late" in on:    # connections that are there and log in around the signal
        for i in range(16):
            try: c = s.client(K() if i % 2 else "tcp", "late%d" % i, 4)
            except OSError: continue      # a reload replaces the listeners
            c.errors_ok = True; late.append(dict(c=c, pay=u(b"l"), q=1, topic="will/late/%d" % i, retain=False, due=True, sent=False))
        if r.random() < 0.3: w.barrier([liveobs])
    def late_connect():
        for x in late:
            if not x["sent"] and r.random() < 0.3: x["sent"] = True; x["c"].connect(clean=True, will=dict(topic=x["topic"], payload=x["pay"], qos=1, retain=False), wait=False, **user); return
    if r.random() < 0.5:    # connections lost right before
        for x in wills[:3]: x["c"].drop(rst=r.random() < 0.5)
    for x in pubs + rets: x.stopped = True
    for x in watch + [(0, c) for c in [liveobs]]:
        if not x[1].open: raise Violation("%s: %s was disconnected (%s)" % (what, x[1].name, x[1].disc))
    live = [x["c"].open for x in subs if x["on"]]
    for i in range(r.choice([0, 2, 10])): late_connect()
    sig = r.choice([signal.SIGTERM, signal.SIGINT]); b.expected_dead = True; t0 = time.monotonic(); b.proc.send_signal(sig)
    if "twice" in on: time.sleep(r.choice([0, 0.001, 0.02])); b.proc.send_signal(r.choice([signal.SIGTERM, signal.SIGINT, signal.SIGHUP]))
    end = time.monotonic() + 20
    while b.proc.poll() is None and time.monotonic() < end:
        try:
            late_connect()
            for p in pubs + rets: p.go(r, 2)
            if so: so.run(2)
        except OSError: pass
        w.pump(0.001)
    wait_exit(ctx, b, [w], t0, 40, what)
    ctx.eval(("exit", tuple(sorted(on)), T))
    if b.proc.returncode != 0: raise Violation("%s: exit status %d\n%s" % (what, b.proc.returncode, b.tail()))
    if so: so.close()
    for q in s.open: q.close()
    # ---- what clients saw
    for kind, c in watch:
        if c.open: c.w.until(lambda: not c.open, 5, "close of %s" % c.name)
        if c.disc is None or c.disc.rc != 0x8B: raise Violation("%s: idle MQTT 5 client over %s got %s instead of DISCONNECT 0x8B" % (what, kind, c.disc))
        ctx.eval(("disconnect", kind)); ctx.count("disconnects_told")
    seen_live = {bytes(p.payload) for p in liveobs.pubs}
    for x in wills:
        if x["due"]:
            ctx.eval(("will live", x["q"], x["retain"]))
            if x["pay"] not in seen_live: raise Violation("%s: will of %s was not sent to a connected observer" % (what, x["topic"]))
    if liveobs.disc is None or liveobs.disc.rc != 0x8B: raise Violation("observer got %s" % liveobs.disc)
    if "plugin" in on:
        bad = [l for l in open(b.path("plug")) if '"BAD"' in l or "BAD" in l[:20]]
        if bad: raise Violation("plugin: " + bad[0])
    # ---- what the next one knows
    for x in list(w.clients):
        if hasattr(x, "s"): x.drop()
    b.set("tcount", 0); b.set("dns_ms", 0); b.start(); w = s.w = ctx.world(b)
    want = {m[1]: (m[0], p.q) for p in pubs for m in p.acked}; ctx.count("messages_acknowledged", len(want)); possible = {m[1] for p in pubs for m in p.sent}
    for x in subs:
        c = attach(x, "tcp"); w.barrier([c]); w.barrier([c]); w.settle(0.01); w.barrier([c])
        for _ in range(400):    # windows
            n = len(x["rx"].app); w.barrier([c]); w.pump(0.001)
            if n == len(x["rx"].app) and set(want) <= set(x["rx"].app): break
            b.advance(0.06) if len(x["rx"].app) == n else None
        from collections import Counter
        got = Counter(x["rx"].app)
        for pay, (t, q) in want.items():
            ctx.eval(("message", min(q, x["q"]), x["on"], k))
            if not got[pay]: raise Violation("%s: %s (%s, QoS %d, %d of %d) lost %s %r, which was acknowledged before the signal" % (what, x["cid"], "connected" if x["on"] else "offline", x["q"], sum(m in got for m in want), len(want), t, pay[:30]))
            if min(q, x["q"]) == 2 and got[pay] > 1: raise Violation("%s: %s got QoS 2 message %r %d times" % (what, x["cid"], pay[:30], got[pay]))
        for wi in wills + [x for x in late if x["c"].connack is not None and x["c"].connack.rc == 0]:
            if wi["due"]:
                if wi["topic"].startswith("will/late"): ctx.count("late_wills_judged")
                ctx.eval(("will", wi["q"], x["on"])); ctx.count("wills_judged")
                if not got[wi["pay"]]: raise Violation("%s: will of %s not delivered to the session of %s" % (what, wi["topic"], x["cid"]))
        ctx.count("sessions_judged"); c.drop()
    c = s.client("tcp", "checker", 4); c.connect(**user); c.sub(("ret/#", 1), ("will/#", 0), ("many/#", 0)); w.barrier([c]); w.barrier([c]); w.settle(0.02); w.barrier([c])
    for _ in range(100):    # given in portions
        n = len(c.pubs); b.advance(0.06); w.settle(0.02); w.barrier([c])
        if n == len(c.pubs) and _ > 5: break
    have = {p.topic: bytes(p.payload) for p in c.pubs if p.retain}
    for p in rets:
        last = {}; order = {m: i for i, m in enumerate(p.sent)}
        for m in p.acked: last[m[0]] = order[m]
        for t, i in last.items():
            ctx.eval(("retained", k)); ctx.count("retained_judged")
            if t not in have or (t, have[t]) not in order or order[(t, have[t])] < i: raise Violation("%s: retained message of %s is %r; number %d of its publisher was acknowledged before the signal (set of %d)" % (what, t, have.get(t, b"")[:30], i + 1, len(p.sent)))
    for wi in wills:
        if wi["due"] and wi["retain"] and have.get(wi["topic"]) != wi["pay"]: raise Violation("%s: will of %s was not retained" % (what, wi["topic"]))
    if "manyret" in on and sum(t.startswith("many/") for t in have) != 4000: raise Violation("%s: %d of 4000 retained messages left" % (what, sum(t.startswith("many/") for t in have)))
    for x in list(w.clients):
        if hasattr(x, "s"): x.drop()
    b.stop(timeout=60)

class Site(p17.Site):
    def __init__(self, ctx, T, conf, dns):
        S = {"fullchain": "{dir}/srv.crt", "privkey": "{dir}/srv.key"}; self.open = []
        L = [{"name": "tcp"}, dict(name="tls", **S), {"name": "ws", "protocol": "websockets"}, dict(name="wss", protocol="websockets", **S), {"name": "px", "haproxy": "on"}, {"name": "pxws", "protocol": "websockets", "haproxy": "on"}, dict(name="pxtls", haproxy="on", **S), {"inet_protocol": "unix", "unix_socket_path": "{dir}/sock"}]
        self.b = ctx.broker(start=False, threads=T, listeners=L, storage=True, leaks=True, conf=dict(BIGQ, **conf), extra="\nbridge {\n clientid_prefix br\n address localhost\n port 9\n publish out/#\n}\n" if dns else "")
        if dns: self.b.set("dns_ms", ctx.rng.choice([50, 3000, 20000]))
        self.tls = p17.contexts(self.b.dir); self.b.start(); self.w = ctx.world(self.b); self.ctx = ctx
        self.b.port = self.b.ports["tcp"]

def idle(ctx, k):
    """Nothing going on."""
    for sig in (signal.SIGTERM, signal.SIGINT):
        b = ctx.broker(threads=ctx.rng.choice([1, 4, 8]), storage=True, leaks=True); t0 = time.monotonic(); b.stop(sig, timeout=20); dt = time.monotonic() - t0
        if dt > 10: raise Violation("idle broker took %.1f s to stop" % dt)
        ctx.eval(("idle", sig))

def startup(ctx, k):
    """The signal comes while the state is being loaded or things are being set up: what is on disk stays good."""
    r = ctx.rng; b = ctx.broker(threads=2, storage=True, conf=dict(BIGQ)); w = ctx.world(b); N = 6000; c = Client(w, b, "c", 4); c.connect()
    d = Client(w, b, "ses", 4); d.connect(clean=False); d.sub(("q/#", 1)); w.barrier([d]); d.disconnect()
    for i in range(N): c.send(publish(4, "r/%d/%d" % (i % 50, i), b"v%d" % i, 0, True))
    for i in range(200): c.pub("q/%d" % i, b"q%d" % i, 1)
    w.barrier([c]); c.disconnect(); b.stop(); rcs = []
    for i in range(12 if not ctx.thorough else 60):
        b.start(wait=False); dt = r.random() * r.choice([0.02, 0.1, 0.4]); time.sleep(dt); b.expected_dead = True; b.proc.send_signal(r.choice([signal.SIGTERM, signal.SIGINT])); t0 = time.monotonic()
        while b.proc.poll() is None:
            time.sleep(0.005)
            if time.monotonic() - t0 > 30: raise Violation("signal %d ms after the start: no exit within 30 s\n%s" % (dt * 1000, b.stacks()))
        b.errf.close(); b.check_reports(); rc = b.proc.returncode; rcs.append(rc); ctx.eval(("startup", rc, int(dt * 20)))
        if rc not in (0, -15, -2): raise Violation("signal %d ms after the start: exit status %d\n%s" % (dt * 1000, rc, b.tail()))
        ctx.count("stopped_orderly" if rc == 0 else "stopped_before_handlers")
    b.start(); w = ctx.world(b); c = Client(w, b, "x", 4); c.connect(); c.sub("r/#"); w.barrier([c]); w.barrier([c]); n = len({p.topic for p in c.pubs})
    if n != N: raise Violation("%d of %d retained messages left after signals during start-up (%s)" % (n, N, rcs))
    d = Client(w, b, "ses", 4); d.connect(clean=False); w.barrier([d]); w.barrier([d])
    if [bytes(p.payload) for p in d.pubs] != [b"q%d" % i for i in range(200)]: raise Violation("queue of a session after signals during start-up: %d messages (%s)" % (len(d.pubs), rcs))
    b.stop()

def deferred(ctx, k):
    """Retained messages are stored later when the store is busy; the signal comes while they wait."""
    r = ctx.rng; b = ctx.broker(threads=r.choice([2, 3, 4]), storage=True, conf=dict(BIGQ, set_retained_message_defer_timeout=r.choice([1000, 30000]))); w = ctx.world(b)
    c = Client(w, b, "fill", 4); c.connect()
    for i in range(1500): c.send(publish(4, "old/%d/%d" % (i % 9, i), b"o", 0, True))
    w.barrier([c]); b.slow(r.choice(["giveClientRetainedMessages", "RetainedMessage"]), r.choice([100, 400]), r.choice([1, 5]))
    rd = []
    for i in range(6): d = Client(w, b, "rd%d" % i, 4); d.connect(); d.errors_ok = True; rd.append(d)
    p = Client(w, b, "pub", 5); p.connect(); p.errors_ok = True; got = set(); sent = {}; p.on_packet = lambda x: got.add(x.pid) if x.type == PUBACK else None; p.ack = True
    for rnd in range(r.choice([1, 3])):
        for d in rd: d.send(subscribe(4, 5, [("old/#", 0)]))
        time.sleep(r.choice([0.002, 0.02]))
        for i in range(40): n = len(sent) + 1; sent[n] = "new/%d/x%d" % (n, n); p.send(publish(5, sent[n], b"n%d" % n, 1, True, n))
        w.until(lambda: len(got) == len(sent), 60, "PUBACKs")
    b.expected_dead = True; b.proc.send_signal(signal.SIGTERM); t0 = time.monotonic(); wait_exit(ctx, b, [w], t0, 60, "deferred retained messages")
    if b.proc.returncode: raise Violation("exit status %d\n%s" % (b.proc.returncode, b.tail()))
    for x in list(w.clients): x.drop()
    b.set("tcount", 0); b.start(); w = ctx.world(b); c = Client(w, b, "y", 4); c.connect(); c.sub("new/#"); w.barrier([c]); w.barrier([c]); have = {q.topic: bytes(q.payload) for q in c.pubs}
    for n, t in sent.items():
        ctx.eval(("deferred", n, k))
        if have.get(t) != b"n%d" % n: raise Violation("retained message of %s (number %d of %d), acknowledged before the signal, is lost (%d are there)" % (t, n, len(sent), len(have)))
    b.stop()
