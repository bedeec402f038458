from common import *
RULE = ("Clients of all versions send random pipelined requests (CONNECT variants, SUBSCRIBE/UNSUBSCRIBE with 1..40 filters, QoS 1/2 PUBLISH, retransmissions, PUBREL for known and unknown ids, PINGREQ) "
        "while deliveries run; each answer is matched with its request: type, packet id, order per type, number and value of codes, nothing missing, nothing extra, on resumed sessions and slow readers too. "
        "Other clients publish as soon as a SUBACK / UNSUBACK was read. Evaluation = one batch or one effect probe; distinct by (case, version, request mix, codes).")

def cases(tier, rng):
    n = 1 if tier == "quick" else 10
    out = [("mix-%d" % i, "mix", {"k": i, "rounds": 60}) for i in range(12 * n)]
    out += [("maxqos-%d" % q, "maxqos", {"q": q}) for q in (0, 1, 2)]
    out += [("connack-%d" % i, "connack", {"k": i}) for i in range(2 * n)]
    out += [("resumed-%d" % i, "resumed", {"k": i, "rounds": 40}) for i in range(6 * n)]
    out += [("slowreader-%d" % i, "slowreader", {"k": i}) for i in range(3 * n)]
    out += [("effect-%d" % i, "effect", {"k": i, "rounds": 40}) for i in range(10 * n)]
    out += [("acl", "acl"), ("invalid", "invalid"), ("denied", "denied")]
    return out

ACKS = (PUBACK, PUBREC, PUBCOMP, SUBACK, UNSUBACK)
class Req:
    """A client whose every answer is matched with a request."""
    def __init__(self, w, b, cid, ver, maxq=2, **kw):
        self.c = Client(w, b, cid, ver, ack=False, **kw); self.c.on_packet = self.packet; self.exp = {t: [] for t in ACKS}; self.w = w
        self.open2 = set(); self.ver = ver; self.pid = 0; self.maxq = maxq; self.mine = 0
    def packet(self, p):
        if p.type == PUBLISH and p.qos: self.c.do_ack(PUBACK if p.qos == 1 else PUBREC, p.pid)
        if p.type == PUBREL: self.c.do_ack(PUBCOMP, p.pid)
        if p.type not in ACKS: return
        L = self.exp[p.type]
        if not L: raise Violation("%s: %s nobody asked for" % (self.c.name, p))
        pid, codes = L.pop(0); got = p.codes if p.codes is not None else [p.rc]
        if pid != p.pid: raise Violation("%s: %s, but the next unanswered request has id %d" % (self.c.name, p, pid))
        if len(codes) != len(got) or any(g not in c for c, g in zip(codes, got)): raise Violation("%s (v%d): %s, expected codes %s" % (self.c.name, self.ver, p, codes))
        self.mine += 1
    def newpid(self, used=()):
        while True:
            self.pid = self.pid % 65535 + 1
            if self.pid not in self.open2 and not any(self.pid == x[0] for t in ACKS for x in self.exp[t]): return self.pid
    def sub(self, r, subs, pr=None):
        pid = self.newpid(); self.exp[SUBACK].append((pid, [(min(o & 3, self.maxq),) for f, o in subs])); return subscribe(self.ver, pid, subs, pr)
    def unsub(self, r, fs, pr=None):
        pid = self.newpid(); self.exp[UNSUBACK].append((pid, [(0, 0x11)] * len(fs) if self.ver == 5 else [])); return unsubscribe(self.ver, pid, fs, pr)
    def pub(self, topic, pay, qos, retain=False, pr=None):
        if not qos: return publish(self.ver, topic, pay, 0, retain, pr=pr)
        pid = self.newpid(); self.exp[PUBACK if qos == 1 else PUBREC].append((pid, [(0, 0x10)]))
        if qos == 2: self.open2.add(pid)
        return publish(self.ver, topic, pay, qos, retain, pid, pr=pr)
    def again(self, pid):
        self.exp[PUBREC].append((pid, [(0, 0x10)])); return publish(self.ver, "re/x", "again", 2, False, pid, dup=True)
    def rel(self, pid):
        known = pid in self.open2; self.open2.discard(pid)
        self.exp[PUBCOMP].append((pid, [(0,) if known or self.ver < 5 else (0x92, 0)])); return ack(self.ver, PUBREL, pid)
    def left(self):
        if not self.c.open: raise Violation("%s (v%d) was disconnected by valid requests (%s)" % (self.c.name, self.ver, self.c.disc))
        for t in ACKS:
            if self.exp[t]: raise Violation("%s (v%d): %d %ss are missing, the first for id %d" % (self.c.name, self.ver, len(self.exp[t]), NAMES[t], self.exp[t][0][0]))

def rand_request(q, r, other):
    x = r.random(); u = [("user", ("k%d" % i, "v")) for i in range(r.choice([0, 0, 1, 3]))] if q.ver == 5 else None
    if x < 0.2:
        subs = [(rfilter(r) if r.random() < 0.8 else "$share/g%d/%s" % (r.randint(0, 2), rfilter(r)), r.randint(0, 2)) for _ in range(r.choice([1, 1, 2, 5, 40]))]
        if q.ver == 5: subs = [(f, o | r.choice([0, 0, 8]) | (r.choice([0, 4]) if not f.startswith("$") else 0) | r.choice([0, 16, 32])) for f, o in subs]
        if q.ver == 5 and r.random() < 0.3: u = u + [("sub_id", r.choice([1, 127, 128, 16383, 268435455]))]
        return "S", q.sub(r, subs, u)
    if x < 0.35: return "U", q.unsub(r, [rfilter(r) if r.random() < 0.8 else "$share/g%d/%s" % (r.randint(0, 2), rfilter(r)) for _ in range(r.choice([1, 1, 2, 5, 40]))], u)
    if x < 0.7:
        k = r.choice([1, 1, 2, 2, 0]); return "P%d" % k, q.pub(rtopic(r), b"p" * r.choice([0, 1, 50]), k, r.random() < 0.2, u)
    if x < 0.8 and q.open2: return "R", q.again(r.choice(sorted(q.open2)))
    if x < 0.93: return "L", q.rel(r.choice(sorted(q.open2)) if q.open2 and r.random() < 0.8 else r.choice([65535, 50000, r.randint(40000, 50000)]))
    q.c.ping_sent += 1
    return "G", PING

def mix(ctx, k, rounds):
    r = ctx.rng; b = ctx.broker(threads=r.choice([1, 2, 4]), conf=BIGQ, noise=r.choice([0, 300])); w = ctx.world(b)
    qs = []
    for i in range(6):
        q = Req(w, b, "c%d" % i, [3, 4, 5][(i + k) % 3]); q.c.connect(clean=r.random() < 0.5, pr={"session_expiry": 50, "topic_alias_max": 5}); qs.append(q)
    for rd in range(rounds):
        mixes = []
        for q in qs:
            m, out = [], b""
            for _ in range(r.choice([1, 2, 5, 20])):
                a, d = rand_request(q, r, qs); m.append(a); out += d
            if r.random() < 0.3:
                for i in range(0, len(out), max(1, len(out) // 3)): q.c.send(out[i:i + max(1, len(out) // 3)])
            else: q.c.send(out)
            mixes.append((q.ver, "".join(sorted(set(m)))))
        w.barrier([q.c for q in qs])
        for q, m in zip(qs, mixes): q.left(); ctx.eval(m)
    for q in qs:
        if q.c.pongs != q.c.ping_sent: raise Violation("%d PINGRESP for %d PINGREQ" % (q.c.pongs, q.c.ping_sent))
        ctx.count("acknowledgements", q.mine)
    ctx.sample({"acknowledgements per client": [q.mine for q in qs], "deliveries meanwhile": sum(len(q.c.pubs) for q in qs)})

def maxqos(ctx, q):
    """Granted QoS with max_qos, and the handling of publishes above it by MQTT 3."""
    for action in ("drop", "disconnect"):
        b = ctx.broker(conf=BIGQ, listeners=[{"max_qos": q, "mqtt3_qos_exceed_action": action, "name": "m"}]); w = ctx.world(b)
        for ver in (3, 4, 5):
            c = Req(w, b, "c%d" % ver, ver, maxq=q); c.c.connect(); r = ctx.rng
            if ver == 5:
                mq = c.c.connack.prop("max_qos")
                if (mq if mq is not None else 2) != q or mq == 2: raise Violation("CONNACK says Maximum QoS %s, configured %d" % (mq, q))
            for rd in range(20):
                c.c.send(c.sub(r, [("t/%d" % i, r.randint(0, 2)) for i in range(rd + 1)])); w.barrier([c.c]); c.left(); ctx.eval((q, action, ver, rd))
            for k in range(0, q + 1):
                c.c.send(c.pub("t/0", "x%d" % k, k)); w.barrier([c.c]); c.left()
                g = [p for p in c.c.pubs if bytes(p.payload) == b"x%d" % k]
                if len(g) != 1 or g[0].qos > min(k, q): raise Violation("publish at QoS %d: %s" % (k, g))
            if q < 2:
                n = len(c.c.pubs); d = Client(w, b, "d%d" % ver, ver).connect(); d.send(publish(ver, "t/0", "over", 2, pid=7))
                if ver < 5 and action == "drop":
                    w.barrier([d], [c.c])
                    if not d.open: raise Violation("disconnected although the action is drop")
                    if len(d.acks.get((PUBREC, 7), [])) != 1: raise Violation("no PUBREC for the dropped publish")
                else:
                    d.wait_closed(); w.barrier([c.c])
                    if ver == 5 and (d.disc is None or d.disc.rc != 0x9B): raise Violation("expected DISCONNECT 0x9B, got %s" % d.disc)
                w.barrier([c.c])
                if len(c.c.pubs) != n: raise Violation("a publish above the maximum QoS was routed")
                ctx.eval((q, action, ver, "over"))

def connack(ctx, k):
    r = ctx.rng; b = ctx.broker(threads=3, conf=dict(BIGQ, max_packet_size=200000, max_incoming_topic_alias_value=77)); w = ctx.world(b); ids = set()
    for i in range(120):
        ver = r.choice([3, 4, 5]); cid = r.choice(["x%d" % i, ""]) if ver > 3 else "x%d" % i; clean = True if not cid or ver == 3 else r.random() < 0.5
        ka = r.choice([0, 1000, 60000, 65535]); exp = r.choice([None, 0, 1, 1000, 0xFFFFFFFF])
        if ver == 5 and not cid: clean = r.random() < 0.5
        c = Client(w, b, cid, ver, name="x%d" % i); c.connect(clean=clean, keepalive=ka, pr={} if exp is None else {"session_expiry": exp}); a = c.connack
        if a.sp: raise Violation("session present for a new client id")
        if ver == 5:
            g = dict(a.props)
            if (g.get("assigned_id") is None) != bool(cid): raise Violation("Assigned Client Identifier %r for client id %r" % (g.get("assigned_id"), cid))
            if not cid:
                if g["assigned_id"] in ids: raise Violation("assigned client id %r twice" % g["assigned_id"])
                ids.add(g["assigned_id"])
            if g.get("server_keepalive", ka) not in (ka, 5) and ka <= g["server_keepalive"]: raise Violation("server keep-alive %s for %d" % (g.get("server_keepalive"), ka))
            if g.get("max_packet", 0) != 200000: raise Violation("Maximum Packet Size %s" % g.get("max_packet"))
            if g.get("topic_alias_max") != 77: raise Violation("Topic Alias Maximum %s" % g.get("topic_alias_max"))
            if g.get("receive_max", 65535) != 65535: raise Violation("Receive Maximum %s" % g.get("receive_max"))
            e = g.get("session_expiry", exp or 0)
            if e > (exp or 0): raise Violation("session expiry %s granted for %s" % (e, exp))
        w.barrier([c]); extra = [p for p in c.inbox if p.type == CONNACK]
        if len(extra) > 1: raise Violation("%d CONNACKs" % len(extra))
        if not c.open: raise Violation("closed after CONNACK")
        ctx.eval(("connack", ver, not cid, clean, ka, exp))
        if r.random() < 0.2:
            # the second CONNECT is no valid one: no second CONNACK with success
            c.send(connect(ver, "x%d" % i)); c.wait_closed()
            if sum(1 for p in c.inbox if p.type == CONNACK) > 1: raise Violation("second CONNACK")
        elif r.random() < 0.5: c.disconnect()

def resumed(ctx, k, rounds):
    """QoS 2 publisher with unfinished exchanges over reconnects: every packet is answered again."""
    r = ctx.rng; b = ctx.broker(threads=2, conf=BIGQ); w = ctx.world(b); ver = [4, 5][k % 2]; old = set(); q = None; pid = 0
    for rd in range(rounds):
        q2 = Req(w, b, "pub", ver); q2.pid = pid; q2.open2 = set(old); q2.c.connect(clean=False, pr={"session_expiry": 1000})
        if q2.c.connack.sp != (rd > 0): raise Violation("session present is %s in round %d" % (q2.c.connack.sp, rd))
        q = q2; out = b""
        todo = list(old); r.shuffle(todo); m = ""
        for x in todo:
            y = r.random()
            if y < 0.4: out += q.again(x); m += "R"
            if 0.3 < y < 0.8: out += q.rel(x); m += "L"
            if 0.7 < y < 0.75: out += q.rel(x); m += "l"
        for _ in range(r.randint(0, 10)): out += q.pub("t", "x", 2); m += "P"
        q.c.send(out); w.barrier([q.c]); q.left(); old = set(q.open2); pid = q.pid
        # and now something the client never gets the answers of
        q.c.drop() if r.random() < 0.7 else q.c.disconnect()
        ctx.eval((ver, "".join(sorted(set(m))), len(todo) // 5)); ctx.count("acknowledgements", q.mine); w.settle(0.003)

def slowreader(ctx, k):
    """Answers wait while the client does not read; none is lost or doubled."""
    r = ctx.rng; b = ctx.broker(threads=2, conf=dict(BIGQ, client_max_write_buffer_size=100000)); w = ctx.world(b); ver = [3, 4, 5][k % 3]
    q = Req(w, b, "c", ver, rcvbuf=4096); q.c.connect(); n = 0
    for rd in range(3):
        q.c.pause()
        for _ in range(60):
            out = b""
            for _ in range(200):
                x = r.randrange(4)
                if x == 0: out += q.pub("a/b", "x", 1)
                elif x == 1: out += q.pub("a/b", "x", 2)
                elif x == 2: out += PING; q.c.ping_sent += 1
                else: out += q.sub(r, [("n/%d" % r.randint(0, 5), 1)] * 10)
            q.c.send(out); n += 200; w.pump(0.001)
        q.c.resume(); w.until(lambda: not q.c.outbuf, 30, "requests to be sent"); w.barrier([q.c]); q.left(); ctx.eval(("slow", ver, rd), n=12000)
    ctx.count("acknowledgements", q.mine)

def effect(ctx, k, rounds):
    """As soon as the SUBACK/UNSUBACK was read, the subscription is in force/gone, for publishers on any thread."""
    r = ctx.rng; b = ctx.broker(threads=r.choice([2, 4]), conf=BIGQ, noise=r.choice([0, 200, 1000])); w = ctx.world(b); n = 0
    b.slow(r"SubscriptionStore::(addSubscription|removeSubscription|getDeepestNode|queuePacketAtSubscribers|removeSubscription)|SubscriptionNode::(addSubscriber|removeSubscriber)", r.choice([50, 500, 3000]), 2)
    pubs = [Client(w, b, "p%d" % i, [3, 4, 5][i % 3]).connect() for i in range(4)]
    subs = [Client(w, b, "s%d" % i, [3, 4, 5][i % 3]).connect() for i in range(8)]
    state = [{} for _ in subs]
    filters = ["e/%d" % i for i in range(6)] + ["e/+", "e/#", "+/1", "$share/g%d/e/1"]
    for rd in range(rounds):
        # all change at once; each probes as soon as its own acknowledgement arrived
        probes = []; wait = {}
        noise = [c for c in pubs]
        for i, s in enumerate(subs):
            f = r.choice(filters).replace("%d", str(i)) if "%d" in filters[-1] else r.choice(filters)
            if f in state[i] and r.random() < 0.6: wait[i] = ("U", f, s.unsub(f, wait=False))
            else: wait[i] = ("S", f, s.sub((f, r.randint(0, 2)), wait=False))
        for c in noise: c.pub("e/%d" % r.randint(0, 5), "noise", qos=r.choice([0, 1]), wait=False)
        while wait:
            w.pump(0.05)
            for i in list(wait):
                kind, f, pid = wait[i]; t = SUBACK if kind == "S" else UNSUBACK; s = subs[i]
                if not s.acks.get((t, pid)): continue
                s.acks.pop((t, pid)); del wait[i]
                if kind == "S": state[i][f] = 1
                else: state[i].pop(f)
                core = share(f)[1]; topic = {"e/+": "e/3", "e/#": "e", "+/1": "zz/1"}.get(core, core); n += 1; pay = b"probe%d" % n
                # nobody but this client's state decides; its other filters are stable until its next request
                expect = sum(1 for g in state[i] if match(share(g)[1], topic)); r.choice(pubs).pub(topic, pay, qos=r.choice([0, 1, 2]), wait=False)
                probes.append((i, kind, f, topic, pay, expect))
        w.barrier(pubs, subs, subs)
        for i, kind, f, topic, pay, expect in probes:
            got = sum(1 for p in subs[i].pubs if bytes(p.payload) == pay)
            if got != expect: raise Violation("after %s of %r a message on %r arrived %d times instead of %d (subscriptions %s)" % ("SUBACK" if kind == "S" else "UNSUBACK", f, topic, got, expect, sorted(state[i])))
            ctx.eval((kind, f, topic, expect, len(state[i])))
        for s in subs: s.pubs.clear(); s.inbox.clear()

def acl(ctx):
    """Denied filters have their failure code at their place."""
    b = ctx.broker(conf=dict(BIGQ, mosquitto_acl_file="{dir}/acl"), files={"acl": "topic readwrite ok/#\nuser u\ntopic readwrite ok/#\n"}); w = ctx.world(b); r = ctx.rng
    for ver in (3, 4, 5):
        c = Req(w, b, "c%d" % ver, ver); c.c.connect()
        for rd in range(40):
            for _ in range(r.randint(0, 4)):
                t = r.choice(["ok/a", "no/a"]); q = r.choice([1, 2])
                d = c.pub(t, "x", q)
                if t == "no/a" and ver == 5:
                    c.exp[PUBACK if q == 1 else PUBREC][-1] = (c.pid, [(0x87,)]); c.open2.discard(c.pid)
                c.c.send(d)
            for x in sorted(c.open2): c.c.send(c.rel(x))
            w.barrier([c.c]); c.left(); ctx.eval(("acl", ver, rd))

def invalid(ctx):
    """Unacknowledged: requests that are refused outright get no acknowledgement before the connection ends."""
    b = ctx.broker(conf=BIGQ); w = ctx.world(b)
    for ver in (3, 4, 5):
        for d in (subscribe(ver, 5, []), unsubscribe(ver, 5, []), subscribe(ver, 5, [("a/#/b", 0)]), subscribe(ver, 5, [("ok", 0), ("b+", 1)]), unsubscribe(ver, 5, ["x#"]), subscribe(ver, 0, [("a", 0)])):
            c = Client(w, b, "c", ver, ack=False).connect(); c.send(d); c.wait_closed()
            if c.acks: raise Violation("acknowledgement %s of an invalid request" % c.acks)
            ctx.eval(("invalid", ver, d[:6]))

def denied(ctx):
    """Refused filters get their failure code at their place, the others are granted and work."""
    b = ctx.broker(threads=2, conf=dict(BIGQ, minimum_wildcard_subscription_depth=2)); w = ctx.world(b); r = ctx.rng; p = Client(w, b, "p", 4).connect()
    for ver in (3, 4, 5):
        q = Req(w, b, "c%d" % ver, ver); q.c.connect(); n = 0
        for rd in range(40):
            subs = [(r.choice(["#", "+/b", "a/#", "a/b/#", "a/b", "a/b/+", "a/+/c", "q/w/#"]), r.randint(0, 2)) for _ in range(r.randint(1, 12))]
            d = q.sub(r, subs); bad = [min([i for i, l in enumerate(f.split("/")) if l in "+#"] + [99]) < 2 for f, o in subs]
            q.exp[SUBACK][-1] = (q.pid, [((o if ver == 3 else 0x80 if ver == 4 else 0x87),) if x else (o,) for (f, o), x in zip(subs, bad)])
            q.c.send(d); w.barrier([q.c]); q.left(); ok = {f for (f, o), x in zip(subs, bad) if not x}; n = len(q.c.pubs)
            for t in ("a/b", "a/b/c", "q/w/e", "x"): p.pub(t, "%d" % rd)
            w.barrier([p], [q.c]); got = len(q.c.pubs) - n; want = sum(match(f, t) for f in ok for t in ("a/b", "a/b/c", "q/w/e", "x"))
            if got != want: raise Violation("%d deliveries for the granted filters %s, expected %d" % (got, sorted(ok), want))
            q.c.send(q.unsub(r, sorted(ok) + ["a/b"])); w.barrier([q.c]); q.left(); ctx.eval(("denied", ver, tuple(bad), len(ok)))
